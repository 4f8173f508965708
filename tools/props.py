import json
P=[]
def p(id,title,st,over,qt,why,files,mech,obs,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    assert st.count('. ')<=2,(id,st.count('. '))
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=hook)))
CH='bitcoinx/chain.py'
p('C01','A header is accepted only if it links, has the required bits and meets PoW',
 'Whatever order, duplication or interleaving headers arrive in, a header offered to a header store is accepted exactly when its predecessor is already stored, its difficulty bits equal what the coin\'s rules require on that branch, and its hash meets the target; otherwise it is rejected with the matching error (missing predecessor, wrong bits, insufficient work). A rejected header leaves no trace: the stored headers, chains, lookups, work and file contents stay what they were. Offering again a header already accepted succeeds, returns the same header and chain, and changes nothing.',
 ['histories','schedules','inputs'],'every arrival schedule of valid, orphan, duplicate, corrupted, wrong-difficulty and under-worked headers over any fork tree and any checkpoint',
 'tests/test_chain.py connects a handful of fixed headers in order with PoW taken from recorded mainnet files; no test explores arrival orders, forks combined with rejections, or that a rejection leaves all state (memory and file) untouched.',
 [CH,'bitcoinx/coin.py','bitcoinx/work.py'],[('Headers.connect',CH),('Headers.required_bits',CH),('Header.target/hash_value','bitcoinx/coin.py')],['Headers.connect','Headers.lookup','Headers.chains','len(Headers)'],
 [dict(name='stored headers',meaning='ordered log of accepted headers',where='chain.py _HeaderStorage')])
p('C02','Every stored header is found by hash and height, on the right chain',
 'After any history of accepted headers and forks, every stored header can be looked up by hash and by height on every chain containing it and comes back with exact bytes, hash, height and chain, and nothing else is found. Chain parents, fork points, common ancestors and heights agree with the true header tree, however small the cache is, however hashes collide in their short form, and however many stores one process holds. Heights never set below a checkpoint, and hashes never stored, report a missing header.',
 ['histories','inputs','configurations'],'every header tree and arrival order, cache size, checkpoint height with holes, and set of stores open in one process',
 'tests use few forks, the default cache (which hides the slow path for small stores), and no short-hash collisions, so wrong-index and cache-miss behaviour is unexplored.',
 [CH],[('Headers.lookup / _header_index_slow / cache trimming',CH),('Chain.header_index / parent_heights / common_chain_and_height',CH)],['Headers.lookup','Headers.header_at_height','Headers.raw_header_at_height','Chain.common_chain_and_height','Chain.parent_heights','Headers.set_one'],
 [dict(name='short-hash index and cache',meaning='in-memory acceleration of lookup',where='chain.py Headers')])
p('C03','Chain work is exact and nodes given the same headers agree on the best chain',
 'The work of every chain, and the work of any range or prefix of it, equals the exact sum of the work implied by the bits of its headers including the checkpoint\'s prior work. The reported longest chain always has the greatest work among all branches. Nodes that end up with the same headers, whatever delivery order, partitions, losses and restarts they went through, agree on every branch\'s work, on the set of tips, and on the best tip whenever the greatest work is unique.',
 ['schedules','histories','fault_sequences'],'every delivery schedule among several nodes: delay, reorder, duplicate, loss, partition and heal, restart, clock skew',
 'tests check work on single linear chains or one fork from one order of arrival; agreement between nodes is never exercised.',
 [CH,'bitcoinx/work.py'],[('Chain.append, Chain.work, chainwork_range, chainwork_to_height, longest_chain',CH),('bits_to_work','bitcoinx/work.py')],['Headers.longest_chain','Chain.work','Headers.chainwork_range','Headers.chainwork_to_height'])
p('C04','Closing and reopening a header store changes nothing observable',
 'After any history of accepted headers, forks and heights set below the checkpoint, closing the store and opening its file again yields the same stored headers, chains, parents, fork points, tips, heights, work and lookups as before, and later headers are accepted or rejected exactly as if the store had stayed open. This holds for any number of restarts, file growths and earlier contents. Opening alone never alters the stored headers.',
 ['histories','crash_points'],'every history of connects, set heights, growth of the file and clean restarts at any point',
 'tests reopen once after one linear append or one fork; restart in the middle of multi-fork histories, or several times, with growth in between, is not sampled.',
 [CH,'bitcoinx/util.py'],[('Headers._read_headers/_read_header',CH),('_HeaderStorage.open_or_create',CH),('map_file','bitcoinx/util.py')],['Headers.from_file','all read operations'])
p('C05','A process crash at any instant never loses accepted headers or the store',
 'If the process dies at any point while creating, opening, growing or extending a header file, opening the file again succeeds and holds every header whose acceptance had completed before the death, plus at most the one in flight, with nothing altered or invented. The reopened store keeps working: it accepts and rejects further headers exactly as a never-crashed store with those headers would. This includes dying again during the recovery itself.',
 ['crash_points','histories'],'process death before, between or in the middle of any file or memory-map write made by any sequence of operations',
 'no test kills the process or interrupts a write; the order of the count and header stores, growth, and creation is unobservable to them.',
 [CH,'bitcoinx/util.py'],[('order of header and count stores in _set_raw_header',CH),('_create_file then _open_file',CH),('map_file growth','bitcoinx/util.py')],['Headers.from_file after a simulated death'],
 [dict(name='header file',meaning='reserved area with count, then 80-byte headers',where='chain.py _HeaderStorage')])
p('C06','After power loss the store opens and holds every flushed header',
 'If power is lost at any moment, so that any subset of sector writes made since the last completed flush may be lost, torn at sector granularity or applied out of order, the header file still opens and holds, in order, every header accepted or set before the last completed flush. What it holds beyond those is made only of headers that had really been accepted, correctly linked. It then keeps working as a store holding those headers, including through a second power loss.',
 ['crash_points','fault_sequences'],'every instant of power loss and every subset of unsynced sectors that survives',
 'tests never simulate lost or reordered writes; a flush is not even observed.',
 [CH],[('Headers.flush',CH),('Headers._read_headers recovery',CH)],['Headers.from_file after simulated power loss'],
 [dict(name='unsynced sectors',meaning='writes since last flush',where='memory map of the header file')])
p('C07','An I/O failure surfaces as an error and leaves the header store usable',
 'When any single system call used by the header store fails (no space, I/O error, too many open files, out of memory, permission, read-only), the operation raises an operating-system error or completes; it never reports success for a header it did not store. Previously accepted headers stay readable in the running process, in the file, and after a restart. Once the fault is gone, retrying the operation succeeds and the store behaves as if the fault had never happened.',
 ['fault_sequences','histories'],'every operation, every system call it makes, every error that call can return, at any point of a history',
 'no test injects any I/O error.',
 [CH,'bitcoinx/util.py'],[('_set_raw_header growth path',CH),('map_file','bitcoinx/util.py'),('open_or_create exception filter',CH)],['Headers.connect','Headers.from_file','Headers.flush','Headers.set_one'])
p('C08','A damaged or foreign header file is detected on open, never misread',
 'Opening a file that is empty, truncated at any length, not a header file, of an unknown version, whose bookkeeping fields are damaged, or written for a different checkpoint, either gives a fresh store for the requested checkpoint or a store holding a prefix of the headers the file really had, correctly linked (for an unknown version, always a fresh store). It never raises an internal error, never serves a header that was not accepted or set, and never leaves a store on which later acceptances overwrite each other or are lost. Opening fails only if the operating system reports an error, and if the file could not even be read it is left alone.',
 ['inputs','fault_sequences','configurations'],'every truncation length, every value of the bookkeeping area, every checkpoint change, foreign content',
 'tests cover one bad version, one changed checkpoint header and one short file.',
 [CH],[('_HeaderStorage._open_file validation',CH),('open_or_create',CH),('_read_headers',CH)],['Headers.from_file'])
W='bitcoinx/work.py'
p('C09','Required difficulty follows the published rules on every branch and clock',
 'For every branch of every header tree and every candidate height and timestamp, the required difficulty bits on mainnet, testnet and scaling testnet (and the regression testnet, which the library defines by testnet\'s rules) equal those of the published rules: the fortnightly retarget, the emergency adjustment between its activation heights, the 144-block algorithm after it, and the 20-minute minimum-difficulty exception where it exists. The result depends only on that branch, the height and the timestamp, never on arrival order, other branches, or cached state. It holds however miners\' clocks are skewed, jump or run backwards.',
 ['histories','inputs','schedules'],'simulated mining histories under arbitrary block timing, clock skew and jumps, competing branches and rule-activation boundaries',
 'tests replay recorded mainnet headers around a few heights; timestamps out of order, clamps, ties, forks across boundaries and slow-block exceptions on branches are sampled by luck.',
 [W,CH,'bitcoinx/coin.py'],[('required_bits_mainnet/testnet/scaling_testnet',W),('median_time_past, chainwork_range',CH)],['Headers.required_bits','Headers.median_time_past','Headers.connect'])
p('C10','Parsing a stream yields exactly what was sent, or an error, never garbage',
 'Reading an integer, varint, byte string, list, input, output or transaction from a stream yields exactly the encoded value and consumes exactly its bytes, leaving the following bytes for the next read. If the stream ends early or a read returns fewer bytes than needed, an error is raised rather than a wrong value, and an error raised by the stream propagates unchanged. Retrying on a fresh stream after any failure gives the right result.',
 ['inputs','fault_sequences'],'every message sequence, truncation point, short read and stream error',
 'tests read from complete in-memory buffers; end-of-stream is tested only for a few integer readers.',
 ['bitcoinx/packing.py','bitcoinx/tx.py'],[('read_* functions','bitcoinx/packing.py'),('Tx.read, TxInput.read, TxOutput.read','bitcoinx/tx.py')],['Tx.read','Tx.from_bytes','read_varint','read_varbytes','read_list'])
p('C11','Generated private keys are exactly what the entropy source provided',
 'Generating a private key, an extended private key or the ephemeral key of an encryption uses the random bytes provided by the entropy source in full and unmodified: the key is the first draw that is a valid key, invalid draws and short draws are discarded and a new draw is made. An error of the entropy source propagates and never yields a key. No key is ever produced from constant, reused or partial entropy.',
 ['inputs','fault_sequences'],'every sequence of entropy-source outputs including zero, out-of-range, short, repeated draws and errors',
 'tests draw from the real source and check only validity, or one fixed short/zero sequence for plain keys.',
 ['bitcoinx/keys.py','bitcoinx/bip32.py'],[('PrivateKey.from_random','bitcoinx/keys.py'),('BIP32PrivateKey.from_random','bitcoinx/bip32.py'),('PublicKey.encrypt_message','bitcoinx/keys.py')],['PrivateKey.from_random','BIP32PrivateKey.from_random','PublicKey.encrypt_message'])
M='bitcoinx/mnemonic.py'
p('C12','Generated mnemonics and seeds faithfully encode the entropy drawn',
 'A generated BIP39 mnemonic encodes exactly the requested number of entropy bits drawn from the system source with the correct checksum and decodes back to them. A generated Electrum mnemonic has the word count implied by its requested bits, is valid for its prefix, is not a valid old-style seed when that is to be avoided, and derives from the entropy drawn by a search that only steps away from it; an old-style seed is exactly the bytes drawn and survives conversion to words and back. Distinct entropy gives distinct BIP39 mnemonics and old-style seeds, and a failing entropy source gives an error, never a mnemonic.',
 ['inputs','fault_sequences'],'every entropy output of the system source incl. extreme values, every size and word list, and source failure',
 'tests use fixed vectors for the encoding and check generated phrases only for validity.',
 [M],[('BIP39Mnemonic.generate/_from_entropy',M),('ElectrumMnemonic.generate_new/_random_integer/generate_old_seed',M)],['BIP39Mnemonic.generate','BIP39Mnemonic.is_valid','ElectrumMnemonic.generate_new','ElectrumMnemonic.generate_old_seed','ElectrumMnemonic.hex_seed_to_old','ElectrumMnemonic.old_to_hex_seed'])
K='bitcoinx/keys.py'
p('C13','Encrypted messages decrypt to the original or are rejected, on any backend',
 'A message encrypted to a public key and delivered intact is decrypted by the matching private key to exactly the original, whichever AES implementation either side has. If it is altered in transit in any way (bits flipped, bytes lost, added, duplicated, swapped or spliced from other messages, wrong magic, damaged base64 text, wrong recipient) decryption raises a decryption error and never returns other data or any other kind of error; altered base64 text that still denotes the very same bytes may also give the original. Two encryptions of the same message never share their ephemeral key.',
 ['inputs','fault_sequences','configurations'],'every message, magic, transport corruption and pairing of AES backends',
 'tests corrupt a few hand-chosen positions and run with the one AES backend installed.',
 [K,'bitcoinx/aes.py'],[('PrivateKey.decrypt_message',K),('PublicKey.encrypt_message',K),('aes_*_with_iv','bitcoinx/aes.py')],['PublicKey.encrypt_message','PrivateKey.decrypt_message'])
S='bitcoinx/signature.py'
p('C14','A signed message verifies exactly for its signer and its text',
 'A message signature delivered intact verifies against the signer\'s key and both address forms of it, recovers the signer\'s public key, and is rejected for any other message, key or address. A signature damaged in transit in its 64-byte body, in its length or in its text encoding is reported as not verified or as an invalid signature, and never as verified and never as any other error. Verification against an address always answers with true or false for any signature bytes or text.',
 ['inputs','fault_sequences'],'every key, message, hasher, signature corruption, replay and mix-up of signatures in transit',
 'tests use a few fixed messages and hand-picked bad signatures.',
 [K,S],[('PublicKey.verify_message, verify_message_and_address, from_signed_message',K),('to_recoverable_signature',S)],['PrivateKey.sign_message','PublicKey.verify_message','PublicKey.verify_message_and_address','PublicKey.from_signed_message'])
p('C15','A corrupted key or address text is rejected, never read as another one',
 'A private key in WIF text, an extended key, a base58 address or a cash address that is mistyped or damaged in transit (characters changed, dropped, added, swapped, case changed, truncated, spliced, prefix of another network) is either rejected with a value error or read as exactly the original key or address. It is never read as a different key, address kind, network or flag, and a text that encodes no key or address is refused even if its checksum is good. Intact text always reads back as the original.',
 ['inputs','fault_sequences'],'every token of every kind and network and every corruption of it not itself producing another valid token',
 'tests try a handful of bad strings.',
 ['bitcoinx/base58.py','bitcoinx/cashaddr.py','bitcoinx/address.py','bitcoinx/bip32.py',K],[('base58_decode_check','bitcoinx/base58.py'),('cashaddr.decode','bitcoinx/cashaddr.py'),('Address.from_string','bitcoinx/address.py'),('bip32_key_from_string','bitcoinx/bip32.py'),('PrivateKey.from_WIF',K)],['PrivateKey.from_WIF','PrivateKey.from_text','Address.from_string','bip32_key_from_string','cashaddr.decode'])
p('C16','Concurrent use from many threads gives the results of running alone',
 'When several threads use the library at once, sharing keys, coins, word lists, scripts, transactions and read access to one header store, every call returns what it would have returned running alone, under any interleaving. First uses that fill shared caches may race without any thread seeing a partial or wrong result. No interleaving deadlocks or leaves later calls wrong, even when a call fails on I/O or is interrupted.',
 ['schedules'],'every interleaving, at byte-code granularity, of threads performing library calls on shared immutable or read-only objects',
 'the test suite is single-threaded.',
 [M,'bitcoinx/script.py','bitcoinx/util.py',K,CH,W],[('Wordlists.cache',M),('coin.output_script_templates','bitcoinx/script.py'),('cachedproperty','bitcoinx/util.py'),('lru_cache on bits',W)],['any public call from a thread'])
p('C17','Word lists load exactly or fail cleanly, in any locale and under I/O faults',
 'A word list shipped with the library loads as exactly its words, in any locale, and the old and BIP39 lists have their exact sizes. If reading its file fails or delivers damaged or truncated data that does not hold the expected number of words, an error is raised, nothing wrong is cached, and a later load succeeds. Loading again returns the same words, and asking for the old list as a BIP39 list is refused whatever was loaded before.',
 ['fault_sequences','configurations'],'every read fault, truncation and locale, at every point of a history of loads',
 'tests load the lists in the build machine\'s UTF-8 locale without faults.',
 [M],[('Wordlists._read_wordlist/_cached_wordlist/_text_to_wordlist',M)],['Wordlists.bip39_wordlist','Wordlists.original_electrum_wordlist'])
B='bitcoinx/bip32.py'
p('C18','Key derivation handles the rare invalid child and never derives a wrong key',
 'Private and public derivation of the same non-hardened child agree with each other and with the published rule, including when a step is one of the astronomically rare invalid ones: then plain derivation raises a value error and safe derivation moves to the next valid index of the same kind, on both sides alike. Hardened derivation from a public key, and indices beyond the range, are refused; a derivation path written as text means exactly its indices or is refused. A derivation that fails never leaves a key, cache or later derivation changed.',
 ['inputs','fault_sequences'],'every path and every placement of invalid intermediate results in it',
 'an invalid child occurs with probability 2^-127, so tests can never reach it without a controlled hash.',
 [B,K,'bitcoinx/hashes.py'],[('BIP32PrivateKey.child/child_safe',B),('BIP32PublicKey.child/child_safe',B)],['child','child_safe','to_extended_key_string','from_seed'])
p('C19','A co-signed transaction verifies exactly if nothing its signatures cover changed',
 'When several parties each sign their input of a shared transaction, under any sighash type, and exchange it over a network that reorders, duplicates, replays and alters it, each signature verifies on the received transaction exactly when nothing covered by its sighash type was changed: version, locktime, its own outpoint, sequence, value and script always; other outpoints, other sequences and outputs according to the type. Parties may sign in any order and signing one input never invalidates another. Computing a signature hash never changes the transaction.',
 ['schedules','fault_sequences','inputs'],'every transaction, sighash type per input, order of signing and message-level modification in transit',
 'tests check recorded signature hashes of a few transactions; which modifications a type tolerates is not explored.',
 ['bitcoinx/tx.py',S,K],[('Tx.signature_hash and its parts','bitcoinx/tx.py'),('SigHash',S)],['Tx.signature_hash','PrivateKey.sign','PublicKey.verify_der_signature'])
p('C20','Transaction finality follows lock time, height, median time and sequences',
 'A transaction is final for a block exactly when its lock time is zero, or is below the height or the time it denotes, or all its inputs are final, and once final by lock time it stays final as the chain\'s height and median time past advance. The median time past used is the middle of the last eleven timestamps of that branch however miner clocks are skewed, and never goes backwards along a branch obeying the consensus rule. The human-readable description of a lock time is in UTC whatever the machine\'s time zone.',
 ['histories','inputs','configurations'],'every lock time and set of sequences against every simulated chain history with skewed clocks, and every time zone',
 'tests check a few values around the threshold with one time zone.',
 ['bitcoinx/tx.py',CH],[('Tx.is_final_for_block','bitcoinx/tx.py'),('locktime_description','bitcoinx/tx.py'),('Headers.median_time_past',CH)],['Tx.is_final_for_block','Headers.median_time_past','Tx.to_json'])
pure=lambda id,t,s,f,m,o:p(id,t,s,['inputs'],'every value','tests check samples of an unbounded input space.',f,m,o)
pure('C21','Transactions serialize and parse back exactly, with correct size and hash','Serializing any transaction and parsing it back gives an equal transaction, the computed size equals the serialized length, and the hash is the double SHA-256 of the serialization.',['bitcoinx/tx.py','bitcoinx/packing.py'],[('Tx.to_bytes/size','bitcoinx/tx.py')],['Tx.to_bytes','Tx.size','Tx.hash'])
pure('C22','Script pushes, ops and ASM text round-trip','Pushing any data or integer and iterating the script yields it back with the minimal encoding, and converting a script to text and back yields an equivalent script.',['bitcoinx/script.py'],[('push_item, ops, to_asm, from_asm','bitcoinx/script.py')],['Script.ops','Script.to_asm','Script.from_asm'])
pure('C23','Output scripts are classified by what they pay to','Every standard output script is classified as its kind with its exact parameters and every other script is unknown; building a script from the classification gives back an equivalent script.',['bitcoinx/script.py','bitcoinx/address.py'],[('classify_output_script','bitcoinx/script.py')],['classify_output_script'])
pure('C24','Compact difficulty encoding is exact','Every valid compact difficulty converts to its target and back unchanged, any target rounds down to a valid compact form, and invalid encodings are refused.',[W],[('bits_to_target, target_to_bits',W)],['bits_to_target','target_to_bits'])
pure('C25','Keys and addresses convert to text and back one-to-one','Every private key, extended key and address converts to its text form and back unchanged for every network that has distinct parameters.',['bitcoinx/base58.py','bitcoinx/address.py',B],[('base58_encode_check','bitcoinx/base58.py')],['to_WIF','to_string','to_extended_key_string'])
pure('C26','Key arithmetic is consistent between private and public keys','Adding to, multiplying and combining keys commutes with taking the public key, and out-of-range results are refused.',[K],[('add, multiply, combine_keys',K)],['PrivateKey.add','PublicKey.add'])
pure('C27','Signature encodings convert exactly','DER and compact encodings of a signature convert to each other exactly, malformed encodings are refused, and sighash flags print as their names.',[S],[('der_signature_to_compact',S)],['Signature'])
pure('C28','Mnemonic checksums and seed derivation follow BIP39','A phrase is valid exactly if its checksum matches, and its seed is the published key stretching of its normalized form and passphrase.',[M],[('BIP39Mnemonic.is_valid/to_seed',M)],['BIP39Mnemonic.to_seed'])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,sch)
print(len(P))
