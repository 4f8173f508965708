'''C16: concurrent use from many threads gives the results of running alone.'''

import hashlib
import io

from .. import ec
from .. import model as M
from ..core import canon, check, det_bytes, digest, short
from ..disk import SimDisk
from ..hdrsim import Blocks, headers_path
from ..loader import Installation
from ..seam import WORLD
from ..threads import Interrupt, Scheduler, instrument, locks
from .c15 import cash_text, fives

ID = 'C16'
RUNS = {'quick': 7000, 'thorough': 30000}
RULE = ('one run = a freshly started library used by 2-4 threads sharing keys, coins, scripts, '
        'transactions, addresses, word lists and one header store, with a seeded scheduler '
        'deciding at every byte-code instruction, simulated I/O and lock who runs next; every '
        'result is compared with that of the same calls made alone, and all calls are repeated '
        'afterwards; I/O errors and asynchronous exceptions strike single calls; non-trivial: '
        'at least one preemption inside a call; distinct by digest of the event log (all '
        'switches and results), that is, by interleaving')
COMPONENTS = {'real': ['all modules of the library', 'Python threads', 'libsecp256k1'],
              'stub': ['the scheduler of threads', 'threading locks', 'disk', 'entropy']}
STATE_MEASURE = ('distinct (instruction preempted, function resumed) pairs')
MUST_PROBE = ('preempted', 'first use raced', 'same call raced', 'io error', 'io error survived',
              'interrupted', 'entropy', 'error result', 'repeated', 'store read', 'word list')
LISTS = ('english.txt', 'spanish.txt', 'japanese.txt', 'chinese_simplified.txt')


class World:
    '''Objects shared by all threads, made from a seed in a fresh installation.'''

    def __init__(self, seed, need):
        # The AES of a machine without Cryptodome is another implementation
        inst = Installation(without_cryptodome=bool(seed & 4))
        instrument()
        self.inst = inst
        bx = self.bx = inst.bx
        self.seed = seed
        self.coins = (bx.Bitcoin, bx.BitcoinTestnet)
        secrets = [int.from_bytes(det_bytes(31, 'key', seed, k), 'big') for k in range(3)]
        self.priv = [bx.PrivateKey.from_int(secrets[0]),
                     bx.PrivateKey(secrets[1].to_bytes(32, 'big'), False, bx.BitcoinTestnet),
                     bx.PrivateKey.from_int(secrets[2])]
        points = [ec.mul(s) for s in secrets]
        self.pub = [bx.PublicKey.from_bytes(ec.encode(p, k != 1)) for k, p in enumerate(points)]
        sers = [ec.encode(p) for p in points]
        chain = det_bytes(32, 'chain', seed)
        self.xprv = bx.bip32_key_from_string(ec.b58check(
            bytes.fromhex('0488ade4') + bytes(9) + chain + b'\0' +
            secrets[0].to_bytes(32, 'big')))
        self.xpub = bx.bip32_key_from_string(ec.b58check(
            bytes.fromhex('0488b21e') + bytes(9) + chain + sers[0]))
        h = [ec.hash160(s) for s in sers]
        self.scripts = [bx.Script(x) for x in (
            b'\x76\xa9\x14' + h[0] + b'\x88\xac', b'\xa9\x14' + h[1] + b'\x87',
            b'\x21' + sers[2] + b'\xac',
            b'\x52' + b''.join(b'\x21' + s for s in sers) + b'\x53\xae',
            b'\x6a\x04data', b'\x51\x6a', b'', b'\x4c\x05abc', det_bytes(40, 'junk', seed),
            b'\0\x63\x51\x67\x02\x01\x02\x68')]
        self.addresses = [bx.P2PKH_Address(h[0], bx.Bitcoin), bx.P2SH_Address(h[1], bx.Bitcoin),
                          bx.P2PKH_Address(h[2], bx.BitcoinTestnet)]
        self.texts = [ec.b58check(b'\0' + h[0]), ec.b58check(b'\5' + h[1]),
                      ec.b58check(b'\x6f' + h[2]), ec.b58check(b'\0' + h[0])[:-1] + '1',
                      'not an address'] + [
                          cash_address('bitcoincash', k, x) for k, x in ((0, h[0]), (1, h[1]))] + [
                          cash_address('bchtest', 0, h[2])]
        self.minikey = minikey(seed)
        tx = (b'\2\0\0\0\3' + b''.join(det_bytes(32, 'in', seed, k) + bytes([k, 0, 0, 0]) +
                                       b'\3\2ab' + b'\xff\xff\xff\xff' for k in range(3)) +
              b'\2' + b''.join((1000 * k).to_bytes(8, 'little') + b'\x19' +
                               bytes(self.scripts[0]) for k in range(2)) + bytes(4))
        self.raw_tx = tx
        self.tx = bx.Tx.from_bytes(tx)
        self.headers = None
        if need:
            self.store(seed)

    def store(self, seed):
        bx = self.bx
        self.disk = SimDisk('store', None)
        self.disk.quiet = True
        blocks = Blocks(seed, 'branch', 3)
        coin, cp = blocks.setup(bx)
        cls = type('H', (bx.Headers,), {'max_cache_size': 4}) if seed & 1 else bx.Headers
        self.headers = cls.from_file(coin, headers_path('store'), cp)
        self.hashes = [M.dsha(blocks.raw[0])]
        tips = [0]
        for i in range(1, 16):
            p = tips[-1] if i % 5 else max(0, i - 7)
            raw = blocks.build({'id': i, 'p': p, 'ts': 1_500_000_000 + 700 * i})
            self.headers.connect(raw)
            self.hashes.append(M.dsha(raw))
            tips.append(i)
        self.hashes.append(bytes(32))
        self.hashes.append(self.hashes[3][:4] + bytes(28))
        self.store_coin = coin
        if seed & 2:
            # as a process that has just started
            self.headers = cls.from_file(coin, headers_path('store'), cp)
        self.chains = sorted(self.headers.chains(), key=lambda c: c.tip.hash)


def cash_address(prefix, kind, payload):
    return cash_text(prefix, fives(bytes([kind << 3]) + payload))


def minikey(seed):
    for k in range(1 << 20):
        text = 'S' + ''.join(ec.B58[b % 58] for b in det_bytes(29, 'mini', seed, k))
        if not hashlib.sha256((text + '?').encode()).digest()[0]:
            return text


class Entropy:
    '''A source whose output depends only on the call drawing from it.'''

    def __init__(self):
        self.call = None
        self.count = {}
        self.who = lambda: self.call

    def draw(self, n):
        who = self.who()
        k = self.count[who] = self.count.get(who, 0) + 1
        return det_bytes(n, 'draw', who, k)


def pick(items, a):
    return items[a % len(items)]


def header_of(w, a):
    return pick(w.hashes, a)


FLAGS = (0, 1, 2, 4, 8, 16, 31)


def to_json(w, a):
    J = w.bx.JSONFlags
    flags = J(0)
    for k, f in enumerate(J):
        if a >> k & 1:
            flags |= f
    return w.tx.to_json(flags, pick(w.coins, a >> 8))


def encrypt(w, a):
    message = det_bytes(a % 40, 'msg', a)
    return pick(w.pub, a).encrypt_message(message)


def decrypt(w, a):
    k = a % 3
    message = det_bytes(a % 40, 'msg', a)
    return w.priv[k].decrypt_message(w.pub[k].encrypt_message(message))


def sign_verify(w, a):
    k = a % 3
    sig = w.priv[k].sign_message(b'text %d' % (a % 5))
    other = pick(w.pub, a >> 3)
    return sig, other.verify_message(sig, b'text %d' % ((a >> 6) % 5)), \
        w.bx.PublicKey.from_signed_message(sig, b'text').to_bytes()


def verify_address(w, a):
    k = a % 3
    sig = w.priv[k].sign_message(b'text %d' % (a % 5))
    # With an address, or its text
    address = pick(w.pub, a >> 3).to_address(compressed=bool(a & 16), coin=w.coins[0])
    return w.bx.PublicKey.verify_message_and_address(
        sig, b'text %d' % ((a >> 6) % 5), address.to_string() if a & 32 else address)


def signatures(w, a):
    bx = w.bx
    k = a % 3
    der = w.priv[k].sign(b'm%d' % (a % 7))
    sig = bx.Signature.from_der_sig(der, bx.SigHash(0x41 + a % 3))
    rec = w.priv[k].sign_recoverable(b'm%d' % (a % 7))
    return (sig.to_hex(), sig.to_compact(), sig.r_value(), sig.s_value(), sig.to_string(),
            bx.compact_signature_to_der(sig.to_compact()) == der,
            bx.PublicKey.from_recoverable_signature(rec, b'm%d' % (a % 7)),
            pick(w.pub, a >> 4).verify_recoverable_signature(rec, b'm%d' % (a % 7)))


def mnemonic(w, a):
    words = w.bx.Wordlists.bip39_wordlist(pick(LISTS, a))
    phrase = w.bx.BIP39Mnemonic.generate(words, (128, 160, 192, 224, 256)[a % 5])
    return phrase, w.bx.BIP39Mnemonic.is_valid(phrase, words)


def electrum(w, a):
    words = w.bx.Wordlists.bip39_wordlist(pick(LISTS, a))
    phrase = w.bx.ElectrumMnemonic.generate_new(words, prefix='1')
    return phrase, w.bx.ElectrumMnemonic.is_valid_new(phrase, '1')


def chain_walk(w, a):
    chain = pick(w.chains, a)
    return [w.headers.header_at_height(chain, h) for h in range(3, min(chain.height, 9))]


def parse_many(w, a):
    bx = w.bx
    stream = io.BytesIO(bytes([2]) + w.raw_tx * 2)
    return [t.hash() for t in bx.read_list(stream.read, bx.Tx.read)]


def build_script(w, a):
    s = w.bx.Script()
    for k in range(1 + a % 4):
        s = s << pick((k, b'abc', w.bx.OP_DUP, w.scripts[0], b'x' * 80), a + k)
    return s, s.to_asm(False), list(s.ops())


CALLS = {
    'wordlist': lambda w, a: w.bx.Wordlists.bip39_wordlist(pick(LISTS, a)),
    'oldlist': lambda w, a: w.bx.Wordlists.original_electrum_wordlist(),
    'mnemonic': mnemonic,
    'electrum': electrum,
    'oldseed': lambda w, a: w.bx.ElectrumMnemonic.generate_old_seed(),
    'hextoold': lambda w, a: w.bx.ElectrumMnemonic.hex_seed_to_old(det_bytes(16, a % 4).hex()),
    'oldtohex': lambda w, a: w.bx.ElectrumMnemonic.old_to_hex_seed(
        'like just love know never want time out there make look eye'),
    'isold': lambda w, a: w.bx.ElectrumMnemonic.is_valid_old(
        'like just love know never want time out there make look eye'),
    'classify': lambda w, a: (lambda o: (o, o.to_script()))(
        w.bx.classify_output_script(pick(w.scripts, a), pick(w.coins, a >> 5))),
    'asm': lambda w, a: pick(w.scripts, a).to_asm(bool(a & 16)),
    'ops': lambda w, a: list(pick(w.scripts, a).ops()),
    'fromasm': lambda w, a: w.bx.Script.from_asm(
        pick(('OP_DUP OP_HASH160 abcd OP_EQUAL', '0 -1 ff', 'nonsense', 'OP_RETURN 00ff'), a)),
    'template': lambda w, a: pick(w.scripts, a).to_template(),
    'scriptjson': lambda w, a: pick(w.scripts, a).to_json(
        w.bx.JSONFlags.CLASSIFY_OUTPUT_SCRIPT, bool(a & 16), pick(w.coins, a >> 5)),
    'build': build_script,
    'hash': lambda w, a: hash(pick(w.scripts, a)) == hash(bytes(pick(w.scripts, a))),
    'pubkey': lambda w, a: pick(w.priv, a).public_key,
    'address': lambda w, a: pick(w.priv, a).public_key.to_address(
        coin=pick(w.coins, a >> 4)).to_string(),
    'wif': lambda w, a: pick(w.priv, a).to_WIF(coin=pick(w.coins, a >> 4)),
    'fromwif': lambda w, a: w.bx.PrivateKey.from_text(pick(w.priv, a).to_WIF(coin=w.coins[0])),
    'minikey': lambda w, a: (w.bx.PrivateKey.from_minikey if a & 1 else
                             w.bx.PrivateKey.from_text)(w.minikey + 'x' * (a & 2)),
    'arith': lambda w, a: (pick(w.priv, a).multiply(det_bytes(32, a % 4)),
                           pick(w.pub, a).complement()),
    'verifyaddr': verify_address,
    'b64': lambda w, a: w.priv[a % 3].decrypt_message(
        w.pub[a % 3].encrypt_message_to_base64(det_bytes(a % 40, 'msg', a), b'MAG' * (a >> 6 & 1))
        , b'MAG' * (a >> 6 & 1)),
    'signatures': signatures,
    'pubscripts': lambda w, a: (pick(w.pub, a).P2PK_script(), pick(w.pub, a).P2PKH_script()),
    'bip39seed': lambda w, a: w.bx.BIP39Mnemonic.to_seed('legal winner %d' % (a % 4), 'é' * (a & 1)),
    'normalize': lambda w, a: (w.bx.BIP39Mnemonic.normalize(' A  b\u3000e\u0301'),
                               w.bx.ElectrumMnemonic.normalize_new(' A  b\u3000e\u0301')),
    'multisig': lambda w, a: (lambda o: (o.to_script(), o.hash160(), o.public_key_count()))(
        w.bx.P2MultiSig_Output(w.pub[:1 + a % 3], 1 + a % 2)),
    'pushes': lambda w, a: w.bx.push_and_drop_items([b'x' * (a % 300), b'']) +
        w.bx.push_int(a - 99) + bytes(w.bx.Script().push_many([a, b'ab', w.bx.OP_DUP])),
    'lists': lambda w, a: w.bx.pack_list(list(range(a % 300)), w.bx.pack_varint),
    'minis': lambda w, a: w.bx.is_minikey(w.minikey[:-1 - a % 2] + 'a' * (a & 1)),
    'txparts': lambda w, a: [x.to_hex() for x in w.tx.inputs + w.tx.outputs] + [
        w.tx.total_output_value(), w.tx.is_coinbase(), w.tx.are_inputs_final()],
    'random': lambda w, a: w.bx.PrivateKey.from_random(),
    'add': lambda w, a: pick(w.priv, a).add(det_bytes(32, a % 4)),
    'pubadd': lambda w, a: pick(w.pub, a).add(det_bytes(32, a % 4)),
    'pubmul': lambda w, a: pick(w.pub, a).multiply(det_bytes(32, a % 4)),
    'combine': lambda w, a: w.bx.PublicKey.combine_keys(w.pub[:1 + a % 3]),
    'point': lambda w, a: pick(w.pub, a).to_point(),
    'pubbytes': lambda w, a: (pick(w.pub, a).to_bytes(), pick(w.pub, a).to_bytes(
        compressed=bool(a & 8)), pick(w.pub, a).hash160()),
    'sign': lambda w, a: pick(w.priv, a).sign(det_bytes(20, a % 4)),
    'recsign': lambda w, a: pick(w.priv, a).sign_recoverable(det_bytes(20, a % 4)),
    'signverify': sign_verify,
    'verifyder': lambda w, a: pick(w.pub, a).verify_der_signature(
        pick(w.priv, a >> 2).sign(b'm%d' % (a % 2)), b'm0'),
    'ecdh': lambda w, a: pick(w.priv, a).ecdh_shared_secret(pick(w.pub, a >> 3)),
    'shared': lambda w, a: pick(w.priv, a).shared_secret(pick(w.pub, a >> 3), b'm%d' % (a % 4)),
    'encrypt': encrypt,
    'decrypt': decrypt,
    'child': lambda w, a: w.xprv.child(a % 5 + ((a & 1) << 31)),
    'childsafe': lambda w, a: w.xprv.child_safe(a % 5),
    'pubchild': lambda w, a: w.xpub.child(a % 5),
    'xprvpub': lambda w, a: w.xprv.public_key,
    'xkey': lambda w, a: (pick((w.xprv, w.xpub), a).to_extended_key_string(),
                          pick((w.xprv, w.xpub), a).fingerprint(),
                          repr(pick((w.xprv, w.xpub), a).derivation())),
    'path': lambda w, a: (w.bx.bip32_decompose_chain_string(pick(('m/0', "m/44'/0'/7", 'm'), a)),
                          w.bx.bip32_is_valid_chain_string(pick(('m/x', 'm/1', ''), a))),
    'fromxkey': lambda w, a: w.bx.bip32_key_from_string(
        pick((w.xprv, w.xpub), a).to_extended_key_string()),
    'parseaddr': lambda w, a: w.bx.Address.from_string(pick(w.texts, a), pick(w.coins, a >> 4)),
    'addrtext': lambda w, a: (pick(w.addresses, a).to_string(), pick(w.addresses, a).to_script()),
    'b58': lambda w, a: (w.bx.base58_encode_check(det_bytes(a % 30, a % 6)),
                         w.bx.base58_decode_check(ec.b58check(det_bytes(a % 30, a % 6)))),
    'txbytes': lambda w, a: (w.tx.to_bytes(), w.tx.hex_hash(), w.tx.size()),
    'txjson': to_json,
    'sighash': lambda w, a: w.tx.signature_hash(
        a % 4, a % 100, pick(w.scripts, a), sighash=w.bx.SigHash(0x40 | (a >> 3) % 4 |
                                                                 (a & 256) >> 1)),
    'final': lambda w, a: w.tx.is_final_for_block(a % 1000, a),
    'parse': lambda w, a: w.bx.Tx.from_bytes(w.raw_tx),
    'parsemany': parse_many,
    'varint': lambda w, a: (w.bx.pack_varint(a), w.bx.pack_varbytes(det_bytes(a % 300, 1)),
                            w.bx.varint_len(a)),
    'bits': lambda w, a: (w.bx.bits_to_target(pick((0x1d00ffff, 0x207fffff, 0x1b0404cb), a)),
                          w.bx.bits_to_work(pick((0x1d00ffff, 0x207fffff, 0x1b0404cb), a)),
                          w.bx.target_to_bits(1 << 200 + a % 20)),
    'difficulty': lambda w, a: pick(w.coins, a).bits_to_difficulty(0x1b0404cb),
    'wifcoin': lambda w, a: w.bx.Coin.from_WIF_byte(pick((0x80, 0xef, 0x01), a)).name,
    'lookup': lambda w, a: w.headers.lookup(header_of(w, a)),
    'atheight': lambda w, a: w.headers.header_at_height(pick(w.chains, a), (a >> 4) % 16),
    'rawheader': lambda w, a: w.headers.raw_header_at_height(pick(w.chains, a), (a >> 4) % 16),
    'walk': chain_walk,
    'mtp': lambda w, a: w.headers.median_time_past(pick(w.chains, a), 13),
    'longest': lambda w, a: w.headers.longest_chain(),
    'chains': lambda w, a: sorted(c.tip.hash for c in w.headers.chains()),
    'count': lambda w, a: (len(w.headers), w.headers.chain_count()),
    'work': lambda w, a: (w.headers.chainwork_to_height(pick(w.chains, a), 4 + (a >> 4) % 3),
                          pick(w.chains, a).work),
    'common': lambda w, a: pick(w.chains, a).common_chain_and_height(pick(w.chains, a >> 4)),
    'parents': lambda w, a: sorted(pick(w.chains, a).parent_heights().values()),
    'required': lambda w, a: w.headers.required_bits(pick(w.chains, a), 6, 1_500_000_000),
    'headerwork': lambda w, a: (lambda h: (h.work(), h.target(), h.hash_value(), str(h)))(
        w.headers.lookup(w.hashes[a % 16])[0]),
}
STORE = ('lookup', 'atheight', 'rawheader', 'walk', 'mtp', 'longest', 'chains', 'count', 'work',
         'common', 'parents', 'required', 'headerwork')
LISTY = ('wordlist', 'oldlist', 'mnemonic', 'electrum', 'hextoold', 'oldtohex', 'isold')
GROUPS = (LISTY, LISTY[:2], STORE, STORE,
          ('classify', 'scriptjson', 'txjson', 'template', 'asm', 'ops', 'build', 'fromasm',
           'hash', 'multisig', 'pushes', 'pubscripts'),
          ('classify', 'scriptjson'),
          ('pubkey', 'address', 'wif', 'sign', 'signverify', 'ecdh', 'shared', 'add',
           'verifyder', 'recsign', 'fromwif', 'verifyaddr', 'signatures', 'arith', 'minikey'),
          ('pubbytes', 'pubadd', 'pubmul', 'combine', 'point', 'signverify', 'encrypt',
           'decrypt', 'b64', 'arith', 'signatures', 'pubscripts'),
          ('encrypt', 'decrypt', 'b64'),
          ('child', 'childsafe', 'pubchild', 'xprvpub', 'xkey', 'fromxkey', 'path'),
          ('txbytes', 'txjson', 'sighash', 'final', 'parse', 'parsemany', 'varint', 'lists',
           'txparts'),
          ('parseaddr', 'addrtext', 'b58', 'address', 'verifyaddr', 'multisig'),
          ('random', 'encrypt', 'mnemonic', 'oldseed', 'electrum', 'decrypt'),
          ('bits', 'difficulty', 'wifcoin', 'headerwork', 'required'),
          tuple(CALLS))


def generate(rng, tier, index):
    threads = rng.choice((2, 2, 2, 3, 4))
    group = rng.choice(GROUPS)
    n = rng.choice((1, 2, 3, 6))
    ops = []
    style = rng.choice(('same', 'same', 'near', 'mixed'))
    duel = rng.random() < 0.6
    if duel:
        # Two threads make one or two calls, with few switches: cheap, and likely to hit a
        # particular place
        threads, n, style = 2, rng.choice((1, 1, 1, 2)), rng.choice(('same', 'same', 'near'))
        name = rng.choice(tuple(CALLS))
        group = (name,) if n == 1 else (name, rng.choice(next(
            (g for g in GROUPS[rng.randrange(len(GROUPS)):] if name in g), GROUPS[-1])))
    if style == 'same':
        seq = [(rng.choice(group), rng.getrandbits(16)) for _ in range(n)]
        for t in range(threads):
            for name, a in seq:
                ops.append({'op': 'call', 't': t, 'call': name, 'a': a})
    else:
        pool = [(rng.choice(group), rng.getrandbits(16)) for _ in range(2)]
        for t in range(threads):
            for _ in range(n):
                if style == 'near' and rng.random() < 0.7:
                    name, a = rng.choice(pool)
                else:
                    name, a = rng.choice(group), rng.getrandbits(16)
                ops.append({'op': 'call', 't': t, 'call': name, 'a': a})
    for k, op in enumerate(ops):
        op['id'] = k
    r = rng.random()
    if r < 0.2 and any(op['call'] in LISTY for op in ops) or r < 0.05:
        op = rng.choice(ops)
        op['fault'] = {'at': rng.randrange(4), 'do': 'err', 'pick': rng.getrandbits(10)}
    elif r < 0.35:
        for op in rng.sample(ops, rng.choice((1, 1, 2)) if len(ops) > 1 else 1):
            op['int'] = rng.choice((rng.randint(1, 30), rng.randint(1, 300)))
    kind = rng.choice(('walk', 'hot', 'hot', 'hot', 'pct') if duel else
                      ('walk', 'walk', 'hot', 'hot', 'lockstep', 'pct'))
    policy = {'kind': kind, 'seed': rng.getrandbits(40)}
    if duel and rng.random() < 0.8:
        policy['max'] = rng.choice((1, 1, 2, 3))
    if kind == 'walk':
        policy['p'] = rng.choice((1, 0.3, 0.1, 0.02, 0.005))
        policy['start'] = rng.choice((0, 0, rng.randrange(2000)))
    elif kind == 'hot':
        policy.update(p=rng.choice((0.3, 0.8)), q=rng.choice((0, 0.02, 0.2)))
        if duel:
            policy.update(p=rng.choice((0.05, 0.15, 0.4, 0.8)), q=rng.choice((0, 0, 0.02, 0.1)))
    elif kind == 'lockstep':
        policy['n'] = rng.choice((1, 1, 2, 3, 5, 11))
    else:
        policy.update(span=rng.choice((50, 300, 2000)), depth=rng.choice((1, 2, 4)))
    return {'cfg': {'policy': policy, 'world': rng.getrandbits(20)}, 'ops': ops}


def concretize(plan, recorded):
    '''The same run with its schedule written out, so that it can be minimised.'''
    ops = plan['ops'] + [{'op': 'switch', 't': t, 'c': c, 'at': at, 'to': to}
                         for t, c, at, to in recorded]
    return dict(plan, ops=ops, cfg=dict(plan['cfg'], policy={'kind': 'explicit'}))


def value(x, depth=0):
    '''A result as plain data.'''
    if depth > 8:
        return '...'
    if x is None or isinstance(x, (bool, str, float)):
        return x
    if isinstance(x, int):
        return [type(x).__name__, int(x)] if type(x) is not int else x
    if isinstance(x, (bytes, bytearray, memoryview)):
        return bytes(x).hex()
    if isinstance(x, dict):
        return {str(k): value(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [value(v, depth + 1) for v in x]
    name = type(x).__name__
    if isinstance(x, BaseException):
        return ['raised', name, str(x)]
    if name == 'Header':
        return [name, x.raw.hex(), x.height, x.hash.hex()]
    if name == 'Chain':
        return [name, x.tip.hash.hex(), x.tip.height, x.first_height, x.work]
    out = [name]
    for attr in ('to_bytes', 'to_extended_key_string', 'to_script', 'coin', 'is_compressed'):
        f = getattr(x, attr, None)
        if callable(f):
            got = f()
            out.append(got.name if attr == 'coin' and got is not None else value(got, depth + 1))
    if len(out) == 1:
        out.append(repr(x))
    return out


class Run:
    def __init__(self, plan, ctx):
        self.ctx = ctx
        self.plan = plan
        self.calls = [op for op in plan['ops'] if op['op'] == 'call']
        self.need = any(op['call'] in STORE for op in self.calls)
        self.by_thread = {}
        for op in self.calls:
            self.by_thread.setdefault(op['t'], []).append(op)

    def fresh(self):
        world = World(self.plan['cfg']['world'], self.need)
        self.data = WORLD.data_disk = SimDisk('data', None)
        self.entropy = WORLD.entropy = Entropy()
        return world

    def make(self, world, op):
        try:
            return CALLS[op['call']](world, op['a'])
        except Exception as e:
            return e

    def alone(self, world, tag=''):
        out = {}
        for op in self.calls:
            self.entropy.call = op['id']
            self.entropy.count.pop(op['id'], None)
            out[op['id']] = canon(value(self.make(world, op)))
        return out


def execute(plan, ctx):
    with locks():
        run(plan, ctx)


def run(plan, ctx):
    r = Run(plan, ctx)
    if not r.calls:
        return
    want = r.alone(r.fresh())
    world = r.fresh()
    results = {}
    early = {}
    started, ended = {}, {}
    raised = []
    first = {}
    for op in r.calls:
        first.setdefault(op['call'], op['id'])

    def body_of(ops):
        def body(t):
            for op in ops:
                t.call, t.points = op['id'], 0
                started[op['id']] = sched.total
                if op.get('fault') and 'fault' not in fired:
                    fired.append('fault')
                    r.data.begin_op(op['fault'])
                try:
                    got = CALLS[op['call']](world, op['a'])
                except Interrupt as e:
                    got = e
                except Exception as e:
                    got = e
                t.call = None
                ended[op['id']] = sched.total
                results[op['id']] = got
                early[op['id']] = canon(value(got))
                ctx.log('result', t.i, op['id'], op['call'], digest(early[op['id']]))
        return body

    fired = []
    r.data.ctx = ctx
    sched = Scheduler(plan['cfg']['policy'], ctx,
                      [(o['t'], o['c'], o['at'], o['to']) for o in plan['ops']
                       if o['op'] == 'switch'],
                      [(o['t'], o['id'], o['int']) for o in r.calls if o.get('int')])
    # Threads of a shrunk plan keep their numbers
    top = max(r.by_thread) + 1
    r.entropy.who = lambda: sched.cur.call
    sched.run([body_of(r.by_thread.get(t, ())) for t in range(top)])
    r.entropy.who = lambda: r.entropy.call
    ctx.recorded = sched.recorded
    ctx.steps += len(r.calls)
    hit = r.data.end_op()
    r.data.ctx = None
    if sched.recorded:
        ctx.fault('preemption', len(sched.recorded))
        ctx.probe('preempted')
    for where, resumed in sched.places:
        ctx.state(where, resumed)
    if hit:
        ctx.probe('io error')
    failed = 0
    for op in r.calls:
        i = op['id']
        got = results[i]
        if isinstance(got, Interrupt):
            ctx.probe('interrupted')
            continue
        if early[i] != want[i] and hit and isinstance(got, OSError):
            failed += 1
            ctx.probe('io error survived')
            continue
        check(early[i] == want[i], 'wrong-result', lambda: (
            f'thread {op["t"]}, call {i}: {op["call"]}({op["a"]}) gave {short(early[i])}; '
            f'alone it gives {short(want[i])}'))
        late = canon(value(got))
        check(late == early[i], 'result-changed', lambda: (
            f'thread {op["t"]}, call {i}: {op["call"]}({op["a"]}) gave {short(early[i])}, '
            f'which later became {short(late)}'))
        if early[i].startswith('["raised"'):
            ctx.probe('error result')
        if op['call'] in STORE:
            ctx.probe('store read')
        if op['call'] in LISTY:
            ctx.probe('word list')
        if op['call'] in ('random', 'mnemonic', 'oldseed', 'encrypt', 'electrum'):
            ctx.probe('entropy')
        for other in r.calls:
            if other['t'] < op['t'] and other['call'] == op['call'] and \
                    started[other['id']] < ended[i] and started[i] < ended[other['id']]:
                ctx.probe('same call raced')
                if other['id'] == first[op['call']]:
                    ctx.probe('first use raced')
    # Nothing is left wrong behind
    again = r.alone(world)
    for op in r.calls:
        i = op['id']
        check(again[i] == want[i], 'later-wrong', lambda: (
            f'afterwards, {op["call"]}({op["a"]}) gives {short(again[i])}; alone it gives '
            f'{short(want[i])}'))
    ctx.probe('repeated')
