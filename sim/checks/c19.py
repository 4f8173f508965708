'''C19: a co-signed transaction verifies exactly if nothing its signatures cover changed.'''

from .. import ec, transit
from ..core import check, describe, det_bytes, digest, short
from ..loader import Installation

ID = 'C19'
RUNS = {'quick': 21000, 'thorough': 150000}
RULE = ('one run = several parties filling in, signing and passing round one transaction over a '
        'channel that reorders, duplicates, replays, alters and damages it, while drafts are '
        'edited in place; every signature on every copy is verified and the verdict compared '
        'with a comparison of the fields the signature covers, and with an independent '
        'signature hash; non-trivial: at least one message replayed, altered or overtaken; '
        'distinct by digest of the event log')
COMPONENTS = {'real': ['Tx, TxInput, TxOutput', 'Tx.signature_hash', 'SigHash', 'Signature',
                       'PrivateKey.sign', 'PublicKey.verify_der_signature', 'Script',
                       'P2PKH_Address, P2PK_Output, P2MultiSig_Output', 'libsecp256k1'],
              'stub': ['the channel', 'the reference (own serialization, fields covered)']}
STATE_MEASURE = ('distinct (sighash type, coverage equal or first field that differs, verdict, '
                 'inputs and outputs relative to the index)')
MUST_PROBE = ('valid', 'invalid', 'own outpoint', 'own sequence', 'value', 'script', 'version',
              'locktime', 'other outpoints', 'other sequences', 'outputs', 'single without output',
              'tolerated change', 'moved input', 'replayed', 'overtaken', 'undecodable',
              'bad signature', 'missing signature', 'index refused', 'negative value refused',
              'type refused', 'multisig', 'wide sighash', 'more than 252 inputs',
              'more than 252 outputs')
TYPES = (0x41, 0x42, 0x43, 0xc1, 0xc2, 0xc3, 0x01, 0x02, 0x03, 0x81, 0x82, 0x83)
EDITS = ('version', 'locktime', 'sequence', 'outpoint', 'index', 'scriptsig', 'outvalue',
         'outscript', 'addin', 'addout', 'dropin', 'dropout', 'swapin', 'swapout', 'insin',
         'insout', 'dupin', 'dupout')
FIELDS = ('version', 'prevouts', 'sequences', 'outpoint', 'script', 'value', 'sequence',
          'outputs', 'locktime', 'sighash')


def gen_edit(rng):
    return [rng.choice(EDITS), rng.getrandbits(30), rng.getrandbits(30)]


def gen_type(rng):
    return rng.choice(TYPES) if rng.random() < 0.8 else rng.randrange(256)


def generate(rng, tier, index):
    parties = rng.choice((2, 2, 3, 4))
    nin = rng.choice((1, 2, 2, 3, 4))
    cfg = {'parties': parties, 'version': rng.choice((1, 2, -1, 0, 0x7fffffff, -0x80000000)),
           'locktime': rng.choice((0, 0, 1, 499_999_999, 500_000_000, 0xffffffff,
                                   rng.getrandbits(32))),
           'ins': [{'kind': rng.choice(('p2pkh', 'p2pkh', 'p2pk', 'multi', 'raw')),
                    'owner': rng.randrange(parties), 'key': rng.randrange(1, 40),
                    'value': rng.choice((0, 1, 5000, 21 * 10**14, rng.getrandbits(40))),
                    'seq': rng.choice((0xffffffff, 0, 0xfffffffe, rng.getrandbits(32))),
                    'idx': rng.choice((0, 1, 0xffffffff, rng.getrandbits(32))),
                    'h': rng.randrange(3)} for _ in range(nin)],
           'outs': [[rng.choice((0, 1, 5000, 2**63 - 1, -1, rng.getrandbits(40))),
                     rng.choice((0, 1, 25, 25, 35, 75, 252, 253, 300))]
                    for _ in range(rng.choice((0, 1, 1, 2, 3, 4)))]}
    ops = []
    count = rng.choice((6, 15, 30, 50))
    if index % 60 == 37:
        # more inputs or outputs than fit in one byte
        cfg['fill'] = [rng.choice((0, 251, 254, 256, 300)), rng.choice((0, 252, 253, 256, 300)),
                       rng.random() < 0.5]
        count = 10
    for _ in range(count):
        what = rng.choice(('sign', 'sign', 'sign', 'send', 'send', 'send', 'get', 'get', 'get',
                           'edit', 'verify', 'hash', 'belief'))
        op = {'op': what, 'p': rng.randrange(parties), 'k': rng.getrandbits(16)}
        if what == 'sign':
            op['type'] = gen_type(rng)
        elif what == 'send':
            op['to'] = rng.randrange(parties)
            r = rng.random()
            if r < 0.5:
                op['edits'] = [gen_edit(rng) for _ in range(rng.choice((1, 1, 2, 3)))]
            elif r < 0.65:
                op['raw'] = [transit.gen_raw(rng) for _ in range(rng.choice((1, 1, 2)))]
            elif r < 0.75:
                op['sig'] = [transit.gen_raw(rng)]
        elif what == 'get':
            op['keep'] = rng.random() < 0.25
            op['merge'] = rng.random() < 0.6
        elif what == 'edit':
            op['edits'] = [gen_edit(rng)]
        elif what == 'hash':
            op['type'] = rng.choice((gen_type(rng), rng.getrandbits(32), 2**32 - 1, 0x1f, 0x20,
                                     0x23, 0x100, 0x142))
            op['bad'] = rng.choice((0, 0, 0, 1, 2, 3, 4, 5))
        elif what == 'belief':
            op['what'] = rng.randrange(3)
        ops.append(op)
    return {'cfg': cfg, 'ops': ops}


# --- the reference: a transaction is (version, [[hash, idx, script, seq]], [[value, script]],
# locktime), serialized and parsed here

def varint(n):
    return bytes([n]) if n < 253 else b'\xfd' + n.to_bytes(2, 'little') if n < 65536 else \
        b'\xfe' + n.to_bytes(4, 'little') if n < 1 << 32 else b'\xff' + n.to_bytes(8, 'little')


def varbytes(b):
    return varint(len(b)) + b


def u32(n):
    return n.to_bytes(4, 'little')


def i64(n):
    return n.to_bytes(8, 'little', signed=True)


def ser_out(o):
    return i64(o[0]) + varbytes(o[1])


def serialize(t):
    return (t['v'].to_bytes(4, 'little', signed=True) + varint(len(t['ins'])) +
            b''.join(h + u32(i) + varbytes(s) + u32(q) for h, i, s, q in t['ins']) +
            varint(len(t['outs'])) + b''.join(ser_out(o) for o in t['outs']) + u32(t['lock']))


class Short(Exception):
    pass


def parse(raw):
    pos = 0

    def take(n):
        nonlocal pos
        if pos + n > len(raw):
            raise Short
        pos += n
        return raw[pos - n:pos]

    def num(n, signed=False):
        return int.from_bytes(take(n), 'little', signed=signed)

    def vint():
        n = num(1)
        return n if n < 253 else num({253: 2, 254: 4, 255: 8}[n])

    t = {'v': num(4, True), 'ins': [], 'outs': []}
    for _ in range(vint()):
        t['ins'].append([take(32), num(4), take(vint()), num(4)])
    for _ in range(vint()):
        t['outs'].append([num(8, True), take(vint())])
    t['lock'] = num(4)
    return t


def copy(t):
    return {'v': t['v'], 'ins': [list(i) for i in t['ins']], 'outs': [list(o) for o in t['outs']],
            'lock': t['lock']}


def covered(t, i, value, script, sighash):
    '''What a signature of input i of the given type covers, as values.'''
    base, anyone = sighash & 31, sighash & 128
    own = t['ins'][i]
    outs = None
    if base == 3:
        outs = [t['outs'][i]] if i < len(t['outs']) else None
    elif base != 2:
        outs = t['outs']
    return (t['v'],
            None if anyone else [(x[0], x[1]) for x in t['ins']],
            None if anyone or base in (2, 3) else [x[3] for x in t['ins']],
            (own[0], own[1]), script, value, own[3],
            None if outs is None else [tuple(o) for o in outs], t['lock'], sighash)


def reference_hash(c):
    version, prevouts, seqs, own, script, value, seq, outs, lock, sighash = c

    def part(items, f):
        return bytes(32) if items is None else ec.sha256d(b''.join(map(f, items)))

    return ec.sha256d(
        version.to_bytes(4, 'little', signed=True) + part(prevouts, lambda p: p[0] + u32(p[1])) +
        part(seqs, u32) + own[0] + u32(own[1]) + varbytes(script) + i64(value) + u32(seq) +
        part(outs, ser_out) + u32(lock) + u32(sighash))


def det_int(bits, *parts):
    return int.from_bytes(det_bytes(bits // 8, *parts), 'little')


class Copy:
    '''One party's transaction: the library's object and the reference, kept in step.'''

    def __init__(self, bx, t):
        self.bx, self.t = bx, copy(t)
        self.tx = bx.Tx(t['v'], [self.lib_in(i) for i in t['ins']],
                        [self.lib_out(o) for o in t['outs']], t['lock'])

    def lib_in(self, i):
        return self.bx.TxInput(i[0], i[1], self.bx.Script(i[2]), i[3])

    def lib_out(self, o):
        return self.bx.TxOutput(o[0], self.bx.Script(o[1]))

    def edit(self, kind, a, b):
        '''Edit the object in place, the same in both.'''
        t, tx = self.t, self.tx
        nin, nout = len(t['ins']), len(t['outs'])
        if kind == 'version':
            t['v'] = tx.version = (t['v'] ^ 1 << b % 31)
        elif kind == 'locktime':
            t['lock'] = tx.locktime = t['lock'] ^ 1 << b % 32
        elif kind in ('addin', 'insin') and nin < 8:
            i = [det_bytes(32, 'h', a), b & 3, b'', 0xffffffff - (b >> 3 & 1)]
            at = nin if kind == 'addin' else a % (nin + 1)
            t['ins'].insert(at, i)
            tx.inputs.insert(at, self.lib_in(i))
        elif kind in ('addout', 'insout') and nout < 8:
            o = [b & 0xffff, det_bytes(a % 30, 'o', a)]
            at = nout if kind == 'addout' else a % (nout + 1)
            t['outs'].insert(at, o)
            tx.outputs.insert(at, self.lib_out(o))
        elif kind == 'dupin' and nin < 8:
            # an input the very same as another
            i = list(t['ins'][a % nin])
            at = b % (nin + 1)
            t['ins'].insert(at, i)
            tx.inputs.insert(at, self.lib_in(i))
        elif kind == 'dupout' and 0 < nout < 8:
            o = list(t['outs'][a % nout])
            at = b % (nout + 1)
            t['outs'].insert(at, o)
            tx.outputs.insert(at, self.lib_out(o))
        elif kind == 'outvalue' and nout:
            i = a % nout
            v = t['outs'][i][0] ^ 1 << b % 62
            t['outs'][i][0] = tx.outputs[i].value = v
        elif kind == 'outscript' and nout:
            i = a % nout
            s = t['outs'][i][1]
            s = s + b'\x51' if b & 1 or not s else s[:-1] + bytes([s[-1] ^ 1 << (b >> 1) % 8])
            t['outs'][i][1] = s
            tx.outputs[i].script_pubkey = self.bx.Script(s)
        elif kind == 'dropout' and nout:
            del t['outs'][a % nout], tx.outputs[a % nout]
        elif kind == 'swapout' and nout > 1:
            i, j = a % nout, b % nout
            for x in (t['outs'], tx.outputs):
                x[i], x[j] = x[j], x[i]
        elif kind == 'dropin' and nin > 1:
            del t['ins'][a % nin], tx.inputs[a % nin]
        elif kind == 'swapin' and nin > 1:
            i, j = a % nin, b % nin
            for x in (t['ins'], tx.inputs):
                x[i], x[j] = x[j], x[i]
        elif kind == 'sequence':
            i = a % nin
            t['ins'][i][3] = tx.inputs[i].sequence = t['ins'][i][3] ^ 1 << b % 32
        elif kind == 'outpoint':
            i = a % nin
            h = bytearray(t['ins'][i][0])
            h[(b >> 3) % 32] ^= 1 << (b & 7)
            t['ins'][i][0] = tx.inputs[i].prev_hash = bytes(h)
        elif kind == 'index':
            i = a % nin
            t['ins'][i][1] = tx.inputs[i].prev_idx = t['ins'][i][1] ^ 1 << b % 32
        elif kind == 'scriptsig':
            i = a % nin
            s = t['ins'][i][2] + push(b'\xff' if b & 3 == 0 else det_bytes(1 + b % 3, b))
            self.set_script_sig(i, s)

    def set_script_sig(self, i, s):
        self.t['ins'][i][2] = s
        self.tx.inputs[i].script_sig = self.bx.Script(s)

    def settled(self, what):
        check(self.tx.to_bytes() == serialize(self.t), 'tx-changed',
              lambda: f'{what}: transaction is {short(self.tx.to_bytes().hex())}, '
                      f'should be {short(serialize(self.t).hex())}')


def pushes(script):
    '''Our own reading of a script of small pushes; None if it is anything else.'''
    out, pos = [], 0
    while pos < len(script):
        n = script[pos]
        pos += 1
        if n == 76:
            if pos >= len(script):
                return None
            n = script[pos]
            pos += 1
        elif n > 75:
            return None
        if pos + n > len(script):
            return None
        out.append(script[pos:pos + n])
        pos += n
    return out


def push(item):
    return (bytes([len(item)]) if len(item) < 76 else bytes([76, len(item)])) + item


class Coin:
    '''An unspent output as everyone knows it: whose it is, its value and script.'''

    def __init__(self, bx, n, c):
        self.kind = c['kind']
        self.value = c['value']
        self.outpoint = det_bytes(32, 'prev', c['h']), (c['idx'] + n) & 0xffffffff
        self.seq = c['seq']
        self.secrets = [c['key'] + 100 * n + 50 * j for j in range(3 if self.kind == 'multi'
                                                                  else 1)]
        self.owner = c['owner']
        self.keys = [bx.PrivateKey.from_int(s) for s in self.secrets]
        self.points = [ec.pub(s) for s in self.secrets]
        if self.kind == 'p2pkh':
            self.script = b'\x76\xa9\x14' + ec.hash160(self.points[0]) + b'\x88\xac'
            lib = self.keys[0].public_key.P2PKH_script()
        elif self.kind == 'p2pk':
            self.script = push(self.points[0]) + b'\xac'
            lib = self.keys[0].public_key.P2PK_script()
        elif self.kind == 'multi':
            self.script = b'\x52' + b''.join(map(push, self.points)) + b'\x53\xae'
            lib = bx.P2MultiSig_Output([k.public_key for k in self.keys], 2).to_script()
        else:
            self.script = det_bytes((0, 1, 252, 253, 300)[c['key'] % 5], 'sc', n)
            lib = bx.Script(self.script)
        check(bytes(lib) == self.script, 'wrong-script', lambda: f'{self.kind}: {lib}')


class Sim:
    def __init__(self, bx, plan, ctx):
        self.bx, self.ctx = bx, ctx
        cfg = plan['cfg']
        self.coins = {}
        ins = []
        for n, c in enumerate(cfg['ins']):
            coin = Coin(bx, n, c)
            if coin.outpoint not in self.coins:
                self.coins[coin.outpoint] = coin
                ins.append([*coin.outpoint, b'', coin.seq])
        outs = [[v, det_bytes(n, 'spk', k)] for k, (v, n) in enumerate(cfg['outs'])]
        if cfg.get('fill'):
            nin, nout, ahead = cfg['fill']
            fill_in = [[det_bytes(32, 'fill', k), k, b'', 0xffffffff - k % 2] for k in range(nin)]
            fill_out = [[k, det_bytes(k % 26, 'fill', k)] for k in range(nout)]
            ins = fill_in + ins if ahead else ins + fill_in
            outs = fill_out + outs if ahead else outs + fill_out
            ctx.probe('more than 252 inputs', nin > 252)
            ctx.probe('more than 252 outputs', nout > 252)
        first = {'v': cfg['version'], 'ins': ins, 'lock': cfg['locktime'], 'outs': outs}
        self.copies = [Copy(bx, first) for _ in range(cfg['parties'])]
        self.beliefs = [{} for _ in self.copies]     # a party's mistaken view of a coin
        self.queue = [[] for _ in self.copies]
        self.sigs = {}         # signature with type byte -> (signing secret, covered)
        self.sent = 0

    def view(self, p, outpoint):
        coin = self.coins.get(outpoint)
        if coin is None:
            return None
        return self.beliefs[p].get(outpoint, (coin.value, coin.script)) + (coin,)

    def lib_hash(self, c, i, value, script, sighash, what):
        '''The library's signature hash, checked.'''
        bx = self.bx
        want_c = covered(c.t, i, value, script, sighash)
        want = reference_hash(want_c)
        given = bx.Script(script)
        if sighash == 0x41 and len(script) & 1:
            got = c.tx.signature_hash(i, value, given)
        else:
            got = c.tx.signature_hash(i, value, given, sighash=bx.SigHash(sighash))
        check(got == want, 'wrong-hash', lambda: (
            f'{what}: signature hash of input {i} of {len(c.t["ins"])} with {len(c.t["outs"])} '
            f'outputs, type {sighash:#x}, is {got.hex()}, should be {want.hex()}'))
        c.settled(what)
        return got, want_c

    def pick(self, c, k):
        '''Somewhere to sign: mostly an input that somebody owns.'''
        ins = c.t['ins']
        owned = [i for i, x in enumerate(ins) if (x[0], x[1]) in self.coins]
        return owned[k % len(owned)] if owned and len(ins) > 20 else k % len(ins)

    def sign(self, p, op):
        c = self.copies[p]
        i = self.pick(c, op['k'])
        own = c.t['ins'][i]
        outpoint = own[0], own[1]
        seen = self.view(p, outpoint)
        if seen is None:
            return
        value, script, coin = seen
        j = (op['k'] >> 4) % len(coin.keys)
        h, cov = self.lib_hash(c, i, value, script, op['type'], 'sign')
        der = coin.keys[j].sign(h, None)
        sig = self.bx.Signature.from_der_sig(der, self.bx.SigHash(op['type'])
                                             if op['k'] & 256 else op['type'])
        raw = bytes(sig)
        rs = ec.der_parse(raw[:-1])
        check(raw[:-1] == der and raw[-1] == op['type'] and rs is not None, 'wrong-signature',
              lambda: raw.hex())
        self.sigs[raw] = coin.secrets[j], cov
        if coin.kind == 'multi':
            old = pushes(own[2]) or []
            items = [x for x in old if x != raw and len(x) > 1][-4:] + [raw]
            script_sig = self.bx.Script().push_many(items)
            self.ctx.probe('multisig')
        elif coin.kind == 'p2pkh':
            items = [raw, coin.points[0]]
            script_sig = self.bx.Script() << sig.to_bytes() << \
                coin.keys[j].public_key.to_bytes()
        else:
            items = [raw]
            script_sig = self.bx.Script() << raw
        check(bytes(script_sig) == b''.join(map(push, items)), 'wrong-script',
              lambda: f'signature script {script_sig}')
        c.tx.inputs[i].script_sig = script_sig
        c.t['ins'][i][2] = bytes(script_sig)
        c.settled('sign')
        self.ctx.log('sign', p, i, op['type'], digest(raw))

    def send(self, p, op):
        ctx = self.ctx
        raw = self.copies[p].tx.to_bytes()
        check(raw == serialize(self.copies[p].t), 'tx-changed', 'sending')
        if op.get('edits'):
            c = Copy(self.bx, self.copies[p].t)
            for e in op['edits']:
                c.edit(*e)
                ctx.fault('altered ' + e[0])
            raw = serialize(c.t)
        if op.get('sig'):
            t = copy(self.copies[p].t)
            signed = [x for x in t['ins'] if pushes(x[2])]
            if signed:
                own = signed[op['k'] % len(signed)]
                items = pushes(own[2])
                items[0] = transit.raw(items[0], op['sig'])[:200]
                own[2] = b''.join(map(push, items))
                ctx.fault('damaged signature')
                raw = serialize(t)
        if op.get('raw'):
            raw = transit.raw(raw, op['raw'])
            for a in op['raw']:
                ctx.fault('damaged ' + a[0])
        self.queue[op['to']].append((self.sent, raw))
        self.sent += 1
        ctx.log('send', p, op['to'], digest(raw))

    def get(self, p, op):
        ctx = self.ctx
        for _ in self.queue:
            if self.queue[p]:
                break
            p = (p + 1) % len(self.queue)
        q = self.queue[p]
        if not q:
            return
        k = op['k'] % len(q)
        if op['keep']:
            n, raw = q[k]
            ctx.fault('duplicated')
            ctx.probe('replayed')
        else:
            n, raw = q.pop(k)
        if k:
            ctx.fault('overtaken')
            ctx.probe('overtaken')
        try:
            t = parse(raw)
        except Short:
            t = None
        try:
            tx = self.bx.Tx.from_bytes(raw)
        except Exception as e:      # which errors are right is decided under C10
            check(t is None, 'not-parsed', lambda: f'{describe(e)} for a good transaction')
            tx = None
        check((tx is None) == (t is None), 'misparsed', lambda: f'{short(raw.hex())} was accepted')
        if tx is None:
            ctx.probe('undecodable')
            ctx.log('get', p, n, 'undecodable')
            return
        new = Copy.__new__(Copy)
        new.bx, new.t, new.tx = self.bx, t, tx
        new.settled('received')
        if not t['ins']:
            return
        if op['merge']:
            # a combiner takes over the signature scripts of inputs it knows
            mine = self.copies[p]
            scripts = {(x[0], x[1]): x[2] for x in t['ins'] if x[2]}
            for i, x in enumerate(mine.t['ins']):
                s = scripts.get((x[0], x[1]))
                if s is not None:
                    coin = self.coins.get((x[0], x[1]))
                    if coin is not None and coin.kind == 'multi':
                        old, add = pushes(x[2]) or [], pushes(s) or []
                        s = b''.join(map(push, (old + [a for a in add if a not in old])[-5:]))
                    mine.set_script_sig(i, s)
        else:
            self.copies[p] = new
        ctx.log('get', p, n, op['merge'], digest(raw))
        self.verify(p)

    def verify(self, p):
        bx, ctx = self.bx, self.ctx
        c = self.copies[p]
        nin, nout = len(c.t['ins']), len(c.t['outs'])
        for i, own in [(i, own) for i, own in enumerate(c.t['ins']) if own[2]][:6]:
            items = pushes(own[2])
            if not items:
                continue
            seen = self.view(p, (own[0], own[1]))
            if seen is None:
                # a signature moved to an unknown outpoint said to be like the signed one
                coins = [coin for x in items if x in self.sigs for coin in self.coins.values()
                         if self.sigs[x][0] in coin.secrets]
                if not coins:
                    continue
                seen = coins[0].value, coins[0].script, coins[0]
            value, script, coin = seen
            for item in list(c.tx.inputs[i].script_sig.ops())[:6]:
                if not isinstance(item, bytes) or len(item) == 33 and item[0] in (2, 3):
                    continue
                known = self.sigs.get(item)
                try:
                    sig = bx.Signature(item)
                    der, sighash = sig.der_signature, sig.sighash
                except bx.InvalidSignatureError as e:
                    check(known is None, 'refused', lambda: f'{describe(e)}: good signature')
                    ctx.probe('missing signature' if item == b'\xff' else 'bad signature')
                    continue
                h, cov = self.lib_hash(c, i, value, script, item[-1], 'verify')
                check(sighash == item[-1] and isinstance(sighash, bx.SigHash) and
                      der == item[:-1], 'wrong-sighash', lambda: repr(sighash))
                for key, secret, point in zip(coin.keys, coin.secrets, coin.points):
                    got = key.public_key.verify_der_signature(der, h, None)
                    if known:
                        want = known == (secret, cov)
                    else:
                        rs = ec.der_parse(der)
                        # not a signature anyone made: a twin of one at best
                        want = rs is not None and rs[1] <= ec.N // 2 and \
                            ec.verify(ec.decode(point), h, *rs)
                    diff = [f for f, x, y in zip(FIELDS, known[1], cov) if x != y] if known \
                        else ['signature']
                    check(got is want, 'wrong-verdict', lambda: (
                        f'party {p}, input {i} of {nin}, {nout} outputs, type {item[-1]:#x}: '
                        f'{"verified" if got else "refused"}; differing from what was signed: '
                        f'{diff or "nothing"}; ' +
                        ('signed by this key' if known and known[0] == secret else
                         'not signed by this key')))
                    if known and known[0] == secret:
                        self.note(i, nin, nout, item[-1], diff, got, known[1], c)
                if known is None:
                    ctx.probe('bad signature')
                ctx.log('verify', p, i, item[-1], digest(item))

    def note(self, i, nin, nout, sighash, diff, got, was, c):
        ctx = self.ctx
        ctx.probe('valid' if got else 'invalid')
        if len(diff) == 1 or diff[:1] == ['prevouts'] and diff[1:] == ['outpoint']:
            ctx.probe({'prevouts': 'other outpoints', 'sequences': 'other sequences',
                       'outpoint': 'own outpoint', 'sequence': 'own sequence'}.get(
                           diff[0], diff[0]))
        elif diff[:2] == ['sequences', 'sequence']:
            ctx.probe('own sequence')
        elif diff[:2] == ['prevouts', 'outpoint']:
            ctx.probe('own outpoint')
        if sighash & 31 == 3 and i >= nout and got:
            ctx.probe('single without output')
        if got and sighash & 31 in (2, 3) and nout:
            ctx.probe('tolerated change')
        if got and (i >= len(self.coins) or list(self.coins)[i] != (c.t['ins'][i][0],
                                                                   c.t['ins'][i][1])):
            ctx.probe('moved input')
        ctx.state(sighash, diff[:1], got, min(i, 2), min(nin, 3), (nout > i) - (nout < i))

    def hash(self, p, op):
        bx, ctx = self.bx, self.ctx
        c = self.copies[p]
        n = len(c.t['ins'])
        i = op['k'] % n
        bad = op['bad']
        script = bx.Script(b'\x51')
        sighash = bx.SigHash(op['type'])
        if bad == 0 or bad > 4:
            size = 66_000 if op['k'] % 97 == 0 else op['k'] % 300
            self.lib_hash(c, i, op['k'] * 7919, det_bytes(size, op['k']), op['type'],
                          'hash')
            if op['type'] > 255:
                ctx.probe('wide sighash')
            return
        calls, errors, probe = (
            None, (lambda: c.tx.signature_hash(n + i, 0, script, sighash=sighash), IndexError,
                   'index refused'),
            (lambda: c.tx.signature_hash(-1 - i, 0, script, sighash=sighash), IndexError,
             'index refused'),
            (lambda: c.tx.signature_hash(i, -1 - op['k'], script, sighash=sighash), ValueError,
             'negative value refused'),
            (lambda: c.tx.signature_hash(i, 0, script, sighash=op['type']), TypeError,
             'type refused'))[bad][:3]
        ctx.fault('bad argument')
        try:
            got = calls()
        except errors:
            got = None
        check(got is None, 'accepted', lambda: f'{probe}: gave a hash')
        c.settled('bad argument')
        ctx.probe(probe)

    def belief(self, p, op):
        ctx = self.ctx
        known = list(self.coins)
        outpoint = known[op['k'] % len(known)]
        coin = self.coins[outpoint]
        old = self.beliefs[p].get(outpoint)
        if old:
            del self.beliefs[p][outpoint]
        elif op['what'] == 0:
            self.beliefs[p][outpoint] = coin.value ^ 1 << op['k'] % 40, coin.script
            ctx.fault('wrong value')
        else:
            s = coin.script
            s = s + b'\x51' if op['what'] == 1 or not s else \
                s[:-1] + bytes([s[-1] ^ 1 << op['k'] % 8])
            self.beliefs[p][outpoint] = coin.value, s
            ctx.fault('wrong script')
        self.verify(p)


def execute(plan, ctx):
    bx = Installation().bx
    sim = Sim(bx, plan, ctx)
    for op in plan['ops']:
        ctx.step()
        p = op['p']
        if op['op'] == 'edit':
            for e in op['edits']:
                sim.copies[p].edit(*e)
                ctx.background('edited ' + e[0])
            sim.copies[p].settled('edit')
            sim.verify(p)
        elif op['op'] == 'verify':
            sim.verify(p)
        else:
            getattr(sim, op['op'])(p, op)
    for p, c in enumerate(sim.copies):
        c.settled('end')
        sim.verify(p)
