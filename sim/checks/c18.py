'''C18: key derivation handles the rare invalid child and never derives a wrong key.'''

import re

from .. import ec
from ..core import check, describe, det_bytes, digest, short
from ..loader import Installation
from ..seam import REAL_HMAC_DIGEST, WORLD

ID = 'C18'
RUNS = {'quick': 16000, 'thorough': 50000}
RULE = ('one run = a wallet and a watch-only wallet deriving a tree of keys from one seed, by '
        'index, safely or by path text, with the derivation hash forced at chosen steps to its '
        'rare values (zero, the group order and its neighbours, the negation of the parent key) '
        'or failing; every result is compared with an independent implementation of BIP32; '
        'non-trivial: at least one forced or failing step; distinct by digest of the event log')
COMPONENTS = {'real': ['BIP32PrivateKey', 'BIP32PublicKey', 'bip32_decompose_chain_string',
                       'bip32_key_from_string', 'libsecp256k1'],
              'stub': ['HMAC-SHA512 at forced steps']}
STATE_MEASURE = 'distinct (operation, side, class of index, forced values, outcome)'
MUST_PROBE = ('child', 'safe', 'safe moved', 'invalid child refused', 'exhausted', 'out of range',
              'hardened from public', 'invalid seed', 'hmac error', 'path', 'bad path',
              'both sides agree', 'zero tweak', 'far down', 'beyond the last depth')
H = 1 << 31
FORCES = ('order', 'order+1', 'max', 'negate', 'negate', 'zero', 'order-1', 'one')


def some_index(rng):
    r = rng.random()
    if r < 0.5:
        return rng.choice((0, 1, 2, 5, 44, rng.randrange(H)))
    if r < 0.65:
        return H - rng.choice((1, 1, 2, 3))
    if r < 0.8:
        return H + rng.choice((0, 0, 1, 44, rng.randrange(H)))
    if r < 0.9:
        return 2 * H - rng.choice((1, 1, 2, 3))
    return rng.choice((-1, -H, 2 * H, 2 * H + 5, H, -2))


def generate(rng, tier, index):
    ops = []
    for _ in range(rng.choice((2, 4, 8, 14))):
        what = rng.choice(('child', 'child', 'child', 'safe', 'safe', 'safe', 'path', 'text',
                           'seed'))
        op = {'op': what, 'k': rng.getrandbits(16), 'side': rng.choice(('priv', 'pub', 'both')),
              'i': some_index(rng)}
        if what in ('child', 'safe') and rng.random() < 0.6:
            op['force'] = [rng.choice(FORCES) if rng.random() < 0.85 else None
                           for _ in range(rng.choice((1, 1, 2, 3, 5)))]
        if what in ('child', 'safe') and rng.random() < 0.08:
            op['fail'] = rng.randrange(3)
        if what == 'path':
            op['path'] = [[rng.choice((0, 1, 5, 44, H - 1, rng.randrange(H))),
                           rng.random() < 0.5] for _ in range(rng.choice((0, 1, 2, 3)))]
            if rng.random() < 0.6:
                op['alt'] = [rng.randrange(15), rng.getrandbits(20)]
        if what == 'text' and rng.random() < 0.5:
            op['depth'] = rng.choice((1, 126, 127, 128, 200, 252, 253, 254, 255))
        if what == 'seed':
            op['v'] = rng.getrandbits(20)
            if rng.random() < 0.7:
                op['force'] = [rng.choice(('zero', 'order', 'order+1', 'max', 'order-1', 'one'))]
        ops.append(op)
    return {'cfg': {'seed': rng.getrandbits(40), 'net': rng.randrange(2)}, 'ops': ops}


class HmacFailure(MemoryError):
    pass


class HmacSystem(OSError):
    pass


ERRORS = (HmacFailure, HmacSystem, KeyboardInterrupt)


class Hash:
    '''The seam: forced results by (key, message); a pending failure.'''

    def __init__(self):
        self.forced = {}
        self.fail = None
        self.raised = None
        self.calls = 0

    def __call__(self, key, msg, dig):
        self.calls += 1
        if self.fail is not None:
            self.raised, self.fail = self.fail, None
            raise self.raised
        return self.forced.get((bytes(key), bytes(msg)))

    def value(self, key, msg):
        return self.forced.get((key, msg)) or REAL_HMAC_DIGEST(key, msg, 'sha512')


class Key:
    '''The reference: one node of the tree.'''

    def __init__(self, secret, point, chain, depth, n, fp):
        self.secret, self.point = secret, point
        self.chain, self.depth, self.n, self.fp = chain, depth, n, fp
        self.ser = ec.encode(point)

    def child_msg(self, i):
        head = b'\0' + self.secret.to_bytes(32, 'big') if i >= H else self.ser
        return head + i.to_bytes(4, 'big')

    def child(self, hash_, i):
        '''None if invalid.'''
        v = hash_.value(self.chain, self.child_msg(i))
        t = int.from_bytes(v[:32], 'big')
        k = (t + self.secret) % ec.N
        if t >= ec.N or k == 0:
            return None
        return Key(k, ec.mul(k), v[32:], self.depth + 1, i, ec.hash160(self.ser)[:4])

    def safe(self, hash_, i):
        while True:
            got = self.child(hash_, i)
            if got is not None:
                return got
            i += 1
            if i & (H - 1) == 0:
                return None

    def text(self, private, net):
        ver = bytes.fromhex((('0488b21e', '043587cf'), ('0488ade4', '04358394'))[private][net])
        body = b'\0' + self.secret.to_bytes(32, 'big') if private else self.ser
        return ec.b58check(ver + bytes([self.depth]) + self.fp + self.n.to_bytes(4, 'big') +
                           self.chain + body)


def master(hash_, seed):
    v = hash_.value(b'Bitcoin seed', seed)
    k = int.from_bytes(v[:32], 'big')
    if not 0 < k < ec.N:
        return None
    return Key(k, ec.mul(k), v[32:], 0, 0, bytes(4))


def forced_value(kind, key, tail):
    t = {'order': ec.N, 'order+1': ec.N + 1, 'max': (1 << 256) - 1, 'zero': 0,
         'order-1': ec.N - 1, 'one': 1, 'negate': ec.N - key.secret if key else 0}[kind]
    return t.to_bytes(32, 'big') + tail


def same(key, lib, private, net, what):
    if private:
        check(lib.to_bytes() == key.secret.to_bytes(32, 'big'), 'wrong-key',
              lambda: f'{what}: wrong private key')
        check(lib.public_key.to_bytes() == key.ser, 'wrong-key',
              lambda: f'{what}: wrong public key of the private key')
    else:
        check(lib.to_bytes() == key.ser, 'wrong-key', lambda: f'{what}: wrong public key')
    d = lib.derivation()
    check((d.chain_code, d.depth, d.n, d.parent_fingerprint) ==
          (key.chain, key.depth, key.n, key.fp), 'wrong-derivation',
          lambda: f'{what}: {d!r}, should be {(key.chain.hex(), key.depth, key.n, key.fp.hex())}')
    check(lib.fingerprint() == ec.hash160(key.ser)[:4] and
          lib.identifier() == ec.hash160(key.ser), 'wrong-derivation',
          lambda: f'{what}: wrong fingerprint')
    check(lib.to_extended_key_string() == key.text(private, net), 'wrong-text',
          lambda: f'{what}: wrong extended key text')


def path_text(op):
    parts = [f"{n}'" if h else str(n) for n, h in op['path']]
    text = '/'.join(['m'] + parts)
    if 'alt' in op:
        kind, a = op['alt']
        i = a % (len(text) + 1)
        text = (text + '\n', text + ' ', ' ' + text, text + '/', text + "'", text[1:],
                'M' + text[1:], text.replace("'", 'h'), text[:i] + '-' + text[i:],
                text[:i] + '\u0663' + text[i:], text + '/2147483648', text + '/-1',
                text.replace('/', '//'), text[:i] + ' ' + text[i:], text + "/0\n")[kind]
    return text


def path_value(text):
    '''The indices a path text means, or None.'''
    if not re.fullmatch(r"m(/[0-9]+'?)*", text, re.ASCII):
        return None
    out = []
    for part in text.split('/')[1:]:
        n = int(part.rstrip("'"))
        if n >= H:
            return None
        out.append(n + H * part.endswith("'"))
    return out


def attempt(call, hash_):
    '''(result, None), or (None, exception): only a ValueError or the injected failure.'''
    hash_.raised = None
    try:
        return call(), None
    except ValueError as e:
        return None, e
    except BaseException as e:
        if hash_.raised is not None and e is hash_.raised:
            return None, e
        raise


def beyond(key, priv, pub, i, hash_):
    want = key.child(hash_, i) if 0 <= i < 2 * H else None
    for lib in (priv, pub):
        try:
            got = lib.child(i)
        except Exception:       # pylint:disable=W0718
            continue
        check(want is not None and (lib is priv or i < H), 'wrong-verdict',
              lambda: f'child({i}) of a key of depth 255 was given')
        check(got.to_bytes() == (want.secret.to_bytes(32, 'big') if lib is priv else want.ser),
              'wrong-key', lambda: f'child({i}) of a key of depth 255')
        try:
            text = got.to_extended_key_string()
        except Exception:       # pylint:disable=W0718
            continue
        check(False, 'wrong-text', lambda: f'child({i}) of a key of depth 255 is written {text}')


def execute(plan, ctx):
    bx = Installation().bx
    cfg = plan['cfg']
    net = cfg['net']
    coin = (bx.Bitcoin, bx.BitcoinTestnet)[net]
    hash_ = WORLD.hmac = Hash()
    bx.BIP32PrivateKey.from_seed(b'is the seam in use?', coin)
    seam = hash_.calls > 0
    seed = det_bytes(32, 'seed', cfg['seed'])
    root = master(hash_, seed)
    priv = bx.BIP32PrivateKey.from_seed(seed, coin)
    same(root, priv, True, net, 'master')
    nodes = [(root, priv, priv.public_key)]
    for k, op in enumerate(plan['ops']):
        ctx.step()
        what = op['op']
        key, priv, pub = nodes[op['k'] % len(nodes)]
        sides = [s for s in ('priv', 'pub') if op['side'] in (s, 'both')]
        i = op['i']
        kinds = op.get('force', []) if seam else []
        if what == 'seed':
            seed = det_bytes(16 + op['v'] % 49, 'sd', op['v'])
            for kind in kinds:
                hash_.forced[b'Bitcoin seed', seed] = forced_value(kind, None, det_bytes(32, k))
                ctx.fault('seed ' + kind)
            want = master(hash_, seed)
            got, err = attempt(lambda: bx.BIP32PrivateKey.from_seed(seed, coin), hash_)
            check((got is None) == (want is None), 'wrong-verdict',
                  lambda: f'seed forced to {kinds}: {err or "accepted"}')
            if want is None:
                ctx.probe('invalid seed')
            else:
                same(want, got, True, net, 'seed')
                nodes.append((want, got, got.public_key))
            ctx.state('seed', kinds, want is None)
            ctx.log(k, 'seed', kinds, want is None)
            continue
        if what == 'text':
            if 'depth' in op:
                # A key from far down some other tree
                key = Key(key.secret, key.point, key.chain, op['depth'], key.n, key.fp)
                priv = bx.bip32_key_from_string(key.text(True, net))
                ctx.probe('far down')
            text = key.text('priv' in sides, net)
            got = bx.bip32_key_from_string(text)
            same(key, got, 'priv' in sides, net, 'text')
            if 'priv' in sides:
                nodes.append((key, got, got.public_key))
            else:
                nodes.append((key, priv, got))
            ctx.log(k, 'text', text)
            continue
        if what == 'path':
            text = path_text(op)
            want = path_value(text)
            got, err = attempt(lambda: bx.bip32_decompose_chain_string(text), hash_)
            if 'alt' in op:
                ctx.fault('path damaged')
            check(got == want, 'wrong-path', lambda: f'path {text!r} means {want}, taken as {got}')
            check(bx.bip32_is_valid_chain_string(text) == (want is not None), 'wrong-path',
                  lambda: f'path {text!r}')
            ctx.log(k, 'path', repr(text), got)
            if want is None:
                ctx.probe('bad path')
                continue
            back = bx.bip32_build_chain_string(want)
            check(path_value(back) == want, 'wrong-path', lambda: f'{want} written as {back}')
            if key.depth + len(want) > 255:
                continue
            lib, wkey = priv, key
            for n in want:
                wkey = wkey and wkey.child(hash_, n)
                if wkey is None:
                    break
                lib = lib.child(n)
            if wkey:
                same(wkey, lib, True, net, f'path {text}')
                nodes.append((wkey, lib, lib.public_key))
            ctx.probe('path')
            continue
        if key.depth == 255:
            # A text has no room for the depth of its children: they may be refused, or exist
            # without a text, but never pass for other keys.
            beyond(key, priv, pub, i, hash_)
            ctx.probe('beyond the last depth')
            continue
        valid = 0 <= i < 2 * H
        if valid:
            for j, kind in enumerate(kinds):
                n = i + j
                if n >= 2 * H or (n & (H - 1) == 0 and j):
                    break
                slot = key.chain, key.child_msg(n)
                if kind is not None and slot not in hash_.forced:
                    hash_.forced[slot] = forced_value(kind, key, det_bytes(32, plan['seed'], k, j))
                    ctx.fault('forced ' + kind)
        want = None
        if valid:
            want = key.safe(hash_, i) if what == 'safe' else key.child(hash_, i)
        results = []
        for side in sides:
            lib = priv if side == 'priv' else pub
            before = lib.to_extended_key_string()
            fail = None
            if 'fail' in op:
                fail = hash_.fail = ERRORS[op['fail']]('injected')
            f = lib.child_safe if what == 'safe' else lib.child
            got, err = attempt(lambda: f(i), hash_)
            if fail is not None:
                if hash_.raised is fail:
                    ctx.fault('hmac error')
                    ctx.probe('hmac error')
                    check(got is None, 'error-swallowed', lambda: f'{what}: {describe(fail)} was lost')
                    got, err = attempt(lambda: f(i), hash_)
                hash_.fail = None
            refuse = not valid or side == 'pub' and i >= H
            w = None if refuse else want
            check((got is None) == (w is None), 'wrong-verdict',
                  lambda: f'{what}({i}) on the {side} side, forced {kinds}: '
                          f'{describe(err) if err else "gave a key"}; '
                          f'should be {w and w.n if w else "refused"}')
            if w is not None:
                check(isinstance(got, bx.BIP32PrivateKey if side == 'priv'
                                 else bx.BIP32PublicKey), 'wrong-type', lambda: repr(type(got)))
                same(w, got, side == 'priv', net, f'{what}({i}) on the {side} side')
                check(got.coin() is coin, 'wrong-network', 'child has another coin')
                ctx.probe(what)
                if what == 'safe' and w.n != i:
                    ctx.probe('safe moved')
                if kinds and kinds[0] == 'zero':
                    ctx.probe('zero tweak')
            elif not valid:
                ctx.probe('out of range')
            elif refuse:
                ctx.probe('hardened from public')
            elif what == 'safe':
                ctx.probe('exhausted')
            else:
                ctx.probe('invalid child refused')
            check(lib.to_extended_key_string() == before, 'changed',
                  lambda: f'{what}({i}) changed its parent')
            results.append(got)
            cls = 'neg' if i < 0 else 'big' if i >= 2 * H else ('last' if i & (H - 1) > H - 6 else
                                                               '') + 'hn'[i < H]
            ctx.state(what, side, cls, kinds, w is None, w is not None and w.n - i)
            ctx.log(k, what, side, i, kinds, w and w.n, w and digest(w.ser))
        if want is not None and results and all(r is not None for r in results):
            if len(results) == 2:
                check(results[0].public_key == results[1] and
                      results[0].public_key.to_extended_key_string() ==
                      results[1].to_extended_key_string(), 'sides-differ', f'{what}({i})')
                nodes.append((want, results[0], results[1]))
                ctx.probe('both sides agree')
            elif sides == ['priv']:
                nodes.append((want, results[0], results[0].public_key))
            else:
                # the private side goes the same way
                f = priv.child_safe if what == 'safe' else priv.child
                nodes.append((want, f(i), results[0]))
    # Nothing that was derived has changed
    for key, priv, pub in nodes:
        same(key, priv, True, net, 'at the end')
        same(key, pub, False, net, 'at the end')
