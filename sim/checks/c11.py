'''C11: generated private keys are exactly what the entropy source provided.'''

from .. import ec
from ..core import check, describe, det_bytes, digest
from ..entropy import ERRORS, SYSTEM_ERRORS, Entropy
from ..loader import Installation
from ..seam import WORLD

ID = 'C11'
RUNS = {'quick': 22000, 'thorough': 150000}
RULE = ('one run = a sequence of key generations (private keys, extended private keys, '
        'ephemeral keys of encryptions) from a simulated entropy source, the system\'s or one '
        'passed in, which may give invalid, boundary, repeated, short or over-long draws or '
        'fail; each key is compared with the recorded draws; non-trivial: at least one fault '
        'fired; distinct by digest of the event log')
COMPONENTS = {'real': ['PrivateKey.from_random', 'BIP32PrivateKey.from_random',
                       'PublicKey.encrypt_message', 'libsecp256k1 key validation'],
              'stub': ['the entropy source (os.urandom, os.getrandom or the source passed in)']}
STATE_MEASURE = 'distinct (generator, source, sequence of draw kinds, outcome)'
MUST_PROBE = ('key', 'extended key', 'ephemeral key', 'invalid draw discarded',
              'short draw discarded', 'error propagated', 'boundary key')
ASSUMPTIONS = ['os.urandom returns exactly the bytes asked for or raises; only a source passed '
               'in by the caller may return fewer or more']


def part(rng):
    return ['part', rng.choice((0, 0, 16, 32, 32, 48, rng.randrange(64))),
            rng.choice((1, 2, 4, 8, 16, 16, 30, 31, 32)), rng.choice((0, 0, 0, 255, 0x55))]


def generate(rng, tier, index):
    ops = []
    for _ in range(rng.choice((1, 2, 4, 8))):
        what = rng.choice(('priv', 'priv', 'ext', 'ext', 'enc'))
        own = what != 'enc' and rng.random() < 0.6
        draws = []
        for _ in range(rng.choice((0, 1, 1, 2, 3, 6))):
            r = rng.random()
            if rng.random() < 0.15:
                draws.append(part(rng) if rng.random() < 0.8 else ['twin'])
            elif r < 0.15:
                draws.append(['zero'])
            elif r < 0.35:
                draws.append(['order', rng.choice((0, 0, 1, -1, -1, 2, rng.getrandbits(100)))])
            elif r < 0.45:
                draws.append(['ones'])
            elif r < 0.55:
                draws.append(['small', rng.choice((0, 0, 1, rng.getrandbits(20)))])
            elif r < 0.65:
                draws.append(['repeat'])
            elif r < 0.75:
                draws.append(['err', rng.getrandbits(10)])
            elif own and r < 0.9:
                draws.append(['short', rng.choice((0, 1, 31, 32, 33, 63, rng.getrandbits(10)))])
            elif own and r < 0.95:
                draws.append(['long', rng.choice((0, 31, rng.randrange(64)))])
            else:
                draws.append(['good'])
        ops.append({'op': what, 'own': own, 'draws': draws,
                    'sticky': rng.random() < 0.1, 'magic': rng.choice(('BIE1', '', 'abcdefg')),
                    'len': rng.choice((0, 1, 15, 16, 17, 40))})
        if rng.random() < 0.15:
            ops.append(dict(ops[-1], draws=[part(rng)], sticky=False))
    return {'cfg': {'to': rng.getrandbits(200) + 1, 'z': rng.random() < 0.7}, 'ops': ops}


def valid(raw):
    return len(raw) == 32 and 0 < int.from_bytes(raw, 'big') < ec.N


def execute(plan, ctx):
    bx = Installation().bx
    recipient = bx.PrivateKey(plan['cfg']['to'].to_bytes(32, 'big'), plan['cfg']['z'])
    for k, op in enumerate(plan['ops']):
        ctx.step()
        what, own = op['op'], op['own']
        draws = op['draws']
        if op['sticky'] and draws and draws[-1][0] == 'err':
            draws = draws + [draws[-1]] * 50
        source = Entropy(f'{plan["seed"]}/{k}', draws, ERRORS if own else SYSTEM_ERRORS)
        other = Entropy(f'{plan["seed"]}/{k}/other')
        WORLD.entropy = other if own else source
        kwargs = {'source': source} if own else {}
        size = 64 if what == 'ext' else 32
        result = None
        plain = det_bytes(op['len'], 'plain', k)
        try:
            if what == 'priv':
                result = bx.PrivateKey.from_random(**kwargs)
            elif what == 'ext':
                result = bx.BIP32PrivateKey.from_random(**kwargs)
            else:
                result = recipient.public_key.encrypt_message(plain, op['magic'].encode())
        except BaseException as e:
            if source.raised is None:
                raise
            check(e is source.raised, 'error-replaced',
                  lambda: f'{describe(source.raised)} came out as {describe(e)}')
            ctx.probe('error propagated')
            result = None
        else:
            check(source.raised is None, 'error-swallowed',
                  lambda: f'{what} returned although the source raised '
                          f'{describe(source.raised)}')
        finally:
            WORLD.entropy = None
        for name in source.fired:
            ctx.fault(name)
        seq = [d[0] for d in draws[:source.count]]
        ctx.state(what, own, seq, result is None)
        ctx.log(what, own, seq, [digest(d) for _, d in source.record], result is None)
        drawn = [d for _, d in source.record]
        good = [i for i, d in enumerate(drawn) if len(d) == size and valid(d[:32])]
        if result is None:
            check(not good, 'late-error', lambda: f'{what}: a valid draw was not used')
            continue
        check(not own or not other.record, 'other-source',
              lambda: f'{what} drew from the system although given a source')
        check(good, 'not-drawn', lambda: f'{what}: a key was made although no draw was valid: '
                                         f'{[d.hex() for d in drawn]}')
        check(good[0] == len(drawn) - 1, 'wrong-draw',
              lambda: f'{what}: the first valid draw is number {good[0]}, {len(drawn)} were made')
        want = drawn[good[0]]
        if good[0] > 0:
            bad = drawn[:good[0]]
            ctx.probe('invalid draw discarded', sum(len(d) == size for d in bad))
            ctx.probe('short draw discarded', sum(len(d) < size for d in bad))
        n = int.from_bytes(want[:32], 'big')
        if n in (1, ec.N - 1):
            ctx.probe('boundary key')
        if what == 'enc':
            m = len(op['magic'])
            got = result[m: m + 33]
            check(got == ec.pub(n), 'wrong-key',
                  lambda: f'ephemeral key {got.hex()} is not that of draw {want.hex()}')
            check(recipient.decrypt_message(result, op['magic'].encode()) == plain,
                  'wrong-plaintext', 'encryption does not decrypt')
            ctx.probe('ephemeral key')
            continue
        check(result.to_bytes() == want[:32] and result.to_int() == n, 'wrong-key',
              lambda: f'{what}: key {result.to_bytes().hex()} is not the draw {want.hex()}')
        check(result.is_compressed(), 'wrong-key', 'not compressed')
        check(result.public_key.to_bytes() == ec.pub(n), 'wrong-key', 'wrong public key')
        if what == 'ext':
            d = result.derivation()
            check((d.chain_code, d.n, d.depth, d.parent_fingerprint) ==
                  (want[32:], 0, 0, bytes(4)), 'wrong-chain-code', lambda: repr(d))
            raw = bytes.fromhex('0488ade4') + bytes(9) + want[32:] + b'\0' + want[:32]
            check(result.to_extended_key_string() == ec.b58check(raw), 'wrong-key',
                  'wrong extended key text')
            ctx.probe('extended key')
        else:
            ctx.probe('key')
