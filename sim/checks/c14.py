'''C14: a signed message verifies exactly for its signer and its text.'''

import hashlib
import re
from base64 import b64encode

from .. import ec, texts, transit
from ..core import check, describe, det_bytes, digest, short
from ..entropy import Entropy
from ..loader import Installation
from ..seam import WORLD
from .c13 import B64, denotes

ID = 'C14'
RUNS = {'quick': 7000, 'thorough': 50000}
RULE = ('one run = signers publishing signed messages, as bytes or base64 text, over a channel '
        'that damages signatures and messages, malleates, replays and mixes them up; verifiers '
        'holding keys, addresses or nothing check each delivery and every answer is compared '
        'with an independent ECDSA; non-trivial: at least one delivery damaged or mixed up; '
        'distinct by digest of the event log')
COMPONENTS = {'real': ['PrivateKey.sign_message(_to_base64)', 'PublicKey.verify_message',
                       'PublicKey.verify_message_and_address', 'PublicKey.from_signed_message',
                       'to_recoverable_signature', 'libsecp256k1'],
              'stub': ['the channel', 'the reference verifier (independent ECDSA)']}
STATE_MEASURE = 'distinct (form, damage, relation of verifier to signer, answers)'
MUST_PROBE = ('intact verified', 'recovered', 'address verified', 'damaged body refused',
              'malleated refused', 'wrong message refused', 'wrong key refused',
              'wrong address refused', 'near miss refused', 'bad text', 'bad length', 'bad header byte', 'replayed',
              'other wallet verified', 'respelt message', 'tail of a long message',
              'unencodable text refused')
TEXTS = ('', 'a', 'hello world', 'ünïcödé ✓', 'line\nline', ' hello world', 'x' * 252, 'x' * 253,
         'Bitcoin Signed Message:\n', 'really?', '?')
LENGTHS = (0, 1, 32, 75, 76, 251, 252, 253, 254, 255, 256, 300, 65535, 65536)


def generate(rng, tier, index):
    signers = rng.choice((1, 2, 3))
    ops = []
    big = index % 30 == 9
    for _ in range(rng.choice((2, 3, 6))):
        op = {'op': 'sign', 'by': rng.randrange(signers), 'b64': rng.random() < 0.5,
              'hasher': rng.choice((0, 0, 0, 1, 2)), 'to': rng.randrange(signers)}
        r = rng.random()
        if r < 0.3:
            op['text'] = rng.randrange(len(TEXTS))
        elif r < 0.6:
            op['uni'] = texts.gen_text(rng)
        else:
            op['len'] = rng.choice(LENGTHS[:12] if rng.random() < 0.9 else LENGTHS)
        r = rng.random()
        if r < 0.35:
            op['alt'] = [gen_alt(rng) for _ in range(rng.choice((1, 1, 1, 2)))]
        elif r < 0.5:
            op['alt'] = [['header', rng.choice((26, 35, 0, 255, 27, 28, 29, 30, 31, 32, 33, 34,
                                                rng.randrange(256)))]]
        elif r < 0.6:
            op['alt'] = [['malleate', rng.randrange(4)]]
        elif r < 0.68:
            op['alt'] = [['number', rng.randrange(6), rng.randrange(2)]]
        elif r < 0.85 and op['b64']:
            op['talt'] = [transit.gen_text(rng) for _ in range(rng.choice((1, 1, 2)))]
        elif r < 0.9:
            op['replay'] = rng.getrandbits(20)
        if big and not ops:
            op.pop('text', None), op.pop('uni', None)
            op['len'] = rng.choice((65537, 65600, 70000, 131073, 300000))
            op['tail'] = rng.randrange(4)
        elif 'len' not in op and rng.random() < 0.15:
            op['odd'] = 1
        elif 'len' not in op and rng.random() < 0.3:
            op['respell'] = texts.gen_how(rng)
        elif rng.random() < 0.15:
            op['malt'] = [transit.gen_raw(rng)]
        if rng.random() < 0.1:
            op['rhasher'] = rng.randrange(3)
        ops.append(op)
    cfg = {'signers': [[rng.choice((rng.getrandbits(250) + 1, rng.randint(1, 3))),
                        rng.random() < 0.6] for _ in range(signers)]}
    return {'cfg': cfg, 'ops': ops}


def gen_alt(rng):
    a = transit.gen_raw(rng)
    if rng.random() < 0.5:
        a[0] = rng.choice(('flip', 'set', 'swap'))
    return a


def alter(sig, alts, others):
    for a in alts:
        if a[0] == 'header':
            sig = bytes([a[1]]) + sig[1:]
        elif a[0] == 'malleate' and len(sig) == 65:
            s = int.from_bytes(sig[33:], 'big')
            flip = a[1] & 1
            s = (ec.N - s) % (1 << 256)
            sig = sig[:33] + s.to_bytes(32, 'big')
            if flip == 0 and 27 <= sig[0] < 35:
                sig = bytes([((sig[0] - 27) ^ 1) + 27]) + sig[1:]
        elif a[0] == 'number' and len(sig) == 65:
            value = (0, ec.N, ec.N - 1, ec.N + 1, (1 << 256) - 1, 1)[a[1]].to_bytes(32, 'big')
            sig = sig[:33] + value if a[2] else sig[:1] + value + sig[33:]
        elif a[0] not in ('malleate', 'number'):
            sig = transit.raw(sig, [a], others)
    return sig


def varint(n):
    return bytes([n]) if n < 253 else b'\xfd' + n.to_bytes(2, 'little') if n < 65536 else \
        b'\xfe' + n.to_bytes(4, 'little')


def double_blake(data):
    return hashlib.blake2b(data, digest_size=32).digest()


HASHERS = (None, lambda d: hashlib.sha256(d).digest(), double_blake)


def msg_digest(plain, hasher):
    data = b'\x18Bitcoin Signed Message:\n' + varint(len(plain)) + plain
    return (HASHERS[hasher] or ec.sha256d)(data)


def execute(plan, ctx):
    bx = Installation().bx
    WORLD.entropy = Entropy(plan['seed'])
    signers = [(bx.PrivateKey(s.to_bytes(32, 'big'), z), ec.mul(s), z)
               for s, z in plan['cfg']['signers']]
    sigs = []
    for k, op in enumerate(plan['ops']):
        ctx.step()
        key, point, z = signers[op['by'] % len(signers)]
        msg = TEXTS[op['text']] if 'text' in op else texts.text(op['uni']) if 'uni' in op else \
            det_bytes(op['len'], 'm', plan['seed'], k)
        plain = msg.encode() if isinstance(msg, str) else msg
        kw = {'hasher': HASHERS[op['hasher']]} if op['hasher'] else {}
        if op['b64']:
            text = key.sign_message_to_base64(msg, **kw)
            check(isinstance(text, str), 'wrong-type', 'base64 signature is not a string')
            sig = denotes(text)
            check(sig is not None and len(sig) == 65, 'wrong-type', lambda: text)
        else:
            sig = key.sign_message(msg, **kw)
        # Any other wallet accepts it
        dig = msg_digest(plain, op['hasher'])
        r, s = int.from_bytes(sig[1:33], 'big'), int.from_bytes(sig[33:], 'big')
        check(len(sig) == 65 and 27 <= sig[0] < 35 and (sig[0] >= 31) == z and
              ec.recover(dig, r, s, (sig[0] - 27) & 3) == point, 'bad-signature',
              lambda: f'signature {sig.hex()} does not recover the signer')
        ctx.probe('other wallet verified')
        # in transit
        others = list(sigs)
        sigs.append(sig)
        got, damage = sig, []
        if 'alt' in op:
            got = alter(sig, op['alt'], others)
            damage = [a[0] for a in op['alt']]
        elif 'replay' in op and others:
            got = others[op['replay'] % len(others)]
            damage = ['replay']
        form = got
        if op['b64']:
            form = b64encode(got).decode()
            if 'talt' in op:
                form = transit.text(form, op['talt'], B64,
                                    [b64encode(o).decode() for o in others])
                damage = ['text ' + a[0] for a in op['talt']]
                # White space is damage here, though it leaves the bytes as they were
                got = None if re.search(r'\s', form) else denotes(form)
        canonical = not op['b64'] or got is not None and form == b64encode(got).decode()
        rmsg, rplain = msg, plain
        if 'tail' in op:
            rmsg = rplain = (plain[:-1] + bytes([plain[-1] ^ 1]), plain + b'\0', plain[:-1],
                             plain[:-60] + bytes([plain[-60] ^ 64]) + plain[-59:])[op['tail']]
            damage = damage + ['message']
            ctx.probe('tail of a long message')
        elif 'malt' in op:
            rplain = transit.raw(plain, op['malt'])
            rmsg = rplain
            if rplain != plain:
                damage = damage + ['message']
        elif 'respell' in op and isinstance(msg, str):
            rmsg = texts.respell(msg, op['respell'])
            rplain = rmsg.encode() if isinstance(rmsg, str) else rmsg
            if rplain != plain:
                damage = damage + ['message']
                ctx.probe('respelt message')
        rhash = op['hasher']
        if 'rhasher' in op:
            rhash = op['rhasher']
            if rhash != op['hasher']:
                damage = damage + ['hasher']
        kw = {'hasher': HASHERS[rhash]} if rhash else {}
        for d in damage:
            ctx.fault(d)
        # what it is worth
        dig = msg_digest(rplain, rhash)
        formed = got is not None and len(got) == 65 and 27 <= got[0] < 35
        good_for = set()
        signer = None
        if formed:
            r, s = int.from_bytes(got[1:33], 'big'), int.from_bytes(got[33:], 'big')
            signer = ec.recover(dig, r, s, (got[0] - 27) & 3)
            if s <= ec.N // 2:
                for i, (_, p, _) in enumerate(signers):
                    if ec.verify(p, dig, r, s):
                        good_for.add(i)
        if not damage:
            check(op['by'] % len(signers) in good_for, 'bad-signature', 'reference disagrees')
        answers = []
        for i in sorted({op['by'] % len(signers), op['to'] % len(signers)}):
            key2, point2, z2 = signers[i]
            pub = bx.PublicKey.from_bytes(ec.encode(point2, z2))
            # by key
            try:
                ok = pub.verify_message(form, rmsg, **kw)
            except bx.InvalidSignatureError:
                ok = None
            except Exception as e:
                check(False, 'other-error', lambda: f'verify_message of a signature damaged by '
                                                    f'{damage} raised {describe(e)}')
            check(ok in (True, False, None), 'wrong-type', lambda: f'answer {ok!r}')
            check(bool(ok) == (i in good_for) or not canonical and not ok, 'wrong-verdict',
                  lambda: f'verify_message says {ok}, should be {i in good_for}; damage {damage}')
            # by address
            for zz in (True, False):
                h = ec.hash160(ec.encode(point2, zz))
                net = (0x00, 0x6f, 0x04)[(k + zz) % 3] if k % 2 else 0
                forms = [ec.b58check(bytes([net]) + h), bx.P2PKH_Address(h, bx.Bitcoin)]
                if k % 2 == 0:
                    forms[0] = pub.to_address(compressed=zz).to_string()
                want = signer is not None and signer == point2 and i in good_for
                for address in forms:
                    try:
                        ans = bx.PublicKey.verify_message_and_address(form, rmsg, address, **kw)
                    except Exception as e:
                        check(False, 'other-error', lambda: f'verify_message_and_address of a '
                              f'signature damaged by {damage} raised {describe(e)}')
                    check(ans is True or ans is False, 'wrong-type', lambda: f'answer {ans!r}')
                    check(ans == want or not canonical and not ans, 'wrong-verdict',
                          lambda: f'verify_message_and_address says {ans}, should be {want}; '
                                  f'damage {damage}')
            if want:
                near_misses(bx, point2, k + i, form, rmsg, kw, ctx)
            answers.append((i == op['by'] % len(signers), ok, want))
            if ok and not damage:
                ctx.probe('intact verified')
                ctx.probe('address verified', int(want))
            if not ok and not damage:
                ctx.probe('wrong key refused')
                ctx.probe('wrong address refused')
        if 'odd' in op and not damage and isinstance(msg, str):
            odd_texts(bx, msg, form, point, z, kw, ctx)
        # by nobody in particular
        try:
            rec = bx.PublicKey.from_signed_message(form, rmsg, **kw)
        except bx.InvalidSignatureError:
            rec = None
        except Exception as e:
            check(False, 'other-error', lambda: f'from_signed_message of a signature damaged by '
                                                f'{damage} raised {describe(e)}')
        want = None if signer is None else ec.encode(signer)
        have = None if rec is None else rec.to_bytes(compressed=True)
        check(have == want or have is None and not canonical, 'wrong-signer',
              lambda: f'recovered {have and have.hex()}, should be {want and want.hex()}')
        ctx.state(op['b64'], damage, answers, rec is None)
        ctx.log(k, digest(sig), digest(repr(form)), damage, answers, have)
        if rec is not None and not damage:
            ctx.probe('recovered')
        for name, cond in (('damaged body refused', formed and not good_for and got != sig),
                           ('malleated refused', 'malleate' in damage and formed and
                            signer == point and not good_for),
                           ('wrong message refused', damage == ['message']),
                           ('bad text', op['b64'] and got is None),
                           ('bad length', got is not None and len(got) != 65),
                           ('bad header byte', got is not None and len(got) == 65 and not formed),
                           ('replayed', damage == ['replay'])):
            if cond:
                ctx.probe(name)


def near_misses(bx, point, k, form, rmsg, kw, ctx):
    """Addresses nearly those of the signer: all but a bit, or its hash within something else."""
    h = ec.hash160(ec.encode(point, k & 1 == 0))
    bit = k * 7 % 160
    off = bytearray(h)
    off[bit >> 3] ^= 1 << (bit & 7)
    off = bytes(off)
    asked = [bx.P2PKH_Address(off, bx.Bitcoin), ec.b58check(b'\0' + off),
             ec.b58check((b'\0' + b'\0' + h, b'\0' + h + b'\1', b'\x80' + bytes(12) + h,
                          b'\0' + h[:-1], b'\0', h, b'\0' + h[:1] + h)[k % 7])]
    for address in asked:
        try:
            ans = bx.PublicKey.verify_message_and_address(form, rmsg, address, **kw)
        except ValueError:
            ans = False
        except Exception as e:
            check(False, 'other-error', lambda: f'verify_message_and_address of {address} raised '
                                                f'{describe(e)}')
        check(ans is False, 'wrong-verdict', lambda: f'verify_message_and_address says {ans} of '
              f'{address}, which is not an address of the signer, hash {h.hex()}')
    ctx.probe('near miss refused')


def odd_texts(bx, msg, form, point, z, kw, ctx):
    '''A text that cannot be encoded is not the text that was signed.'''
    pub = bx.PublicKey.from_bytes(ec.encode(point, z))
    address = ec.b58check(b'\0' + ec.hash160(ec.encode(point, z)))
    for odd in texts.unencodable(msg):
        for name, ask in (
                ('verify_message', lambda: pub.verify_message(form, odd, **kw)),
                ('verify_message_and_address', lambda: bx.PublicKey.verify_message_and_address(
                    form, odd, address, **kw)),
                ('from_signed_message', lambda: bx.PublicKey.from_signed_message(
                    form, odd, **kw).to_bytes() == ec.encode(point))):
            try:
                ok = ask()
            except (UnicodeError, bx.InvalidSignatureError):
                ok = False
            check(not ok, 'wrong-verdict', lambda: f'{name} takes {odd!r} for {msg!r}')
    ctx.probe('unencodable text refused')
