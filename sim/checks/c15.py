'''C15: a corrupted key or address text is rejected, never read as another one.'''

import hashlib

from .. import ec, transit
from ..core import Violation, check, describe, det_bytes, digest, short
from ..loader import Installation

ID = 'C15'
RUNS = {'quick': 26000, 'thorough': 150000}
RULE = ('one run = a list of private keys (WIF), extended keys, base58 and cash addresses of '
        'every network, written down, damaged on the way (typing errors, losses, splices, case, '
        'other networks\' prefixes, checksum-neutral edits) and read back, plus forged texts '
        'with a right checksum and wrong contents; each outcome is compared with the original; '
        'non-trivial: at least one text damaged; distinct by digest of the event log')
COMPONENTS = {'real': ['PrivateKey.to_WIF/from_WIF/from_text', 'bip32_key_from_string',
                       'Address.from_string/to_string', 'base58', 'cashaddr', 'Coin lookups'],
              'stub': ['the channel', 'the cash address encoder (independent)']}
STATE_MEASURE = 'distinct (kind of text, damage, reader, outcome)'
MUST_PROBE = ('wif read', 'xkey read', 'address read', 'cashaddr read', 'rejected',
              'forged rejected', 'same value', 'other network refused', 'other kind refused')
B58 = ec.B58
CASH = 'qpzry9x8gf2tvdw0s3jn54khce6mua7l'
NETS = ('Bitcoin', 'BitcoinTestnet', 'BitcoinScalingTestnet', 'BitcoinRegtest')
PREFIX = ('bitcoincash', 'bchtest', 'bchtest', 'bchtest')
P2PKH, P2SH, WIF = (0, 0x6f, 0x6f, 0x6f), (5, 0xc4, 0xc4, 0xc4), (0x80, 0xef, 0xef, 0xef)
XPUB = tuple(map(bytes.fromhex, ('0488b21e',) + ('043587cf',) * 3))
XPRV = tuple(map(bytes.fromhex, ('0488ade4',) + ('04358394',) * 3))
KINDS = ('wif', 'wif', 'xprv', 'xpub', 'p2pkh', 'p2sh', 'cash', 'cash')


def generate(rng, tier, index):
    ops = []
    for _ in range(rng.choice((2, 4, 8))):
        kind = rng.choice(KINDS)
        op = {'op': kind, 'net': rng.choice((0, 0, 1, 2, 3)), 'v': rng.getrandbits(60),
              'bits': rng.getrandbits(6)}
        r = rng.random()
        if r < 0.12:
            op['forge'] = rng.randrange(24)
        elif r < 0.22:
            op['reader'] = rng.choice(KINDS)
            op['rnet'] = rng.randrange(4)
        elif r < 0.9:
            op['alt'] = [transit.gen_text(rng) for _ in range(rng.choice((1, 1, 1, 2, 3)))]
            if kind == 'cash' and rng.random() < 0.3:
                op['alt'] = [[rng.choice(('q-ins', 'prefix', 'noprefix', 'upper', 'qdel')),
                              rng.randrange(4), rng.randrange(1, 20), 1]]
            elif rng.random() < 0.1:
                op['alt'] = [[rng.choice(('lead1', 'unlead1')), 0, 0, rng.randint(1, 3)]]
        ops.append(op)
    return {'cfg': {}, 'ops': ops}


def polymod(values):
    c = 1
    for d in values:
        c0 = c >> 35
        c = (c & 0x07ffffffff) << 5 ^ d
        for k, g in enumerate((0x98f2bc8e61, 0x79b76d99e2, 0xf33e5fb3c4, 0xae2eabe2a8,
                               0x1e4f43e470)):
            if c0 >> k & 1:
                c ^= g
    return c ^ 1


def cash_text(prefix, values):
    base = [ord(c) & 31 for c in prefix] + [0] + list(values)
    m = polymod(base + [0] * 8)
    return prefix + ':' + ''.join(CASH[v] for v in list(values) +
                                  [m >> 5 * (7 - i) & 31 for i in range(8)])


def fives(data):
    n = int.from_bytes(data, 'big') << (-len(data) * 8) % 5
    count = (len(data) * 8 + 4) // 5
    return [n >> 5 * (count - 1 - k) & 31 for k in range(count)]


def make(op):
    '''(text, value, raw payload) of an item.  The value is what reading must give.'''
    kind, net, v, bits = op['op'], op['net'], op['v'], op['bits']
    secret = det_bytes(32, 's', v)
    if bits & 3 == 3:
        secret = bytes(31 - bits // 8) + secret[:bits // 8] + b'\x01'
    net0 = min(net, 1)
    if kind == 'wif':
        z = bool(bits & 4)
        raw = bytes([WIF[net]]) + secret + b'\x01' * z
        return ec.b58check(raw), ('wif', secret, z, net0), raw
    if kind in ('xprv', 'xpub'):
        chain, n, depth = det_bytes(32, 'c', v), v % (1 << 32), v % 256
        fp = det_bytes(4, 'f', v)
        body = b'\0' + secret if kind == 'xprv' else ec.pub(int.from_bytes(secret, 'big'))
        ver = (XPRV if kind == 'xprv' else XPUB)[net]
        raw = ver + bytes([depth]) + fp + n.to_bytes(4, 'big') + chain + body
        return ec.b58check(raw), (kind, body, chain, n, depth, fp, net0), raw
    h = secret[:20] if bits & 3 != 3 else secret[12:]
    if kind in ('p2pkh', 'p2sh'):
        raw = bytes([(P2PKH if kind == 'p2pkh' else P2SH)[net]]) + h
        return ec.b58check(raw), (kind, h, net0), raw
    t = bits >> 2 & 1
    raw = bytes([t << 3]) + h
    text = cash_text(PREFIX[net], fives(raw))
    if bits & 8:
        # grind for an address whose text is open to the q-insertion of weak checksums
        for k in range(200):
            if text.endswith('p'):
                break
            h = det_bytes(20, 'q', v, k)
            raw = bytes([t << 3]) + h
            text = cash_text(PREFIX[net], fives(raw))
    return text, (('p2pkh', 'p2sh')[t], h, net0), raw


def forge(op):
    '''A text with a right checksum that encodes nothing valid.'''
    kind, net, raw = op['op'], op['net'], make(op)[2]
    f = op['forge']
    big = ec.pub(int.from_bytes(det_bytes(32, 's', op['v']), 'big'), False)

    def nth(*choices):
        return choices[f % len(choices)]
    if kind == 'wif':
        s = raw[1:33]
        raw = nth(raw[:1] + s + b'\x02', raw[:1] + s + b'\0', raw[:1] + s + b'\x01\x01',
               raw[:1] + s[:31], raw[:20], raw[:1], b'', raw[:1] + bytes(32),
               raw[:1] + ec.N.to_bytes(32, 'big') + b'\x01', bytes([raw[0] ^ 1]) + raw[1:],
               raw[:1] + b'\xff' * 32, b'\0' + raw, raw[:1] + s + s, raw + bytes(4),
               raw[:1] + s + b'\x81', raw[:1] + b'\0' + s[:-1] + b'\2',
               raw[:1] + b'\x01' + s[:-1] + b'\2', raw[:33] * 2)
        return ec.b58check(raw)
    if kind in ('xprv', 'xpub'):
        body = raw[45:]
        raw = nth(raw[:-1], raw + b'\0', raw[:4], b'', raw[:45] + b'\x01' + body[1:],
               raw[:45] + bytes(33), raw[:45] + b'\0' + ec.N.to_bytes(32, 'big'),
               raw[:45] + b'\x04' + body[1:], raw[:45] + b'\x02' + b'\xff' * 32,
               (XPUB if kind == 'xprv' else XPRV)[net] + raw[4:], bytes([raw[0] ^ 1]) + raw[1:],
               raw[:3] + bytes([raw[3] ^ 3]) + raw[4:], raw[:45] + big,
               raw[:45] + bytes([6 + big[-1] % 2]) + big[1:], raw[:45] + body[1:], raw + b'\x01',
               raw + bytes(4), raw[:45] + b'\0' + body, raw[:45] + body + body, b'\0' + raw,
               raw[:45] + b'\x80' + body[1:], raw[:45] + bytes([body[0] ^ 4]) + body[1:])
        return ec.b58check(raw)
    if kind in ('p2pkh', 'p2sh'):
        raw = nth(raw[:-1], raw + b'\0', raw[:1], b'', bytes([raw[0] ^ 1]) + raw[1:], raw[1:],
               b'\x80' + raw[1:], raw + raw, b'\0' + raw, raw[:11], raw + b'\x01',
               bytes([raw[0] + 1]) + raw[1:], raw[:1] + det_bytes(32, 'h', f), raw[:1] + big,
               raw[:1] + ec.hash160(big)[:19], raw + bytes(12), bytes(22))
        return ec.b58check(raw)
    prefix = PREFIX[net]
    h = raw[1:]
    f %= 16
    if f == 0:
        return cash_text(prefix, [])
    if f == 1:
        values = fives(raw)
        return cash_text(prefix, values[:-1] + [values[-1] | 1])    # non-zero padding
    if f == 2:
        return cash_text(prefix, fives(raw) + [0])                  # excess padding
    raw = (None, None, None, bytes([raw[0] | 0x10]) + h, bytes([raw[0] | 0x80]) + h,
           bytes([raw[0] | 1]) + h, bytes([raw[0] | 4]) + h, raw[:-1], raw + b'\0',
           bytes([raw[0] | 1]) + h + bytes(4), raw[:1], bytes([raw[0] | 4]) + h + h,
           bytes([raw[0] | 3]) + det_bytes(32, 'h', f), bytes([raw[0] | 7]) + h * 3 + h[:4],
           bytes([raw[0] | 0x40]) + h, bytes([raw[0] + 8 & 8 | 16]) + h)[f]
    return cash_text(prefix, fives(raw))


def special(text, alts, net):
    kind, a, n, m = alts[0]
    head, _, body = text.partition(':')
    if kind == 'q-ins':
        return text[:-1] + 'q' * n + text[-1]
    if kind == 'qdel':
        return text[:-1].rstrip('q') + text[-1]
    if kind == 'prefix':
        return (PREFIX[net < 1], 'bchreg', 'x', '')[a] + ':' + body
    if kind == 'noprefix':
        return body
    if kind == 'lead1':
        return '1' * m + text
    if kind == 'unlead1':
        return text.lstrip('1')
    return text.upper()


def read(bx, kind, net, text, how):
    '''Read text back as the application would; returns a value tuple.'''
    nets = [getattr(bx, n) for n in NETS]

    def netno(coin):
        return min(nets.index(coin), 1)
    if kind == 'wif':
        key = bx.PrivateKey.from_text(text) if how else bx.PrivateKey.from_WIF(text)
        return 'wif', key.to_bytes(), key.is_compressed(), netno(key.coin())
    if kind in ('xprv', 'xpub'):
        key = bx.bip32_key_from_string(text)
        d = key.derivation()
        private = isinstance(key, bx.BIP32PrivateKey)
        check(private or isinstance(key, bx.BIP32PublicKey), 'wrong-type', lambda: repr(key))
        body = b'\0' + key.to_bytes() if private else key.to_bytes()
        return ('xprv' if private else 'xpub', body, d.chain_code, d.n, d.depth,
                d.parent_fingerprint, netno(key.coin()))
    a = bx.Address.from_string(text, nets[net])
    check(a.coin() is nets[net], 'wrong-network', 'address has another coin')
    check(isinstance(a, (bx.P2PKH_Address, bx.P2SH_Address)), 'wrong-type', lambda: repr(a))
    return ('p2pkh' if isinstance(a, bx.P2PKH_Address) else 'p2sh', a.hash160(), min(net, 1))


def back(bx, kind, net, text, how):
    '''The text the library itself writes for what it read.'''
    nets = [getattr(bx, n) for n in NETS]
    if kind == 'wif':
        return bx.PrivateKey.from_WIF(text).to_WIF()
    if kind in ('xprv', 'xpub'):
        return bx.bip32_key_from_string(text).to_extended_key_string()
    return bx.Address.from_string(text, nets[net]).to_string()


PROBE = {'wif': 'wif read', 'xprv': 'xkey read', 'xpub': 'xkey read', 'p2pkh': 'address read',
         'p2sh': 'address read', 'cash': 'cashaddr read'}


def looks_minikey(text):
    return len(text) in (22, 30, 64)


def execute(plan, ctx):
    bx = Installation().bx
    cashaddr = None
    issued = {}
    texts = {}
    for k, op in enumerate(plan['ops']):
        ctx.step()
        kind, net = op['op'], op['net']
        how = op['bits'] >> 5 & 1
        text, value, raw = make(op)
        family = 'addr' if kind in ('p2pkh', 'p2sh', 'cash') else \
            'xkey' if kind in ('xprv', 'xpub') else kind
        issued[family, text] = value
        texts.setdefault(family, []).append(text)
        # Intact
        try:
            got = read(bx, kind, net, text, how)
        except ValueError as e:
            check(False, 'refused', lambda: f'intact {kind} {text} was refused: {describe(e)}')
        check(got == value, 'misread', lambda: f'intact {kind} {text} read as {short(got)}')
        if kind != 'cash':
            out = back(bx, kind, net, text, how)
            check(out == text, 'misread', lambda: f'{kind} {text} written back as {out}')
        ctx.probe(PROBE[kind])
        outcome = 'intact'
        damage = []
        reader, rnet = kind, net
        alphabet = CASH if kind == 'cash' else B58
        if 'forge' in op:
            damage = [f'forged {kind}']
            bad = forge(op)
            want = None
        elif 'reader' in op:
            bad = text
            reader, rnet = op['reader'], op['rnet']
            same = {'xprv': 'xkey', 'xpub': 'xkey', 'wif': 'wif'}.get(reader, 'addr') == family
            want = value if same and (family != 'addr' or min(rnet, 1) == min(net, 1)) else None
            damage = [] if want else ['misread as ' + reader]
        elif 'alt' in op:
            if op['alt'][0][0] in ('q-ins', 'qdel', 'prefix', 'noprefix', 'lead1', 'unlead1'):
                bad = special(text, op['alt'], net)
            else:
                bad = transit.text(text, op['alt'], alphabet, texts[family][:-1])
            damage = [a[0] for a in op['alt']] if bad != text else []
            want = issued.get((family, bad))
            if want is None and family == 'addr':
                want = issued.get((family, bad.lower()))
            want = want or value
            if family == 'addr' and want[-1] != min(net, 1):
                want = value
        else:
            ctx.log(k, kind, text)
            continue
        for d in damage:
            ctx.fault(d)
        if reader == 'wif' and how and looks_minikey(bad):
            how = 0
        try:
            got = read(bx, reader, rnet, bad, how)
            outcome = 'read'
        except ValueError:
            got = None
            outcome = 'rejected'
        except Violation:
            raise
        except Exception as e:
            check(False, 'other-error', lambda: f'{reader} text {bad!r} damaged by {damage} '
                                                f'raised {describe(e)}')
        check(got is None or got == want, 'misread',
              lambda: f'{text} damaged by {damage} to {bad!r} was read as {short(got)}, '
                      f'should be {short(want)}')
        if bad == text and want is not None:
            check(got == want, 'refused', lambda: f'intact {text} was refused')
        if kind == 'cash' and reader == 'cash':
            cashaddr = cashaddr or bx.cashaddr
            try:
                _, t, h = cashaddr.decode(bad)
            except ValueError:
                check(bad != text, 'refused', lambda: f'intact {text} was refused')
            except Exception as e:
                check(False, 'other-error', lambda: f'cashaddr {bad!r} raised {describe(e)}')
            else:
                meant = issued.get((family, bad)) or issued.get((family, bad.lower())) or value
                check(('forge' not in op or len(h) != 20) and
                      ('forge' in op or (('p2pkh', 'p2sh')[t], h) == meant[:2]),
                      'misread',
                      lambda: f'cashaddr {bad!r} decoded to {t} {h.hex()}')
        ctx.state(kind, damage, reader, rnet, outcome)
        ctx.log(k, kind, digest(text), digest(bad.encode('utf-8', 'surrogatepass')), damage,
                outcome)
        if outcome == 'rejected':
            ctx.probe('forged rejected' if 'forge' in op else 'rejected')
            if 'reader' in op:
                ctx.probe('other network refused' if reader == kind else 'other kind refused')
        elif damage:
            ctx.probe('same value')
