'''C13: encrypted messages decrypt to the original or are rejected, on any backend.'''

import hashlib
import hmac
import re
from base64 import b64decode, b64encode

from .. import aes, ec, texts, transit
from ..core import check, describe, det_bytes, digest, short
from ..entropy import Entropy
from ..loader import Installation
from ..seam import REAL_HMAC_DIGEST, WORLD

ID = 'C13'
RUNS = {'quick': 9000, 'thorough': 60000}
RULE = ('one run = wallets with either AES backend sending each other encrypted messages, raw or '
        'as base64 text, over a channel that damages, splices, replays and misdelivers them, '
        'plus messages made by an independent implementation with good and bad padding; each '
        'outcome is compared with what was sent; non-trivial: at least one message damaged; '
        'distinct by digest of the event log')
COMPONENTS = {'real': ['PublicKey.encrypt_message(_to_base64)', 'PrivateKey.decrypt_message',
                       'aes with pycryptodomex and with pyaes only', 'libsecp256k1'],
              'stub': ['the channel', 'the entropy source',
                       'the other implementation (independent AES, ECDH and HMAC)']}
STATE_MEASURE = 'distinct (form, backends, kinds of damage, outcome)'
MUST_PROBE = ('intact', 'base64', 'other backend', 'damaged refused', 'wrong recipient refused',
              'wrong magic refused', 'replayed', 'bad padding refused', 'forged accepted',
              'same bytes')
B64 = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/='
MAGICS = (b'BIE1', b'BIE1', b'BIE1', b'', b'BIE2', b'XYZZY12', b'\x02', b'BIE')
TEXTS = ('', 'a', 'hello', 'ünïcödé ✓', '日本語' * 5, 'x' * 16, 'y' * 31, 'BIE1')
PADDING = ('zero', 'big', 'mixed', 'short', 'empty', 'good', 'good', 'full', 'bare')


def generate(rng, tier, index):
    ops = []
    wallets = rng.choice((2, 2, 3))
    for _ in range(rng.choice((2, 4, 8))):
        op = {'op': 'send', 'from': rng.randrange(wallets), 'to': rng.randrange(wallets),
              'magic': rng.randrange(len(MAGICS)) if rng.random() < 0.3 else 0,
              'b64': rng.random() < 0.4}
        r = rng.random()
        if r < 0.2:
            op['text'] = rng.randrange(len(TEXTS))
        elif r < 0.35:
            op['uni'] = texts.gen_text(rng)
        else:
            op['len'] = rng.choice((0, 1, 5, 15, 16, 17, 31, 32, 33, 64, 100, rng.randrange(400)))
            if rng.random() < 0.01:
                op['len'] = rng.choice((1000, 5000))
            elif index % 100 == 7 and not ops:
                # more than any buffer holds; the pure Python cipher is slow
                op['len'] = rng.choice((4096, 32767, 65535, 65536, 65537, 66000, 131072 + 5))
        r = rng.random()
        if r < 0.1:
            op['forge'] = rng.choice(PADDING)
        elif r < 0.2:
            op['same'] = True       # the same text again
        r = rng.random()
        if r < 0.08:
            op['reader'] = rng.randrange(wallets)
        elif r < 0.16:
            op['rmagic'] = rng.randrange(len(MAGICS))
        elif r < 0.25:
            op['replay'] = rng.getrandbits(20)
        elif r < 0.75:
            if op['b64'] and rng.random() < 0.6:
                op['talt'] = [transit.gen_text(rng) for _ in range(rng.choice((1, 1, 2)))]
            else:
                op['alt'] = [transit.gen_raw(rng) for _ in range(rng.choice((1, 1, 1, 2, 3)))]
        op['again'] = rng.random() < 0.2
        ops.append(op)
    cfg = {'wallets': [[rng.getrandbits(250) + 1, rng.random() < 0.7, rng.random() < 0.5]
                       for _ in range(wallets)]}
    return {'cfg': cfg, 'ops': ops}


def denotes(text):
    '''The bytes a base64 text denotes, forgiving white space, unused bits and surplus padding at
    the end, or None.'''
    s = re.sub(r'[ \t\r\n\x0b\x0c]', '', text)
    if not re.fullmatch(r'[A-Za-z0-9+/]*=*', s):
        return None
    s = s.rstrip('=')
    if len(s) % 4 == 1:
        return None
    return b64decode(s + '=' * (-len(s) % 4))


def forge(pub, secret, plain, kind, magic, seed):
    '''Encrypt as another implementation would.  Returns (message, plain or None if bad).'''
    point = ec.mul(secret, pub)
    key = hashlib.sha512(ec.encode(point)).digest()
    pad = 16 - len(plain) % 16
    data = plain + bytes([pad]) * pad
    good = plain
    if kind == 'zero':
        data, good = data[:-1] + b'\0', None
    elif kind == 'big':
        data, good = data[:-1] + bytes([17 + seed % 239]), None
    elif kind == 'mixed':
        if pad == 1:
            data = data[:-1] + b'\x02'
            good = None if data[-2] != 2 else plain[:-1]
        else:
            data, good = data[:-pad] + b'\0' + data[-pad + 1:], None
    elif kind == 'full':
        data, good = data + b'\x10' * 16, data
    elif kind == 'bare' and len(plain) % 16 == 0 and plain:
        data = plain[:-1] + b'\x20'
        good = None
    body = aes.cbc_encrypt(key[16:32], key[:16], data)
    if kind == 'short':
        body, good = body[:-1 - seed % 15], None
    elif kind == 'empty':
        body, good = b'', None
    out = magic + ec.pub(secret) + body
    return out + REAL_HMAC_DIGEST(key[32:], out, 'sha256'), good


def execute(plan, ctx):
    cfg = plan['cfg']
    both = (Installation(), Installation(without_cryptodome=True))
    WORLD.entropy = Entropy(plan['seed'])
    wallets = []
    for secret, compressed, bare in cfg['wallets']:
        inst = both[bare]
        bx = inst.activate()
        wallets.append((inst, bx.PrivateKey(secret.to_bytes(32, 'big'), compressed), secret, bare))
    sent = []           # (message, magic, recipient, plain or None)
    ephemerals = set()
    last = b''
    for k, op in enumerate(plan['ops']):
        ctx.step()
        n = len(wallets)
        sender, to = op['from'] % n, op['to'] % n
        magic = MAGICS[op['magic']]
        if 'text' in op:
            msg = TEXTS[op['text']]
        elif 'uni' in op:
            msg = texts.text(op['uni'])
        elif op.get('same'):
            msg = last
        else:
            msg = det_bytes(op['len'], 'msg', plan['seed'], k)
        last = msg
        plain = msg.encode() if isinstance(msg, str) else msg
        inst, _, _, bare = wallets[sender]
        rinst, rkey, rsecret, rbare = wallets[to]
        # the sender knows the recipient only by its public key
        bx = inst.activate()
        if 'forge' in op:
            secret = int.from_bytes(det_bytes(31, 'forge', plan['seed'], k), 'big') + 1
            message, plain = forge(ec.mul(rsecret), secret, plain, op['forge'], magic, k)
            text = b64encode(message).decode()
            ctx.fault('forged ' + op['forge'])
        else:
            pub = bx.PublicKey.from_bytes(ec.pub(rsecret, bool(rkey.is_compressed())))
            if op['b64']:
                text = pub.encrypt_message_to_base64(msg, magic)
                check(isinstance(text, str), 'wrong-type', 'base64 text is not a string')
                message = b64decode(text, validate=True)
            else:
                message = pub.encrypt_message(msg, magic)
                text = b64encode(message).decode()
            check(message.startswith(magic), 'wrong-form', 'no magic')
            eph = message[len(magic):len(magic) + 33]
            check(eph not in ephemerals, 'ephemeral-reused',
                  lambda: f'ephemeral key {eph.hex()} used twice')
            ephemerals.add(eph)
        sent.append((message, magic, to, plain))
        # in transit
        got = message
        gtext = text
        others = [m for m, *_ in sent[:-1]]
        reader, rmagic = to, magic
        damage = []
        if 'alt' in op:
            got = transit.raw(message, op['alt'], others)
            gtext = b64encode(got).decode()
            damage = [a[0] for a in op['alt']]
        elif 'talt' in op:
            gtext = transit.text(text, op['talt'], B64,
                                 [b64encode(m).decode() for m in others])
            got = denotes(gtext)
            damage = ['text ' + a[0] for a in op['talt']]
        elif 'replay' in op:
            j = op['replay'] % len(sent)
            got = sent[j][0]
            gtext = b64encode(got).decode()
            damage = ['replay']
            if sent[j][2] == to:
                reader, rmagic = sent[j][2], sent[j][1]
        elif 'reader' in op:
            reader = op['reader'] % n
            damage = ['misdelivered'] if reader != to else []
        elif 'rmagic' in op:
            rmagic = MAGICS[op['rmagic']]
            damage = ['magic'] if rmagic != magic else []
        for d in damage:
            ctx.fault(d)
        # what the recipient must make of it
        want = None
        for m, mg, r, p in sent:
            if m == got and mg == rmagic and r == reader and p is not None:
                want = p
        inst, key, _, bare2 = wallets[reader]
        inst.activate()
        exact = not op['b64'] or gtext == b64encode(got or b'').decode()
        for _ in range(1 + op['again']):
            try:
                out = key.decrypt_message(gtext if op['b64'] else got, rmagic)
            except inst.bx.DecryptionError:
                out = None
            except Exception as e:
                check(False, 'other-error', lambda: f'decryption of a message damaged by {damage} '
                                                    f'raised {describe(e)}')
            if want is None:
                check(out is None, 'forged', lambda: f'a message damaged by {damage} decrypted '
                                                     f'to {short(out)}')
            elif exact:
                check(out is not None, 'refused', lambda: f'an intact message was refused, '
                                                          f'damage {damage}')
            check(out is None or bytes(out) == want and isinstance(out, bytes), 'wrong-plaintext',
                  lambda: f'{short(want)} decrypted to {short(out)}')
        result = 'refused' if out is None else 'opened'
        ctx.state(op['b64'], bare, bare2, damage, op.get('forge'), result)
        ctx.log(k, digest(message), digest(gtext.encode('utf-8', 'surrogatepass')), damage, result)
        if want is not None and not damage:
            ctx.probe('intact')
            if bare != bare2:
                ctx.probe('other backend')
            if op['b64']:
                ctx.probe('base64')
            if 'forge' in op:
                ctx.probe('forged accepted')
        elif 'forge' in op and not damage:
            ctx.probe('bad padding refused')
        elif damage == ['replay']:
            ctx.probe('replayed')
        elif damage == ['misdelivered']:
            ctx.probe('wrong recipient refused')
        elif damage == ['magic']:
            ctx.probe('wrong magic refused')
        elif want is not None:
            ctx.probe('same bytes')
        else:
            ctx.probe('damaged refused')
