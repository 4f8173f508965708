'''Damage done to byte strings and texts in transit.'''

RAW = ('flip', 'flip', 'set', 'drop', 'drop', 'dup', 'insert', 'swap', 'trunc', 'cuthead',
       'extend', 'zero', 'reverse', 'splice', 'empty')
NONASCII = 'é¡Ω五\u212a\u0131\U0001f600\x00\x7f\ud800'


def gen_raw(rng):
    return [rng.choice(RAW), rng.getrandbits(30), rng.getrandbits(30), rng.choice(
        (1, 1, 2, 16, 32, 33, rng.randint(1, 64)))]


def raw(data, alts, others=()):
    '''Apply alterations to bytes; others are other messages to splice from.'''
    data = bytes(data)
    for kind, a, b, n in alts:
        size = len(data)
        i = a % (size + 1)
        if kind == 'empty':
            data = b''
        elif kind == 'extend':
            data += bytes((b + k * 7) & 255 for k in range(n))
        elif kind == 'insert':
            data = data[:i] + bytes((b + k * 7) & 255 for k in range(n)) + data[i:]
        elif kind == 'splice':
            if others:
                other = others[b % len(others)]
                # often at one of the field boundaries counted from either end
                j = (i, 4, 37, max(0, size - 32))[b % 4]
                data = data[:j] + other[j if b & 16 else max(0, len(other) - (size - j)):]
        elif not size:
            continue
        else:
            i = a % size
            j = b % size
            if kind == 'flip':
                # the last bytes and the first ones more often than the rest
                i = (i, i, min(size - 1, a % 40), size - 1 - a % min(size, 33))[b & 3]
                data = data[:i] + bytes([data[i] ^ 1 << (b >> 4) % 8]) + data[i + 1:]
            elif kind == 'set':
                data = data[:i] + bytes([b & 255]) + data[i + 1:]
            elif kind == 'drop':
                data = data[:i] + data[i + n:]
            elif kind == 'dup':
                data = data[:i] + data[i:i + n] + data[i:]
            elif kind == 'swap':
                n = min(n, max(1, abs(i - j)))
                i, j = min(i, j), max(i, j)
                data = data[:i] + data[j:j + n] + data[i + n:j] + data[i:i + n] + data[j + n:]
            elif kind == 'trunc':
                data = data[:i]
            elif kind == 'cuthead':
                data = data[i:]
            elif kind == 'zero':
                data = data[:i] + bytes(len(data[i:i + n])) + data[i + n:]
            elif kind == 'reverse':
                data = data[:i] + data[i:i + n][::-1] + data[i + n:]
    return data


TEXT = ('change', 'change', 'change', 'nonascii', 'drop', 'insert', 'swap', 'trunc', 'case',
        'lower', 'upper', 'space', 'newline', 'pad', 'unpad', 'url', 'dup', 'empty', 'splice',
        'junk', 'lookalike')
PAIRS = ('0O', 'Il', '1l', '1I', 'o0', 'B8', '5S', '2Z', 'uv', 'nm', 'qg', 'kK', 'pq', 'cq')


def gen_text(rng):
    return [rng.choice(TEXT), rng.getrandbits(30), rng.getrandbits(30), rng.choice((1, 1, 2, 4))]


def text(s, alts, alphabet, others=()):
    for kind, a, b, n in alts:
        size = len(s)
        i = a % (size + 1)
        if kind == 'empty':
            s = ''
        elif kind == 'insert':
            s = s[:i] + ''.join(alphabet[(b + k) % len(alphabet)] for k in range(n)) + s[i:]
        elif kind == 'junk':
            s = s[:i] + '!@#\t _-\x00~é'[b % 10] * n + s[i:]
        elif kind == 'space':
            s = (s[:i] + ' ' + s[i:], ' ' + s, s + ' ', s + '\n')[b % 4]
        elif kind == 'newline':
            s = s[:i] + ('\n', '\r\n', '\t', '\x0b')[b % 4] + s[i:]
        elif kind == 'pad':
            s += '=' * n
        elif kind == 'unpad':
            s = s.rstrip('=')
        elif kind == 'url':
            s = s.replace('+', '-').replace('/', '_')
        elif kind == 'lower':
            s = s.lower()
        elif kind == 'upper':
            s = s.upper()
        elif kind == 'splice':
            if others:
                o = others[b % len(others)]
                s = s[:i] + o[i:]
        elif not size:
            continue
        else:
            i = a % size
            if b & 3 == 0:
                i = size - 1 - a % min(size, 8)
            elif b & 3 == 1:
                i = a % min(size, 12)
            c = s[i]
            if kind == 'change':
                s = s[:i] + alphabet[(b >> 2) % len(alphabet)] + s[i + 1:]
            elif kind == 'nonascii':
                s = s[:i] + NONASCII[(b >> 2) % len(NONASCII)] + s[i + (b & 4 > 0):]
            elif kind == 'drop':
                s = s[:i] + s[i + n:]
            elif kind == 'dup':
                s = s[:i] + s[i:i + n] + s[i:]
            elif kind == 'swap':
                s = s[:i] + s[i + 1:i + 2] + c + s[i + 2:]
            elif kind == 'trunc':
                s = s[:i]
            elif kind == 'case':
                s = s[:i] + c.swapcase() + s[i + 1:]
            elif kind == 'lookalike':
                for p in PAIRS:
                    if c in p:
                        s = s[:i] + p[1 - p.index(c)] + s[i + 1:]
                        break
    return s
