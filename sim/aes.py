'''A small independent AES-128-CBC, for forging messages as another wallet would.'''


def _sbox():
    p = q = 1
    box = [0] * 256
    while True:
        p = p ^ (p << 1 & 255) ^ (0x1b if p & 128 else 0)
        q ^= q << 1
        q ^= q << 2
        q ^= q << 4
        q &= 255
        if q & 128:
            q ^= 9
        x = q
        for k in (1, 2, 3, 4):
            x ^= (q << k | q >> 8 - k) & 255
        box[p] = x ^ 0x63
        if p == 1:
            break
    box[0] = 0x63
    return box


S = _sbox()
X2 = [(x << 1) ^ (0x11b if x & 128 else 0) for x in range(256)]


def expand(key):
    w = [list(key[i:i + 4]) for i in range(0, 16, 4)]
    rcon = 1
    for i in range(4, 44):
        t = list(w[-1])
        if i % 4 == 0:
            t = [S[b] for b in t[1:] + t[:1]]
            t[0] ^= rcon
            rcon = X2[rcon]
        w.append([a ^ b for a, b in zip(w[-4], t)])
    return [sum(w[i:i + 4], []) for i in range(0, 44, 4)]


def block(keys, data):
    s = [a ^ b for a, b in zip(data, keys[0])]
    for r in range(1, 11):
        s = [S[b] for b in s]
        s = [s[(i + 4 * (i % 4)) % 16] for i in range(16)]
        if r < 10:
            out = []
            for c in range(0, 16, 4):
                a = s[c:c + 4]
                t = a[0] ^ a[1] ^ a[2] ^ a[3]
                out += [a[i] ^ t ^ X2[a[i] ^ a[(i + 1) % 4]] for i in range(4)]
            s = out
        s = [a ^ b for a, b in zip(s, keys[r])]
    return bytes(s)


def cbc_encrypt(key, iv, data):
    '''data must be a multiple of 16 bytes.'''
    keys = expand(key)
    out = []
    for i in range(0, len(data), 16):
        iv = block(keys, bytes(a ^ b for a, b in zip(data[i:i + 16], iv)))
        out.append(iv)
    return b''.join(out)


assert block(expand(bytes(range(16))), bytes.fromhex('00112233445566778899aabbccddeeff')).hex() \
    == '69c4e0d86a7b0430d8cdb78070b4c55a'
