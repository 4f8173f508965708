'''Independent secp256k1 arithmetic (reference only; nothing here is constant time).'''

import hashlib

P = 2**256 - 2**32 - 977
N = 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141
G = (0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798,
     0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8)


def _dbl(p):
    x, y, z = p
    if not z:
        return p
    s = 4 * x * y * y % P
    m = 3 * x * x % P
    x2 = (m * m - 2 * s) % P
    return x2, (m * (s - x2) - 8 * y ** 4) % P, 2 * y * z % P


def _add(p, q):
    if not p[2]:
        return q
    if not q[2]:
        return p
    z1, z2 = p[2] * p[2] % P, q[2] * q[2] % P
    u1, u2 = p[0] * z2 % P, q[0] * z1 % P
    s1, s2 = p[1] * z2 * q[2] % P, q[1] * z1 * p[2] % P
    if u1 == u2:
        return _dbl(p) if s1 == s2 else (1, 1, 0)
    h, r = u2 - u1, s2 - s1
    h2 = h * h % P
    h3 = h * h2 % P
    v = u1 * h2 % P
    x = (r * r - h3 - 2 * v) % P
    return x, (r * (v - x) - s1 * h3) % P, h * p[2] * q[2] % P


def _affine(p):
    if not p[2]:
        return None
    i = pow(p[2], -1, P)
    return p[0] * i * i % P, p[1] * i * i * i % P


_table = []


def _g_table():
    if not _table:
        p = (G[0], G[1], 1)
        for _ in range(256):
            a = _affine(p)
            _table.append((a[0], a[1], 1))
            p = _dbl(p)
    return _table


def _jmul(k, point):
    k %= N
    acc = (1, 1, 0)
    if point == G:
        t = _g_table()
        i = 0
        while k:
            if k & 1:
                acc = _add(acc, t[i])
            k >>= 1
            i += 1
        return acc
    q = (point[0], point[1], 1)
    for bit in bin(k)[2:]:
        acc = _dbl(acc)
        if bit == '1':
            acc = _add(acc, q)
    return acc


def mul(k, point=G):
    '''k * point as an affine point, or None for infinity.'''
    if point is None or k % N == 0:
        return None
    return _affine(_jmul(k, point))


def add(a, b):
    if a is None:
        return b
    if b is None:
        return a
    return _affine(_add((a[0], a[1], 1), (b[0], b[1], 1)))


def encode(p, compressed=True):
    if compressed:
        return bytes([2 + (p[1] & 1)]) + p[0].to_bytes(32, 'big')
    return b'\x04' + p[0].to_bytes(32, 'big') + p[1].to_bytes(32, 'big')


def lift(x, odd):
    if x >= P:
        return None
    y2 = (x ** 3 + 7) % P
    y = pow(y2, (P + 1) // 4, P)
    if y * y % P != y2:
        return None
    return x, (y if y & 1 == odd else P - y)


def decode(data):
    if len(data) == 33 and data[0] in (2, 3):
        return lift(int.from_bytes(data[1:], 'big'), data[0] & 1)
    if len(data) == 65 and data[0] == 4:
        x, y = int.from_bytes(data[1:33], 'big'), int.from_bytes(data[33:], 'big')
        if x < P and y < P and (y * y - x ** 3 - 7) % P == 0:
            return x, y
    return None


def pub(secret, compressed=True):
    return encode(mul(secret), compressed)


def verify(point, digest, r, s):
    if not (0 < r < N and 0 < s < N):
        return False
    e = int.from_bytes(digest, 'big') % N
    w = pow(s, -1, N)
    p = add(mul(e * w % N), mul(r * w % N, point))
    return p is not None and p[0] % N == r


def recover(digest, r, s, recid):
    '''The public key of a recoverable signature, or None.'''
    if not (0 < r < N and 0 < s < N):
        return None
    x = r + (N if recid & 2 else 0)
    point = lift(x, recid & 1)
    if point is None:
        return None
    e = int.from_bytes(digest, 'big') % N
    w = pow(r, -1, N)
    return add(mul(s * w % N, point), mul(-e * w % N))


def hash160(data):
    return hashlib.new('ripemd160', hashlib.sha256(data).digest()).digest()


def sha256d(data):
    return hashlib.sha256(hashlib.sha256(data).digest()).digest()


def der_parse(sig):
    '''Strict DER -> (r, s), or None.'''
    if len(sig) < 8 or sig[0] != 0x30 or sig[1] != len(sig) - 2 or sig[2] != 2:
        return None
    n = sig[3]
    if 4 + n + 2 > len(sig) or sig[4 + n] != 2 or 6 + n + sig[5 + n] != len(sig):
        return None
    return (int.from_bytes(sig[4:4 + n], 'big', signed=True),
            int.from_bytes(sig[6 + n:], 'big', signed=True))


B58 = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'


def b58encode(raw):
    n = int.from_bytes(raw, 'big')
    out = ''
    while n:
        n, r = divmod(n, 58)
        out = B58[r] + out
    return '1' * (len(raw) - len(raw.lstrip(b'\0'))) + out


def b58check(raw):
    return b58encode(raw + sha256d(raw)[:4])
