'''Independent reference for word lists and mnemonics.'''

import hashlib
import hmac
import os
from unicodedata import normalize

from .loader import REPO
from .seam import REAL_HMAC_DIGEST, REAL_OPEN

SIZES = {'english.txt': 2048, 'spanish.txt': 2048, 'japanese.txt': 2048,
         'chinese_simplified.txt': 2048, 'electrum_old.txt': 1626}
BIP39 = tuple(sorted(n for n, size in SIZES.items() if size == 2048))
_cache = {}


def raw_file(name):
    with REAL_OPEN(os.path.join(REPO, 'bitcoinx', 'data', name), 'rb') as f:
        return f.read()


def parse(data):
    '''The words of a file's bytes (UTF-8, one a line, # comments).'''
    text = normalize('NFKD', data.decode('utf-8'))
    text = text.replace('\r\n', '\n').replace('\r', '\n')
    lines = [line.strip() for line in text.split('\n')]
    return [line.lower() for line in lines if line and not line.startswith('#')]


def words_of(name):
    if name not in _cache:
        words = _cache[name] = parse(raw_file(name))
        assert len(words) == SIZES[name] and len(set(words)) == len(words), name
    return _cache[name]


def bip39_words(entropy, words):
    cs = len(entropy) // 4
    n = int.from_bytes(entropy, 'big') << cs | hashlib.sha256(entropy).digest()[0] >> 8 - cs
    count = (len(entropy) * 8 + cs) // 11
    return [words[n >> 11 * (count - 1 - k) & 2047] for k in range(count)]


def bip39_entropy(phrase, words):
    '''Entropy of a space-separated phrase with a right checksum, else None.'''
    parts = phrase.split(' ')
    if len(parts) not in (12, 15, 18, 21, 24) or not all(w in words for w in parts):
        return None
    n = 0
    for w in parts:
        n = n << 11 | words.index(w)
    cs = len(parts) // 3
    entropy = (n >> cs).to_bytes(len(parts) * 4 // 3, 'big')
    return entropy if bip39_words(entropy, words) == parts else None


def old_words(seed):
    words = words_of('electrum_old.txt')
    n = len(words)
    out = []
    for k in range(0, len(seed), 4):
        x = int.from_bytes(seed[k:k + 4], 'big')
        w1 = x % n
        w2 = (x // n + w1) % n
        w3 = (x // n // n + w2) % n
        out += [words[w1], words[w2], words[w3]]
    return ' '.join(out)


_old_index = {}


def is_old(phrase):
    '''Would an old Electrum wallet take this phrase as a seed?'''
    words = words_of('electrum_old.txt')
    if not _old_index:
        _old_index.update({w: k for k, w in enumerate(words)})
    n = len(words)
    parts = phrase.lower().split()
    if len(parts) in (12, 24) and all(p in _old_index for p in parts):
        for k in range(0, len(parts), 3):
            a, b, c = (_old_index[p] for p in parts[k:k + 3])
            if a + n * ((b - a) % n) + n * n * ((c - b) % n) >= 1 << 32:
                break
        else:
            return True
    try:
        return len(bytes.fromhex(phrase)) in (16, 32)
    except ValueError:
        return False


def is_new(phrase, prefix):
    data = normalize('NFKD', phrase).lower().encode()
    return REAL_HMAC_DIGEST(b'Seed version', data, 'sha512').hex().startswith(prefix)


def electrum_phrase(n, words):
    out = []
    while n:
        n, r = divmod(n, len(words))
        out.append(words[r])
    return ' '.join(out)


def electrum_number(phrase, index, size):
    n = 0
    for w in reversed(phrase.split(' ')):
        n = n * size + index[w]
    return n
