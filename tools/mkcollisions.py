'''Precomputes headers whose hashes collide in their first four bytes (fixtures/collisions.json).

Deterministic; takes a minute or two.  Only easy proof of work (bits 0x207fffff).'''
import hashlib
import json
import multiprocessing
import os
import struct
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sim import model as M          # noqa
from sim.core import det_bytes      # noqa


def grind(head, n, start=0):
    sha = hashlib.sha256
    mid = sha(head)
    pack = struct.Struct('<I').pack
    for nonce in range(start, start + n):
        h = mid.copy()
        b = pack(nonce)
        h.update(b)
        d = sha(h.digest()).digest()
        if d[31] < 0x7f:
            yield nonce, d


def head(prev, tag, ts):
    return M.raw_header(1, prev, det_bytes(32, 'coll', tag), ts, M.EASY, 0)[:76]


def pair(head_a, head_b, n=220_000):
    '''Headers from two heads with the same short hash.'''
    seen = {}
    for nonce, d in grind(head_a, n):
        seen.setdefault(d[:4], nonce)
    for nonce, d in grind(head_b, n):
        if d[:4] in seen and (head_a != head_b or seen[d[:4]] != nonce):
            return (head_a + struct.pack('<I', seen[d[:4]]), head_b + struct.pack('<I', nonce))
    return None


def triple(hd, n=12_000_000):
    seen = {}
    for nonce, d in grind(hd, n):
        k = d[:4]
        if k in seen:
            seen[k] = seen[k] + (nonce,)
            if len(seen[k]) == 3:
                return [hd + struct.pack('<I', x) for x in seen[k]]
        else:
            seen[k] = (nonce,)
    return None


def misaligned(args):
    hd, keys, start, n = args
    for nonce, d in grind(hd, n, start):
        if d[:4] in keys:
            return hd + struct.pack('<I', nonce)
    return None


def family(seed):
    '''A main chain with forks; blocks is a list of [raw hex, parent id].'''
    g = M.genesis_for(seed)
    blocks = {0: (g, None)}
    ts = 1_500_000_000
    main = [0]
    nid = 1

    def add(raw, parent):
        nonlocal nid
        assert raw[4:36] == M.dsha(blocks[parent][0])
        assert int.from_bytes(M.dsha(raw), 'little') <= M.target_of(M.EASY)
        blocks[nid] = (raw, parent)
        nid += 1
        return nid - 1

    def plain(parent, tag):
        return add(M.mine(head(M.dsha(blocks[parent][0]), tag, ts + 600 * nid) + bytes(4)), parent)

    notes = []
    for k in range(24):
        if k in (3, 9):
            hd = head(M.dsha(blocks[main[-1]][0]), (seed, 'sib', k), ts + 600 * nid)
            found = pair(hd, hd)
            if found:
                a, b = add(found[0], main[-1]), add(found[1], main[-1])
                notes.append(('siblings', a, b))
                main.append(a)
                plain(b, (seed, 'bext', k))
                continue
        main.append(plain(main[-1], (seed, 'main', k)))
    # across depths
    for x, y in ((2, 15), (6, 20), (24, 24)):
        p, q = main[min(x, len(main) - 1)], main[min(y, len(main) - 1)]
        found = pair(head(M.dsha(blocks[p][0]), (seed, 'xa', x), ts + 600 * nid),
                     head(M.dsha(blocks[q][0]), (seed, 'xb', y), ts + 600 * nid + 7))
        if found:
            a, b = add(found[0], p), add(found[1], q)
            notes.append(('far', a, b))
            plain(a, (seed, 'fa', x))
            plain(b, (seed, 'fb', y))
    # found misaligned inside the concatenation of the main chain's short hashes
    order = list(range(0, nid))
    shorts = b''.join(M.dsha(blocks[i][0])[:4] for i in order)
    keys = {shorts[i:i + 4] for i in range(len(shorts) - 3) if i % 4}
    if seed < 4:
        hd = head(M.dsha(blocks[main[-1]][0]), (seed, 'mis'), ts + 600 * nid)
        with multiprocessing.Pool(8) as pool:
            step = 2_000_000
            for raw in pool.imap(misaligned, [(hd, keys, s, step)
                                              for s in range(0, 256_000_000, step)]):
                if raw:
                    m = add(raw, main[-1])
                    notes.append(('misaligned', m, 0))
                    plain(m, (seed, 'mext'))
                    break
            pool.terminate()
    if seed == 0:
        found = triple(head(M.dsha(blocks[main[5]][0]), (seed, 'tri'), ts + 600 * nid))
        if found:
            ids = [add(raw, main[5]) for raw in found]
            notes.append(('triple', *ids))
            plain(ids[1], (seed, 'triext'))
    return {'seed': seed, 'notes': notes,
            'blocks': [[i, blocks[i][1], blocks[i][0].hex()] for i in range(1, nid)]}


def overlap(hd, off, n):
    '''Siblings b, c such that the short hash of c is also found off bytes into that of b.'''
    first, last = {}, []
    for nonce, d in grind(hd, n):
        first.setdefault(d[off:4], nonce)
        if d[off:4] == d[:4 - off]:
            last.append((nonce, d))
    # b[off:4] == c[:4 - off] and c[:off] == c[4 - off:4]
    for nonce, d in (x for x in grind(hd, n) if x[1][:off] == x[1][4 - off:4]):
        other = first.get(d[:4 - off])
        if other not in (None, nonce):
            return hd + struct.pack('<I', other), hd + struct.pack('<I', nonce)
    return None


def overlaps(seed):
    '''A chain with pairs of siblings found overlapping each other.'''
    blocks = {0: (M.genesis_for(seed), None)}
    notes = []
    ts = 1_500_000_000

    def add(raw, parent):
        n = len(blocks)
        blocks[n] = raw, parent
        return n

    def plain(parent, tag):
        return add(M.mine(head(M.dsha(blocks[parent][0]), tag, ts + 600 * len(blocks)) + bytes(4)),
                   parent)

    tip = 0
    for k, off in enumerate((1, 2, 3) if seed % 2 == 0 else (2, 1, 1)):
        tip = plain(tip, (seed, 'omain', k))
        found = overlap(head(M.dsha(blocks[tip][0]), (seed, 'over', k), ts + 600 * len(blocks)),
                        off, 40_000_000 if off == 3 else 600_000)
        if found:
            b, c = add(found[0], tip), add(found[1], tip)
            notes.append(('overlap', off, b, c))
            plain(b, (seed, 'ob', k))
            tip = plain(c, (seed, 'oc', k))
    return {'seed': seed, 'notes': notes,
            'blocks': [[i, blocks[i][1], blocks[i][0].hex()] for i in range(1, len(blocks))]}


if __name__ == '__main__':
    out = [family(s) for s in range(6)] + [overlaps(s) for s in (6, 7, 8)]
    with open(f'{HERE}/fixtures/collisions.json', 'w') as f:
        json.dump(out, f)
    for fam in out:
        print(fam['seed'], len(fam['blocks']), fam['notes'])
