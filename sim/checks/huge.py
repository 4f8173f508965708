'''Header trees of extreme shape, fed to (or read back by) a real header store.'''

import random
import struct

from .. import model as M
from ..core import check
from ..disk import SimDisk
from ..hdrsim import Blocks, headers_path


class Tree:
    '''Cheap bookkeeping for trees too large for the general reference store.'''

    def __init__(self, bx, seed):
        self.bx = bx
        self.blocks = Blocks(seed, 'const')
        self.coin, self.cp = self.blocks.setup(bx)
        self.raw = [self.blocks.raw[0]]
        self.hash = [M.dsha(self.raw[0])]
        self.height = [0]
        self.parent = [None]
        self.bits = struct.unpack('<I', self.raw[0][72:76])[0]
        self.seed = seed

    def mine(self, parent):
        k = len(self.raw)
        raw = M.mine(M.raw_header(1, self.hash[parent], struct.pack('<II', k, self.seed) * 4,
                                  1_500_000_000 + k, self.bits, 0), True)
        self.raw.append(raw)
        self.hash.append(M.dsha(raw))
        self.height.append(self.height[parent] + 1)
        self.parent.append(parent)
        return k

    def file(self):
        '''The header file a store having accepted these headers in order would have.'''
        return struct.pack('<HHI', 8, 0, len(self.raw)) + b''.join(self.raw)


def wide(tree, n):
    '''n forks of the first header, some extended.'''
    tips = {}
    for _ in range(n):
        tips[tree.mine(0)] = None
    last = len(tree.raw) - 1
    for k in (last, last - 1, 1, n // 2):
        tips.pop(k, None)
        tips[tree.mine(k)] = None
    return list(tips)


def deep(tree, n, lead):
    '''A fork of a fork of a fork...'''
    at = 0
    tip = tree.mine(0)
    tips = [tip]
    for _ in range(n):
        new = at
        for _ in range(lead):
            new = tree.mine(new)
        tips.append(tree.mine(new))
        at = new
    return tips


def run(bx, ctx, op, read_back=False):
    tree = Tree(bx, op['seed'])
    tips = wide(tree, op['n']) if op['op'] == 'wide' else deep(tree, op['n'], op['lead'])
    ctx.nontrivial = True
    if op['op'] == 'wide' and op['n'] > 65536:
        ctx.probe('as many chains as small integers hold')
    if op['op'] == 'deep' and op['n'] > 1000:
        ctx.probe('deeply nested forks')
    disk = SimDisk('huge', None)
    disk.quiet = True
    path = headers_path('huge')
    H = type('Cached', (bx.Headers,), {'max_cache_size': 1 << 30})
    rng = random.Random(op['seed'])
    if read_back:
        disk.put_file(path, tree.file())
        headers = H.from_file(tree.coin, path, tree.cp)
        start = 0
    else:
        headers = H.from_file(tree.coin, path, tree.cp)
        for k in range(1, len(tree.raw)):
            header, chain = headers.connect(tree.raw[k])
            if k < 10 or k % 997 == 0 or k > len(tree.raw) - 10:
                check(header.hash == tree.hash[k] and header.height == tree.height[k],
                      'wrong-header', f'connecting header {k} returned another one')
    # From now on most lookups are not answered from memory
    headers.max_cache_size = H.max_cache_size = 2
    k = tree.mine(tips[-1])
    tips[-1] = k
    header, chain = headers.connect(tree.raw[k])
    start = len(tree.raw)
    check(len(headers) == start, 'stored-count', f'{len(headers)} headers, expected {start}')
    check(headers.chain_count() == len(tips), 'chain-structure',
          f'{headers.chain_count()} chains, expected {len(tips)}')
    some = sorted(set(range(min(6, start))) | set(range(max(0, start - 12), start)) |
                  {rng.randrange(start) for _ in range(150)})
    on = {}
    for t in tips:
        k = t
        on[k] = t
    for k in some:
        try:
            header, chain = headers.lookup(tree.hash[k])
        except bx.MissingHeader:
            check(False, 'lost-header', f'header {k} of {start} is missing')
        check(bytes(header.raw) == tree.raw[k] and header.height == tree.height[k],
              'wrong-header', f'lookup of header {k} gave another one')
        if k in on:
            check(chain.tip.hash == tree.hash[k] and chain.height == tree.height[k],
                  'wrong-chain', f'lookup of tip {k} gave the chain with tip at {chain.height}')
        # The chain really contains it
        try:
            got = headers.raw_header_at_height(chain, tree.height[k])
        except bx.MissingHeader:
            got = None
        check(got == tree.raw[k], 'wrong-chain', f'header {k} is not on the chain given')
    for t in [tips[0], tips[-1], tips[len(tips) // 2]] + rng.sample(tips, min(5, len(tips))):
        chain = headers.lookup(tree.hash[t])[1]
        k = t
        path_down = []
        while k is not None:
            path_down.append(k)
            k = tree.parent[k]
        for k in {path_down[0], path_down[-1]} | set(rng.sample(path_down,
                                                                min(20, len(path_down)))):
            try:
                got = headers.header_at_height(chain, tree.height[k])
            except bx.MissingHeader:
                check(False, 'lost-header', f'no header {k} on its chain')
            check(bytes(got.raw) == tree.raw[k] and got.height == tree.height[k],
                  'wrong-header', f'height {tree.height[k]} of the chain of {t} is wrong')
        check(chain.work == headers.chainwork_range(chain, 0, chain.height + 1), 'wrong-work',
              f'work of the chain of {t}')
        other = headers.lookup(tree.hash[tips[0]])[1]
        first = set()
        k = tips[0]
        while k is not None:
            first.add(k)
            k = tree.parent[k]
        common = next(k for k in path_down if k in first)
        got = chain.common_chain_and_height(other)
        check(got[1] == tree.height[common], 'wrong-common',
              f'common height of {t} and {tips[0]} is {got[1]}')
    best = max(tree.height)
    check(headers.longest_chain().height == best, 'wrong-longest', 'not the longest chain')
    ctx.log('huge', op['op'], op['n'], len(headers))
    ctx.state(op['op'], op['n'], op['seed'], read_back)


def simplify_op(op):
    if op['op'] in ('wide', 'deep'):
        for n in (op['n'] // 2, op['n'] - 256, op['n'] - 1):
            if n > 2:
                yield dict(op, n=n)
