'''Simulated nodes running the real header store, with their reference stores.'''

import struct

from . import disk as D
from . import model as M
from . import seam
from .core import Violation, check, describe, det_bytes, digest, short
from .disk import SimCrash, SimDisk


def headers_path(node):
    return f'{D.SIM_ROOT}/{node}/headers'


# Which versions a header may have is not for the library to judge
VERSIONS = (1, 2, 1, 0x20000000, 0, 1, -1, 4, 0x7fffffff)


def below(h, v):
    '''The raw header set at height h below the checkpoint, in one of several variants.'''
    raw = det_bytes(80, 'below', h, v)
    if v != 3:
        return raw
    # All that distinguishes it from a header never set is a part of it
    a, b = ((0, 1), (79, 80), (4, 36), (36, 68), (0, 36), (72, 76), (40, 41), (0, 79))[h % 8]
    return bytes(a) + bytes(c or 1 for c in raw[a:b]) + bytes(80 - b)


class Blocks:
    '''Turns the symbolic mine operations of a plan into real header bytes.'''

    def __init__(self, seed, rule, height=0, prev_work=0):
        self.seed = seed
        self.rule = rule
        self.raw = {}
        self.info = {}
        # Block 0 is the checkpoint header, at any height
        g = M.genesis_for(seed % 64)
        self.raw[0] = g
        self.info[0] = M.Hdr(g, height, None, prev_work)
        self.height = height
        self.prev_work = prev_work
        self.exact_values = set()

    def setup(self, bx):
        coin = M.make_coin(bx, 'Simcoin', self.raw[0], M.lib_rule(self.rule))
        return coin, bx.CheckPoint(self.raw[0], self.height, self.prev_work)

    def required(self, parent, ts):
        return M.rule_bits(self.rule, parent.ts, parent.bits, parent.height + 1, ts)

    def build(self, op):
        '''Mine the block of an operation; None if its parent is not in the plan.'''
        i, p = op['id'], op['p']
        parent = self.info.get(p)
        if parent is None or i in self.raw:
            return None
        kind = op.get('kind', 'ok')
        ts = op['ts']
        bits = self.required(parent, ts)
        prev = parent.hash
        version = op.get('ver', VERSIONS[i % len(VERSIONS)])
        merkle = det_bytes(32, self.seed, i)
        ok = True
        if kind == 'badbits':
            alts = [b for b in M.LADDER + (bits + 1, bits - 1)
                    if b != bits and 1 << 249 < M.target_of(b) < 1 << 256
                    and 0x8000 <= b & 0xffffff <= 0x7fffff]
            bits = alts[i % len(alts)]
        elif kind == 'weirdbits':
            weird = (0, 1, 0xffffffff, 0x01800000, 0x04923456, 0x2100ffff, 0x22000001,
                     bits ^ 0x80000000, bits >> 8, 0x1d00ffff)
            bits = weird[i % len(weird)]
        elif kind == 'badpow':
            ok = False
        elif kind == 'badboth':
            bits = [b for b in M.LADDER if b != bits][i % 2]
            ok = False
        elif kind == 'exact':
            return self.exact(i, M.raw_header(version, prev, merkle, ts, bits, 0), op['delta'])
        elif kind == 'orphan':
            prev = det_bytes(32, 'orphan', self.seed, i)
        raw = M.raw_header(version, prev, merkle, ts, bits, 0)
        if kind == 'weirdbits':
            pass
        else:
            raw = M.mine(raw, ok)
        self.raw[i] = raw
        try:
            if kind != 'weirdbits':
                self.info[i] = M.Hdr(raw, parent.height + 1, parent, parent.cum)
        except (ZeroDivisionError, ValueError):
            pass
        return raw

    def exact(self, i, raw, delta):
        '''A header whose hash lies delta beyond its target: something no miner could produce
        at will, so the hash function is made to give it.'''
        value = M.target_of(struct.unpack('<I', raw[72:76])[0]) + delta
        if value in self.exact_values or not 0 < value < 1 << 256:
            return None
        self.exact_values.add(value)
        seam.force_double_sha256(raw, value.to_bytes(32, 'little'))
        self.raw[i] = raw
        parent = self.by_hash(raw[4:36])
        self.info[i] = M.Hdr(raw, parent.height + 1, parent, parent.cum)
        return raw

    def by_hash(self, hash_):
        return next(h for h in self.info.values() if h.hash == hash_)


def mutate(raw, mut):
    '''Transit corruption: a flipped bit, or a wrong length.'''
    pos, bit = mut
    if bit == 0:
        return (raw * 3)[:pos]
    out = bytearray(raw)
    out[pos % len(out)] ^= bit
    return bytes(out)


# Which of its faults is reported is the library's choice
MALFORMED = {'malformed', 'MissingHeader', 'IncorrectBits', 'InsufficientPoW'}


def verdict(ref, rule, raw):
    '''What the published acceptance rules say of raw: the set of permitted outcomes.'''
    if len(raw) != 80:
        return MALFORMED
    prev = ref.by_hash.get(raw[4:36])
    if prev is None:
        return {'MissingHeader'}
    h = M.dsha(raw)
    if h in ref.by_hash:
        return {'dup'}
    ts, bits = struct.unpack('<II', raw[68:76])
    out = set()
    need = M.rule_bits(rule, prev.ts, prev.bits, prev.height + 1, ts) \
        if isinstance(rule, str) else rule(ref, prev, ts)
    if bits != need:
        out.add('IncorrectBits')
    try:
        good = int.from_bytes(h, 'little') <= M.target_of(bits)
    except (ValueError, OverflowError):
        good = True
    if not good:
        out.add('InsufficientPoW')
    return out or {'accept'}


class Node:
    '''One simulated machine: a disk and a process running the real header store.'''

    def __init__(self, name, bx, coin, checkpoint, rule, ctx, *, cache=None):
        self.name = name
        self.bx = bx
        self.coin = coin
        self.checkpoint = checkpoint
        self.rule = rule
        self.ctx = ctx
        self.cache = cache
        self.disk = SimDisk(name, ctx)
        self.headers = None
        self.ref = None
        self.path = headers_path(name)

    def fresh_ref(self):
        cp = self.checkpoint
        return M.RefStore(cp.raw_header, cp.height, cp.prev_work)

    def open(self):
        '''Open the header file with the real library.'''
        H = self.bx.Headers
        if self.cache is not None:
            H = type('SmallCacheHeaders', (H,), {'max_cache_size': self.cache})
        self.headers = H.from_file(self.coin, self.path, self.checkpoint)
        return self.headers

    def start(self):
        self.open()
        if self.ref is None:
            self.ref = self.fresh_ref()
        return self

    def stop(self):
        '''The process exits (handles are closed by the kernel).'''
        self.headers = None
        self.disk.process_death()

    # -- offering a header

    def offer(self, raw, *, deep=False):
        '''connect() one header and judge the outcome; returns the outcome.'''
        bx, ref = self.bx, self.ref
        expect = verdict(ref, self.rule, raw)
        before = None
        if deep:
            before = self.disk.get_file(self.path)
        # Some callers receive into a buffer that they use again for the next header
        buffer = bytearray(raw) if (sum(raw[-4:]) + len(raw)) % 3 == 0 else raw
        try:
            result = self.headers.connect(buffer)
            got = 'ok'
        except bx.ChainException as e:
            result = e
            got = type(e).__name__
        except SimCrash:
            raise
        except OSError:
            raise
        except Exception as e:
            result = e
            got = 'malformed'
            if 'malformed' not in expect:
                raise Violation('connect-error', f'connect raised {describe(e)}, expected '
                                f'{sorted(expect)}') from e
        self.ctx.log('offer', self.name, digest(raw), got)
        if got == 'ok':
            check(expect & {'accept', 'dup'}, 'wrongly-accepted',
                  lambda: f'header {raw.hex()} was accepted, expected {sorted(expect)}')
            self.judge_accept(raw, result, 'dup' in expect)
            outcome = 'dup' if 'dup' in expect else 'accept'
        else:
            check(not expect & {'accept', 'dup'}, 'wrongly-rejected',
                  lambda: f'header {raw.hex()} was rejected with {describe(result)}')
            check(got in expect, 'wrong-error',
                  lambda: f'rejected with {got}, expected {sorted(expect)}')
            outcome = got
        if buffer is not raw:
            buffer[:] = bytes(len(buffer))
            self.ctx.probe('buffers used again')
        if outcome != 'accept':
            if before is not None:
                check(self.disk.get_file(self.path) == before, 'trace-left',
                      lambda: f'file changed by a header with outcome {outcome}')
            check(len(self.headers) == self.count(), 'trace-left',
                  lambda: f'{len(self.headers)} headers stored after outcome {outcome}, '
                          f'expected {self.count()}')
            check(self.headers.chain_count() == len(ref.branches), 'trace-left',
                  lambda: f'{self.headers.chain_count()} chains after outcome {outcome}, '
                          f'expected {len(ref.branches)}')
        return outcome

    def count(self):
        return self.ref.cp_height + len(self.ref.log)

    def judge_accept(self, raw, result, dup):
        ref = self.ref
        check(isinstance(result, tuple) and len(result) == 2, 'connect-result',
              lambda: f'connect returned {short(result)}')
        header, chain = result
        h = ref.by_hash[M.dsha(raw)] if dup else ref.accept(raw)
        same_header(header, h, 'connect')
        check(len(self.headers) == self.count(), 'stored-count',
              lambda: f'{len(self.headers)} headers stored, expected {self.count()}')
        check(self.headers.chain_count() == len(ref.branches), 'chain-structure',
              lambda: f'{self.headers.chain_count()} chains, expected {len(ref.branches)}')
        same_chain(chain, h.branch, 'connect')


def same_header(header, h, where):
    check(bytes(header.raw) == h.raw, 'wrong-header',
          lambda: f'{where}: raw {bytes(header.raw).hex()} expected {h.raw.hex()}')
    check(header.hash == h.hash, 'wrong-header', lambda: f'{where}: wrong hash')
    check(header.height == h.height, 'wrong-height',
          lambda: f'{where}: height {header.height} expected {h.height}')
    f = struct.unpack('<i32s32sIII', h.raw)
    check((header.version, header.prev_hash, header.merkle_root, header.timestamp, header.bits,
           header.nonce) == f, 'wrong-header', lambda: f'{where}: fields differ: {header!r}')


def same_chain(chain, b, where):
    check(chain.tip.hash == b.tip.hash and chain.height == b.tip.height, 'wrong-chain',
          lambda: f'{where}: chain with tip {chain.tip.hex_str()[-8:]}@{chain.height}, expected '
                  f'{b.tip.hash[::-1].hex()[-8:]}@{b.tip.height}')


def compare(node, rng, ctx, *, headers=None, ref=None, sample=None, pairs=60):
    '''Everything the store answers must be what the reference answers.

    sample limits the number of headers examined individually (None: all).'''
    bx = node.bx
    headers = headers or node.headers
    ref = ref or node.ref
    Missing = bx.MissingHeader
    expect_count = ref.cp_height + len(ref.log)
    check(len(headers) == expect_count, 'stored-count',
          lambda: f'{len(headers)} headers stored, expected {expect_count}')
    chains = list(headers.chains())
    check(headers.chain_count() == len(chains) == len(ref.branches), 'chain-structure',
          lambda: f'{len(chains)} chains, expected {len(ref.branches)}')
    by_tip = {}
    for c in chains:
        by_tip.setdefault(c.tip.hash, []).append(c)
    chain_of = {}
    for b in ref.branches:
        found = by_tip.get(b.tip.hash)
        check(found is not None and len(found) == 1, 'chain-structure',
              lambda: f'no single chain with tip {b.tip.hash[::-1].hex()} @{b.tip.height}')
        chain_of[id(b)] = found[0]
    branch_of = {id(chain_of[id(b)]): b for b in ref.branches}
    for b in ref.branches:
        c = chain_of[id(b)]
        same_header(c.tip, b.tip, 'chain tip')
        check(c.height == b.tip.height, 'wrong-height',
              lambda: f'chain height {c.height}, expected {b.tip.height}')
        check(c.work == b.tip.cum, 'wrong-work',
              lambda: f'chain work {c.work}, expected {b.tip.cum}')
        if b.parent is None:
            check(c.parent is None, 'chain-structure', 'base chain has a parent')
        else:
            check(c.parent is chain_of[id(b.parent)], 'chain-structure',
                  lambda: f'chain with tip @{b.tip.height} has the wrong parent')
            check(c.first_height == b.first.height, 'chain-structure',
                  lambda: f'first height {c.first_height}, expected {b.first.height}')
        heights = c.parent_heights()
        want = {id(c): b.tip.height}
        x = b
        while x.parent is not None:
            want[id(chain_of[id(x.parent)])] = x.first.height - 1
            x = x.parent
        check({id(k): v for k, v in heights.items()} == want, 'chain-structure',
              'parent heights differ')
    longest = headers.longest_chain()
    check(longest.work == ref.best_work(), 'wrong-longest',
          lambda: f'longest chain has work {longest.work}, greatest is {ref.best_work()}')
    check(id(longest) in branch_of, 'wrong-longest', 'longest chain is not one of the chains')

    nodes = ref.log
    if sample is not None and len(nodes) > sample:
        edge = nodes[:3] + nodes[-5:]
        nodes = edge + rng.sample(nodes, sample)
    for h in nodes:
        try:
            header, chain = headers.lookup(h.hash)
        except Missing:
            raise Violation('lost-header', f'header {h.hash[::-1].hex()} @{h.height} is missing'
                            ) from None
        same_header(header, h, 'lookup')
        check(chain is chain_of[id(h.branch)], 'wrong-chain',
              lambda: f'lookup of header @{h.height} gives the wrong chain')
    # By height, on every chain (or a sample), crossing the fork points
    branches = ref.branches if len(ref.branches) <= 12 else rng.sample(ref.branches, 12)
    for b in branches:
        c = chain_of[id(b)]
        tip = b.tip.height
        hs = {tip, ref.cp_height, b.first.height, b.first.height - 1, 0}
        lo = max(0, ref.cp_height - 3)
        hs.update(rng.randint(lo, tip) for _ in range(6))
        for height in sorted(h for h in hs if 0 <= h <= tip):
            want = ref.raw_at(b.tip, height)
            try:
                got = headers.raw_header_at_height(c, height)
                got2 = headers.header_at_height(c, height)
            except Missing:
                got = got2 = None
            if want is None:
                check(got is None, 'phantom-header',
                      lambda: f'height {height} was never set but gives {got.hex()}')
            else:
                check(got is not None, 'lost-header',
                      lambda: f'no header at height {height} on the chain with tip @{tip}')
                check(bytes(got) == want, 'wrong-header',
                      lambda: f'wrong header at height {height} on the chain with tip @{tip}')
                check(got2.height == height and bytes(got2.raw) == want and
                      got2.hash == M.dsha(want), 'wrong-header',
                      lambda: f'wrong header object at height {height}')
        for height in (tip + 1, tip + rng.randint(2, 9000), -1, -rng.randint(1, tip + 2)):
            try:
                headers.raw_header_at_height(c, height)
            except Missing:
                continue
            raise Violation('phantom-header', f'height {height} gives a header, the tip is at {tip}')
        # Work of ranges
        if tip > ref.cp_height:
            a = rng.randint(ref.cp_height + 1, tip)
            e = rng.randint(a, tip + 1)
            end = ref.node_at(b, e - 1)
            want = end.cum - (ref.node_at(b, a - 1).cum) if e > a else 0
            got = headers.chainwork_range(c, a, e)
            check(got == want, 'wrong-work',
                  lambda: f'work of [{a},{e}) is {got}, expected {want}')
            got = headers.chainwork_to_height(c, a)
            want = ref.node_at(b, a).cum
            check(got == want, 'wrong-work',
                  lambda: f'work to height {a} is {got}, expected {want}')
            h11 = rng.randint(ref.cp_height, tip)
            if h11 - 10 >= ref.cp_height or h11 - 10 >= 0 and all(
                    x in ref.below for x in range(max(0, h11 - 10), ref.cp_height)):
                stamps = sorted(struct.unpack('<I', ref.raw_at(b.tip, x)[68:72])[0]
                                for x in range(max(0, h11 - 10), h11 + 1))
                got = headers.median_time_past(c, h11)
                check(got == stamps[len(stamps) // 2], 'wrong-mtp',
                      lambda: f'median time past at {h11} is {got}')
    # Common ancestors
    n = len(ref.branches)
    todo = [(x, y) for x in range(n) for y in range(n)]
    if len(todo) > pairs:
        todo = rng.sample(todo, pairs)
    for x, y in todo:
        bx_, by = ref.branches[x], ref.branches[y]
        common = ref.common(bx_, by)
        chain, height = chain_of[id(bx_)].common_chain_and_height(chain_of[id(by)])
        check(height == common.height, 'wrong-common',
              lambda: f'common height {height}, expected {common.height}')
        check(chain is chain_of[id(common.branch)], 'wrong-common',
              lambda: f'common chain is wrong at height {height}')
    # Hashes never stored
    some = nodes[rng.randrange(len(nodes))].hash
    for absent in (det_bytes(32, 'absent', rng.randrange(1 << 30)), bytes(32),
                   some[:4] + det_bytes(28, 'tail', rng.randrange(1 << 30)),
                   some[:31] + bytes([some[31] ^ 1]), some[4:] + some[:4]):
        if absent in ref.by_hash:
            continue
        try:
            headers.lookup(absent)
        except Missing:
            continue
        raise Violation('phantom-header', f'lookup of {absent.hex()} found something')
    ctx.state(expect_count, len(ref.branches), ref.best_work() % (1 << 61))


def view(headers, bx, ref):
    '''A structural digest of what a store holds, in acceptance order of ref.'''
    out = []
    for h in ref.log:
        header, chain = headers.lookup(h.hash)
        out.append((header.height, chain.tip.hash))
    return out


def accepted_prefix(node, headers):
    '''Which prefix of node.ref.log (plus possibly foreign headers) a reopened store holds.

    Returns the number of headers held.'''
    return len(headers) - node.ref.cp_height
