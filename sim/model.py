'''Reference models, independent of the library: blocks, work, header tree, difficulty.'''

import hashlib
import struct

from .core import det_bytes

_sha256 = hashlib.sha256


def dsha(b):
    return hashlib.sha256(hashlib.sha256(b).digest()).digest()


def target_of(bits):
    exp, mant = bits >> 24, bits & 0x7fffff
    if exp <= 3:
        return mant >> (8 * (3 - exp))
    return mant << (8 * (exp - 3))


def compact(target):
    '''Largest compact form not above target (published nBits encoding).'''
    size = (target.bit_length() + 7) // 8
    mant = target << (8 * (3 - size)) if size <= 3 else target >> (8 * (size - 3))
    if mant >= 0x800000:
        mant >>= 8
        size += 1
    return (size << 24) | mant


def work_of(bits):
    return (1 << 256) // (target_of(bits) + 1)


def raw_header(version, prev, merkle, ts, bits, nonce):
    return struct.pack('<i32s32sIII', version, prev, merkle, ts, bits, nonce)


class Hdr:
    '''A header in the reference tree.'''
    __slots__ = ('raw', 'hash', 'prev', 'height', 'work', 'cum', 'parent', 'bits', 'ts', 'branch')

    def __init__(self, raw, height, parent, cum_before):
        self.raw = raw
        self.hash = dsha(raw)
        self.prev = raw[4:36]
        self.ts, self.bits = struct.unpack('<II', raw[68:76])
        self.height = height
        self.parent = parent
        self.work = work_of(self.bits)
        self.cum = cum_before + self.work
        self.branch = None


class Branch:
    '''The documented grouping: a header extending a tip extends its chain, any other starts
    a new chain.'''
    __slots__ = ('parent', 'first', 'tip', 'headers')

    def __init__(self, parent, first):
        self.parent = parent
        self.first = first
        self.tip = first
        self.headers = [first]
        first.branch = self


class RefStore:
    '''What a header store must hold after a history of accepted headers.'''

    def __init__(self, checkpoint_raw, checkpoint_height, prev_work):
        self.cp_height = checkpoint_height
        cp = Hdr(checkpoint_raw, checkpoint_height, None, prev_work)
        self.cp = cp
        self.below = {}            # height -> raw, set below the checkpoint
        self.below[checkpoint_height] = checkpoint_raw
        self.log = [cp]            # acceptance order
        self.by_hash = {cp.hash: cp}
        self.branches = [Branch(None, cp)]

    def clone_prefix(self, n):
        '''The store after only the first n accepted headers (including the checkpoint).'''
        other = RefStore(self.cp.raw, self.cp_height, self.cp.cum - self.cp.work)
        other.below = dict(self.below)
        for h in self.log[1:n]:
            other.accept(h.raw)
        return other

    def accept(self, raw):
        prev = self.by_hash[raw[4:36]]
        h = Hdr(raw, prev.height + 1, prev, prev.cum)
        self.log.append(h)
        self.by_hash[h.hash] = h
        if prev.branch.tip is prev:
            prev.branch.tip = h
            prev.branch.headers.append(h)
            h.branch = prev.branch
        else:
            self.branches.append(Branch(prev.branch, h))
        return h

    def ancestor(self, h, height):
        '''Header at height on the branch ending in h; None below the checkpoint.'''
        if height < self.cp_height:
            return None
        while h.height > height:
            h = h.parent
        return h

    def raw_at(self, h, height):
        '''Raw header at height on the path to h, None if missing.'''
        if height > h.height or height < 0:
            return None
        if height <= self.cp_height:
            return self.below.get(height)
        # Jump over whole branches
        b = h.branch
        while height < b.first.height:
            b = b.parent
        return b.headers[height - b.first.height].raw

    def node_at(self, branch, height):
        b = branch
        while b.parent is not None and height < b.first.height:
            b = b.parent
        i = height - b.first.height
        return b.headers[i] if 0 <= i < len(b.headers) else None

    def tips(self):
        return [b.tip for b in self.branches]

    def best_work(self):
        return max(b.tip.cum for b in self.branches)

    def common(self, a, b):
        '''Greatest common height of two branches (by their tips).'''
        x, y = a.tip, b.tip
        while x is not y:
            if x.height >= y.height:
                x = x.parent
            else:
                y = y.parent
        return x


# ------------------------------------------------------------------ simulated coins

EASY = 0x207fffff
LADDER = (0x207fffff, 0x203fffff, 0x201fffff, 0x207fffff, 0x204ccccc)


def rule_bits(kind, prev_ts, prev_bits, height, ts, genesis_bits=EASY):
    '''Required bits of a simulated coin: a function of the branch, the height and the
    timestamp, computed from plain values.'''
    if kind == 'const':
        return genesis_bits
    if kind == 'height':
        return LADDER[(height // 3) % len(LADDER)]
    if kind == 'branch':
        # depends on the predecessor's timestamp, so differs between branches
        return LADDER[(prev_ts // 64 + height) % len(LADDER)]
    if kind == 'slow':
        # a slow block may use minimum difficulty
        if ts - prev_ts > 1200:
            return genesis_bits
        return LADDER[1 + height % 2]
    if kind == 'adjust':
        # difficulty follows the previous block's
        t = target_of(prev_bits)
        t = t * (8 if prev_ts % 1000 > 500 else 5) // 6
        return compact(min(max(t, 1 << 250), target_of(genesis_bits)))
    raise ValueError(kind)


RULES = ('const', 'height', 'branch', 'slow', 'adjust')


def lib_rule(kind):
    '''The same rule, in the form the library calls: it gets at the branch only through the
    public interface.'''
    def required_bits(headers, chain, height, timestamp=None):
        if height == 0:
            return EASY
        prev = headers.header_at_height(chain, height - 1)
        return rule_bits(kind, prev.timestamp, prev.bits, height, timestamp)
    return required_bits


def genesis_for(seed):
    merkle = det_bytes(32, 'genesis', seed)
    return mine(raw_header(1, bytes(32), merkle, 1_500_000_000, EASY, 0))


def mine(raw, ok=True, start=0):
    '''Grind the nonce until the hash does (or does not) meet the target of its bits.'''
    head = raw[:76]
    target = target_of(struct.unpack('<I', raw[72:76])[0])
    nonce = start
    sha = _sha256
    mid = sha(head)
    pack = struct.Struct('<I').pack
    while True:
        h = mid.copy()
        h.update(pack(nonce & 0xffffffff))
        value = int.from_bytes(sha(h.digest()).digest(), 'little')
        if (value <= target) == ok:
            return head + pack(nonce & 0xffffffff)
        nonce += 1


def make_coin(bx, name, genesis_raw, required_bits):
    B = bx.Bitcoin
    return bx.Coin(name, genesis_raw.hex(), required_bits, B.P2PKH_verbyte, B.P2SH_verbyte,
                   B.WIF_byte, B.xpub_verbytes, B.xprv_verbytes, B.cashaddr_prefix)
