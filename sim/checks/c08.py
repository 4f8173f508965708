'''C08: a damaged or foreign header file is detected on open, never misread.'''

import random
import struct

from .. import model as M
from ..core import Violation, check, describe, det_bytes
from ..filesim import FileRun
from ..hdrsim import compare
from . import fileplan
from .fileplan import simplify_cfg, simplify_op  # noqa

ID = 'C08'
RUNS = {'quick': 10000, 'thorough': 60000}
RULE = ('one run = one history on one simulated disk whose file is then emptied, truncated, '
        'extended, replaced by something else, damaged in its bookkeeping fields or opened for '
        'another checkpoint (several times over, with further arrivals, restarts and failures of '
        'the open itself in between); non-trivial: at least one damage; distinct by digest of '
        'the event log')
COMPONENTS = fileplan.COMPONENTS
STATE_MEASURE = 'distinct (headers stored, branches, best work) of compared stores'
MUST_PROBE = ('fresh store', 'all kept', 'part kept', 'checkpoint raised', 'checkpoint lowered',
              'checkpoint nearly the same')

DAMAGES = ('empty', 'truncate', 'truncate', 'truncate-header', 'foreign', 'version', 'reserved',
           'count-low', 'count-low', 'count-high', 'count-any', 'count-max', 'extend', 'delete',
           'cp-up', 'cp-up', 'cp-down', 'cp-other', 'cp-near', 'cp-near', 'cp-other-height', 'swap-forks', 'bit')


def generate(rng, tier, index):
    cfg = fileplan.base_cfg(rng)
    if rng.random() < 0.3:
        cfg['height'] = rng.choice((3, 5, 12))
        cfg['prev_work'] = cfg['height'] * 2
        # The blocks before the checkpoint are a real chain
        cfg['early'] = 1
    blocks = rng.choice((2, 5, 12, 30 if tier == 'quick' else 80))
    ops, net = fileplan.history(rng, cfg, blocks, restart=0.05, flush=0.05, bulk=0.02)
    if cfg.get('early'):
        head = [{'op': 'early', 'h': h} for h in range(cfg['height'])]
        for op in head:
            if rng.random() < 0.95:
                ops.insert(rng.randint(0, min(len(ops), 4)), op)
    for _ in range(rng.choice((1, 1, 2, 4))):
        at = rng.randint(len(ops) // 4, len(ops))
        op = {'op': 'damage', 'how': rng.choice(DAMAGES), 'r': rng.getrandbits(40)}
        if rng.random() < 0.15:
            op['fault'] = fileplan.err_fault(rng, 'restart')
        ops.insert(at, op)
        if rng.random() < 0.3:
            ops.insert(at + 1, {'op': 'restart'})
    cfg['net'] = net.faults
    return {'cfg': cfg, 'ops': ops}


class Run(FileRun):

    def __init__(self, plan, ctx):
        super().__init__(plan, ctx)
        self.early = {}
        cfg = self.cfg
        if cfg.get('early'):
            # Rebuild block 0 at the top of a chain of cfg['height'] earlier blocks
            self.rechain(cfg['height'])
        self.base_coin = self.node.coin

    def rechain(self, height):
        chain = []
        prev = bytes(32)
        for h in range(height + 1):
            raw = M.mine(M.raw_header(1, prev, det_bytes(32, 'early', self.plan['seed'] % 16, h),
                                      1_500_000_000 - 600 * (height - h), M.EASY, 0))
            chain.append(raw)
            prev = M.dsha(raw)
        self.early = dict(enumerate(chain[:-1]))
        b = self.blocks
        b.raw[0] = chain[-1]
        b.prev_work = sum(M.work_of(M.EASY) for _ in range(height))
        b.info[0] = M.Hdr(chain[-1], height, None, b.prev_work)
        self.cfg = dict(self.cfg, prev_work=b.prev_work)
        coin, cp = b.setup(self.bx)
        node = self.node
        node.coin, node.checkpoint = coin, cp
        node.ref = node.fresh_ref()

    def op_early(self, op):
        node = self.node
        h = op['h']
        if node.headers is None or h not in self.early or h >= node.ref.cp_height:
            return 'skip'
        node.headers.set_one(h, self.early[h])
        node.ref.below[h] = self.early[h]
        return 'ok'

    def op_bulk(self, op):
        # A plan may have moved its checkpoint beyond these
        return super().op_bulk(op)

    # -- damage

    def op_damage(self, op):
        node = self.node
        if node.headers is None:
            self.reopen()
        rng = random.Random(op['r'])
        disk, path = node.disk, node.path
        data = disk.get_file(path)
        node.stop()
        ref = node.ref
        how = op['how']
        cp = ref.cp_height
        count = cp + len(ref.log)
        end = 8 + 80 * count
        new = data
        checkpoint = node.checkpoint
        if how == 'empty':
            new = b''
        elif how == 'truncate':
            new = data[:rng.choice((rng.randrange(min(end + 90, len(data)) + 1),
                                    rng.randrange(12),
                                    max(0, end - rng.randrange(1, 200)),
                                    8 + 80 * cp + rng.randrange(162)))]
        elif how == 'truncate-header':
            new = data[:8 + 80 * rng.randint(0, count)]
        elif how == 'foreign':
            kind = rng.randrange(5)
            size = rng.choice((1, 7, 8, 9, 80, 88, 100, 5000, len(data)))
            new = (bytes(size) if kind == 0 else b'\xff' * size if kind == 1 else
                   (b'{"hello": "world"}\n' * size)[:size] if kind == 2 else
                   det_bytes(size, op['r']) if kind == 3 else
                   struct.pack('<HHI', 8, 0, rng.choice((0, 1, count, 0xffffffff))) +
                   det_bytes(80 * min(count, 50), op['r']))
        elif how == 'version':
            new = data[:2] + struct.pack('<H', rng.choice((1, 2, 256, 0xffff,
                                                           rng.randrange(1, 65536)))) + data[4:]
        elif how == 'reserved':
            new = struct.pack('<H', rng.choice((0, 1, 7, 9, 16, 88, 168, 0xffff, 8 + 80 * cp,
                                                rng.randrange(65536)) ) & 0xffff) + data[2:]
        elif how in ('count-low', 'count-high', 'count-any', 'count-max'):
            c = {'count-low': lambda: rng.randint(0, count),
                 'count-high': lambda: count + rng.choice((1, 2, 3, 100, 5000, 10000)),
                 'count-any': lambda: rng.choice((0, 1, cp, cp + 1, rng.randrange(1 << 20))),
                 'count-max': lambda: 0xffffffff - rng.randrange(3)}[how]()
            new = data[:4] + struct.pack('<I', c) + data[8:]
        elif how == 'extend':
            new = data + det_bytes(rng.choice((1, 79, 80, 81, 1000)), op['r'])
        elif how == 'bit':
            pos, bit = rng.randrange(8), rng.randrange(8)
            new = bytearray(data)
            new[pos] ^= 1 << bit
            new = bytes(new)
        elif how == 'delete':
            new = None
        elif how == 'swap-forks':
            new = data[:4] + struct.pack('<I', cp + 1) + data[8:]
        elif how == 'cp-up':
            h = rng.choice(ref.log)
            checkpoint = self.bx.CheckPoint(h.raw, h.height, h.cum - h.work)
            self.ctx.probe('checkpoint raised')
        elif how == 'cp-down' and cp and self.early:
            h = rng.randrange(cp) if cp <= max(self.early) + 1 else rng.choice(sorted(self.early))
            raw = self.early[h]
            checkpoint = self.bx.CheckPoint(raw, h, h * M.work_of(M.EASY))
            self.ctx.probe('checkpoint lowered')
        elif how == 'cp-other':
            g = M.genesis_for(self.plan['seed'] % 64 + 64)
            checkpoint = self.bx.CheckPoint(g, cp, ref.cp.cum - ref.cp.work)
        elif how == 'cp-near':
            # A checkpoint that differs in one bit, or one field, from that of the file
            g = bytearray(ref.cp.raw)
            if rng.random() < 0.5:
                # (any but its bits)
                g[(rng.randrange(76) + 76) % 80] ^= 1 << rng.randrange(8)
            else:
                at, size = rng.choice(((0, 4), (4, 32), (36, 32), (68, 4), (76, 4)))
                g[at:at + size] = det_bytes(size, op['r'])
            checkpoint = self.bx.CheckPoint(bytes(g), cp, ref.cp.cum - ref.cp.work)
            self.ctx.probe('checkpoint nearly the same')
        elif how == 'cp-other-height':
            g = M.genesis_for(self.plan['seed'] % 64 + 64)
            checkpoint = self.bx.CheckPoint(g, rng.choice((0, 1, 5, cp + 1, 5000)), 5)
        if new is None:
            disk.names.pop(disk.key(path))
            disk.committed()
            data = new = b''
        elif new is not data:
            disk.put_file(path, new)
        self.ctx.fault(f'file damage: {how}')
        node.checkpoint = checkpoint
        unknown = new is not None and len(new) >= 8 and new[2:4] != b'\0\0'
        old, old_data = node.ref, data
        status = None
        if op.get('fault'):
            status, err = self.try_open(op['fault'])
            if status == 'oserror':
                fired = self.last_fired
                if fired[1] in ('open',) and disk.get_file(path) is not None and \
                        not [k for k in disk.op_kinds if k in ('truncate', 'write', 'create',
                                                                'store')]:
                    check(disk.get_file(path) == new, 'file-altered',
                          f'opening failed on {fired} and altered the file')
        if status != 'ok':
            status, err = self.try_open(None)
            if status != 'ok':
                raise Violation('open-failed', f'opening fails without a fault: {describe(err)}')
        self.judge(old, old_data, how, unknown)
        return 'ok'

    def judge(self, old, data, how, unknown):
        '''The store is fresh, or holds a prefix of what the file had; a file of an unknown
        version is not read at all.'''
        node = self.node
        cp = node.checkpoint
        ref = node.fresh_ref()
        total = len(node.headers)
        n = total - cp.height - 1
        check(n >= 0, 'bad-count', lambda: f'{total} headers with a checkpoint at {cp.height}')
        # The headers the file had after the requested checkpoint, in order
        had = [raw for raw in (data[8 + 80 * i: 88 + 80 * i]
                               for i in range(cp.height + 1, old.cp_height + len(old.log)))]
        check(n <= len(had), 'invented-header',
              lambda: f'{n} headers held, the file had {len(had)} ({how})')
        for raw in had[:n]:
            check(raw[4:36] in ref.by_hash, 'unlinked-header',
                  f'the store counts a header that does not link ({how})')
            ref.accept(raw)
        check(not unknown or n == 0, 'version-ignored',
              lambda: f'{n} headers were read from a file of an unknown version ({how})')
        chain = node.headers.chains()[0]
        spots = set(old.below) | set(range(min(cp.height, 50))) | \
            set(range(max(0, cp.height - 50), cp.height))
        for h in sorted(x for x in spots if x < cp.height):
            try:
                got = bytes(node.headers.raw_header_at_height(chain, h))
            except self.bx.MissingHeader:
                continue
            check(not unknown, 'version-ignored',
                  lambda: f'height {h} was read from a file of an unknown version ({how})')
            check(got == data[8 + 80 * h: 88 + 80 * h], 'wrong-header',
                  lambda: f'height {h} gives {got.hex()}, which was never set ({how})')
            ref.below[h] = got
        node.ref = ref
        self.opened_once = True
        self.inflight = None
        # Blocks are at other heights, or unknown, if the chain is another one
        self.ctx.probe('fresh store' if n == 0 else 'all kept' if n == len(had) else 'part kept')
        compare(node, self.rng, self.ctx, sample=40, pairs=20)
        # Later acceptances neither overwrite each other nor are lost
        self.extend(1 + self.rng.randrange(3))
        if self.rng.random() < 0.6:
            node.stop()
            self.reopen()


def execute(plan, ctx):
    Run(plan, ctx).run()
