'''Single-node histories of a header store with faults of its disk and process.

Operations (all state-independent, so any subsequence is a valid plan):
  mine     make block id on top of block p
  bulk     make and connect n blocks in a row on top of block p
  connect  offer block id                           [fault]
  set      set the header at a height below the checkpoint  [fault]
  flush    flush                                    [fault]
  restart  the process exits and the file is opened again   [fault]
  kill     the process dies between operations
  power    the machine loses power between operations
  window   errors of the given kinds until 'heal'
A fault is armed within its operation: {'at': n-th disk event, 'do': 'crash'|'err'|'short'};
a crash with 'power' is a loss of power, otherwise a process death.
'''

import random

from . import model as M
from .core import Violation, check, describe, det_bytes
from .disk import SimCrash
from .hdrsim import Blocks, Node, below, compare, verdict
from .loader import Installation


class FileRun:

    def __init__(self, plan, ctx):
        self.plan = plan
        self.cfg = cfg = plan['cfg']
        self.ctx = ctx
        self.bx = Installation().bx
        self.rng = random.Random(plan['seed'])
        self.blocks = Blocks(plan['seed'], cfg['rule'], cfg['height'], cfg['prev_work'])
        coin, cp = self.blocks.setup(self.bx)
        self.node = Node('n0', self.bx, coin, cp, cfg['rule'], ctx, cache=cfg['cache'])
        self.node.ref = self.node.fresh_ref()
        self.node.ref.below = {cp.height: cp.raw_header}
        # Durability bookkeeping
        self.flushed = 0              # headers of ref.log known durable
        self.flushed_below = {}
        self.inflight = None          # raw header being connected when the process died
        self.torn_set = set()         # heights whose set was in flight
        self.ever = {}                # hash -> raw of everything ever accepted or in flight
        self.power_pending = None
        self.opened_once = False

    # -- low-level: run something of the library under a fault

    def guarded(self, fn, fault):
        '''Returns (status, value); status is 'ok', 'crash', 'oserror'.'''
        disk = self.node.disk
        disk.begin_op(fault)
        try:
            value = fn()
            status = 'ok'
        except SimCrash:
            status, value = 'crash', None
        except OSError as e:
            status, value = 'oserror', e
        fired = disk.end_op()
        if disk.dead:
            status = 'crash'
        if status == 'crash':
            if fired is None:
                raise Violation('harness', 'SimCrash without a crash fault')
            kind = 'power loss' if fault.get('power') else 'process death'
            self.ctx.fault(f'{kind} at {fired[1]}{" (torn)" if fired[2] else ""}')
            self.node.headers = None
            if fault.get('power'):
                self.power_pending = fault['power']
            else:
                disk.process_death()
        if status == 'oserror' and not (fired and fired[0] in ('err', 'short')) \
                and disk.window is None and disk.fd_limit is None:
            raise Violation('spurious-error', f'{describe(value)} without any fault') from value
        self.last_fired = fired
        return status, value

    def lose_power(self, mode, seed):
        self.node.headers = None
        lost = self.node.disk.power_loss(mode, seed)
        self.ctx.fault(f'power loss ({mode})')
        self.ctx.probe('unsynced things lost', lost)
        return lost

    # -- opening

    def try_open(self, fault=None):
        if self.power_pending:
            mode, seed = self.power_pending
            self.power_pending = None
            self.lose_power(mode, seed)
            self.after_power = True
        try:
            return self.guarded(self.node.open, fault)
        except (Violation, SimCrash):
            raise
        except Exception as e:
            raise Violation('open-failed', f'opening the header file raised {describe(e)}') from e

    after_power = False

    def reopen(self, faults=()):
        '''Open until it works; then find out what the store holds and judge it.'''
        for fault in faults:
            status, _ = self.try_open(fault)
            if status == 'ok':
                break
        else:
            for _ in range(3):
                status, err = self.try_open(None)
                if status == 'ok':
                    break
            else:
                raise Violation('open-failed', f'opening fails without any fault: {err}')
        self.opened_once = True
        self.settle()

    def settle(self):
        '''After an open: decide which of the permitted states the store is in.'''
        node, ref = self.node, self.node.ref
        if self.after_power:
            self.settle_power()
        else:
            n = len(node.headers) - ref.cp_height
            have = len(ref.log)
            if self.inflight is not None and n == have + 1:
                ref.accept(self.inflight)
                self.ctx.probe('in-flight header survived')
            elif self.inflight is not None:
                self.ctx.probe('in-flight header lost')
            check(len(node.headers) == node.count(), 'lost-header' if n < have else
                  'invented-header',
                  lambda: f'{n} headers held after a process death, {have} were accepted'
                  f'{" and one was in flight" if self.inflight else ""}')
            self.learn_sets()
        self.inflight = None
        self.torn_set.clear()
        self.after_power = False
        compare(node, self.rng, self.ctx, sample=40, pairs=20)

    def learn_sets(self):
        '''Heights whose set was interrupted may hold anything; learn what.'''
        node = self.node
        for h in sorted(self.torn_set):
            chain = node.headers.chains()[0]
            try:
                node.ref.below[h] = bytes(node.headers.raw_header_at_height(chain, h))
            except self.bx.MissingHeader:
                node.ref.below.pop(h, None)

    def settle_power(self):
        node, ref = self.node, self.node.ref
        Missing = self.bx.MissingHeader
        held = []
        if self.inflight is not None:
            prev = ref.by_hash.get(self.inflight[4:36])
            if prev is not None and M.dsha(self.inflight) not in ref.by_hash:
                self.ever[M.dsha(self.inflight)] = self.inflight
        for h in ref.log[1:]:
            self.ever[h.hash] = h.raw
        for hsh, raw in self.ever.items():
            try:
                node.headers.lookup(hsh)
                held.append(raw)
            except Missing:
                pass
        n = len(node.headers) - ref.cp_height - 1
        check(n <= len(held), 'invented-header',
              lambda: f'{n} headers held after power loss, only {len(held)} of them were ever '
                      f'accepted')
        check(n >= len(held), 'stored-count',
              lambda: f'{n} headers counted, {len(held)} found')
        held_set = {M.dsha(raw) for raw in held}
        for i, h in enumerate(ref.log[1:self.flushed]):
            check(h.hash in held_set, 'lost-flushed',
                  lambda: f'header {i + 1} @{h.height} was flushed and is lost')
        new = node.fresh_ref()
        for raw in held:
            check(raw[4:36] in new.by_hash, 'unlinked-header',
                  'a held header does not link to a held header')
            new.accept(raw)
        lost = len(ref.log) - 1 - len(held)
        self.ctx.probe('accepted unflushed headers lost', max(lost, 0))
        new.below = {}
        # Heights set and flushed must be intact; others may hold anything that was set
        chain = node.headers.chains()[0]
        for h in sorted(set(ref.below) | set(self.flushed_below) | self.torn_set):
            try:
                got = bytes(node.headers.raw_header_at_height(chain, h))
            except Missing:
                got = None
            if h == ref.cp_height:
                new.below[h] = ref.cp.raw
                continue
            was = self.flushed_below.get(h)
            if was is not None and ref.below.get(h) == was and h not in self.torn_set \
                    and h not in self.dirty_below:
                check(got == was, 'lost-flushed', f'height {h} was set and flushed and is lost')
            if got is not None:
                new.below[h] = got
        node.ref = new
        self.flushed = min(self.flushed, len(new.log))
        self.ever = {h.hash: h.raw for h in new.log[1:]}

    dirty_below = frozenset()

    # -- operations

    def op_mine(self, op):
        self.blocks.build(op)

    def op_bulk(self, op):
        node = self.node
        if node.headers is None:
            return
        p = op['p']
        if p not in self.blocks.info:
            return
        grow = list(op.get('grow', ()))
        for k in range(op['n']):
            i = op['id'] + k
            if self.blocks.build({'id': i, 'p': p, 'ts': op['ts'] + 600 * k}) is None:
                return
            p = i
            # The faults of a bulk operation are for when the file has to grow
            fault = dict(grow[0], but='store') if grow else None
            for _ in range(6):
                if self.connect_block(i, fault) == 'ok':
                    break
                if grow:
                    grow.pop(0)
                    self.ctx.probe('faults while growing a long file', k > 0)
                fault = dict(grow[0], but='store') if grow else None
                if node.headers is None:
                    self.reopen()
                elif node.disk.window is not None:
                    return
            else:
                return
        self.ctx.probe('bulk headers', op['n'])

    def op_trim(self, op):
        '''The process exits, and the unused room at the end of the file is given back.'''
        node = self.node
        if node.headers is None:
            return 'skip'
        size = 8 + 80 * len(node.headers)
        node.stop()
        content = node.disk.get_file(node.path)
        if content is not None and len(content) > size:
            node.disk.put_file(node.path, content[:size])
            self.ctx.probe('trimmed files')
        return 'ok'

    def connect_block(self, i, fault):
        node = self.node
        raw = self.blocks.raw.get(i)
        if raw is None or node.headers is None:
            return 'skip'
        status, value = self.guarded(lambda: node.offer(raw), fault)
        if status == 'ok':
            return 'ok'
        # Interrupted by a fault
        expect = verdict(node.ref, node.rule, raw)
        if status == 'crash':
            if 'accept' in expect:
                self.inflight = raw
            return 'crash'
        self.on_connect_error(raw, expect, value)
        return 'oserror'

    def on_connect_error(self, raw, expect, err):
        '''An OSError came out of connect(): the header is stored or not, nothing between.'''
        node, ref = self.node, self.node.ref
        try:
            n = len(node.headers)
        except Exception as e:
            raise Violation('unusable', f'after {describe(err)}: {describe(e)}') from e
        if 'accept' in expect and n == node.count() + 1:
            ref.accept(raw)
        self.usable(f'after {describe(err)} from connect')

    def usable(self, where):
        '''Previously accepted headers stay readable in the running process.'''
        try:
            compare(self.node, self.rng, self.ctx, sample=12, pairs=4)
        except Violation:
            raise
        except Exception as e:
            raise Violation('unusable', f'{where}: {describe(e)}') from e

    def op_connect(self, op):
        return self.connect_block(op['id'], op.get('fault'))

    def set_bytes(self, op):
        return below(op['h'], op.get('v', 0))

    def op_set(self, op):
        node = self.node
        h = op['h']
        if node.headers is None or not 0 <= h < node.ref.cp_height:
            return 'skip'
        raw = self.set_bytes(op)
        status, value = self.guarded(lambda: node.headers.set_one(h, raw), op.get('fault'))
        if status == 'ok':
            node.ref.below[h] = raw
            self.dirty_below = self.dirty_below | {h}
        elif status == 'crash':
            self.torn_set.add(h)
        else:
            self.usable('after a failed set')
        return status

    def op_flush(self, op):
        node = self.node
        if node.headers is None:
            return 'skip'
        status, value = self.guarded(node.headers.flush, op.get('fault'))
        if status == 'ok':
            inode = node.disk.names.get(node.disk.key(node.path))
            check(inode is not None and inode.unsynced() == 0, 'flush-incomplete',
                  'flush returned but not everything is durable')
            self.flushed = len(node.ref.log)
            self.flushed_below = dict(node.ref.below)
            self.dirty_below = frozenset()
        elif status == 'oserror':
            self.usable('after a failed flush')
        return status

    def op_restart(self, op):
        self.node.stop()
        status, value = self.try_open(op.get('fault'))
        if status == 'ok':
            self.opened_once = True
            self.settle()
        return status

    def op_kill(self, op):
        self.node.stop()
        self.ctx.fault('process death between operations')

    def op_power(self, op):
        self.power_pending = (op['mode'], op['s'])
        self.node.headers = None
        self.node.disk.process_death()

    def op_window(self, op):
        self.node.disk.window = {'kinds': set(op['kinds']), 'errno': op['errno']}

    def op_heal(self, op):
        self.node.disk.window = None

    def run(self):
        for kind, k in sorted(self.cfg.get('net', {}).items()):
            self.ctx.background(kind, k)
        for op in self.plan['ops']:
            self.ctx.step()
            self.ctx.cur_op = op
            self.ctx.sim_seconds = max(self.ctx.sim_seconds, op.get('t', 0))
            if self.node.headers is None and op['op'] not in ('mine', 'restart', 'power', 'kill',
                                                              'heal', 'window', 'fds'):
                self.before_use(op)
            status = getattr(self, 'op_' + op['op'])(op)
            if op['op'] != 'mine':
                self.ctx.log('op', op['op'], status)
        self.finish()

    def before_use(self, op):
        '''The store is not open and something wants to use it.'''
        if self.node.disk.window is not None or self.node.disk.fd_limit is not None:
            status, _ = self.try_open(None)
            if status == 'ok':
                self.settle()
            return
        self.reopen()

    def finish(self):
        self.node.disk.window = None
        if self.node.headers is None:
            self.reopen()
        compare(self.node, self.rng, self.ctx, sample=80)
        # It keeps working: a valid header is accepted, and survives
        self.extend(2)
        self.node.stop()
        self.reopen()
        self.extend(1)
        compare(self.node, self.rng, self.ctx, sample=20, pairs=10)

    def extend(self, n):
        for _ in range(n):
            tip = max(self.node.ref.tips(), key=lambda t: (t.cum, t.hash))
            bits = M.rule_bits(self.cfg['rule'], tip.ts, tip.bits, tip.height + 1, tip.ts + 600)
            raw = M.mine(M.raw_header(2, tip.hash, det_bytes(32, 'ext', self.plan['seed']),
                                      min(tip.ts + 600, 0xffffffff), bits, 0))
            if tip.ts + 600 > 0xffffffff:
                return
            status, value = self.guarded(lambda: self.node.offer(raw), None)
            check(status == 'ok', 'not-working', f'cannot extend the store: {value}')
