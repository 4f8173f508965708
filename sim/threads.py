'''Deterministic threads: one runs at a time, and a seeded scheduler decides at every byte-code
instruction of the library, at every simulated I/O and at every lock who runs next.

The threads are real ones (so thread-local state is real); each waits for its baton.
'''

import _thread
import dis
import random
import sys
import threading

from . import loader
from .core import Violation
from .seam import WORLD

MON = sys.monitoring
TOOL = 3
_allocate = _thread.allocate_lock
_ACTIVE = [None]
_instrumented = set()
_HOT_OPS = frozenset(n for n, name in enumerate(dis.opname) if name.startswith((
    'STORE_ATTR', 'STORE_GLOBAL', 'STORE_SUBSCR', 'STORE_NAME', 'STORE_DEREF', 'STORE_SLICE',
    'DELETE_ATTR', 'DELETE_GLOBAL', 'DELETE_SUBSCR', 'DELETE_NAME')))
_CALL_OPS = frozenset(n for n, name in enumerate(dis.opname) if name.startswith('CALL'))
_hot = {}


class Abandon(BaseException):
    '''Unwinds the threads of a run that is over.'''


class Interrupt(BaseException):
    '''An asynchronous exception delivered to a thread in the middle of a call.'''


def _hot_offsets(code):
    '''Offsets at, or just after, an instruction storing into something shared, or after a
    call.'''
    stores, calls = set(), set()
    prev = None
    for ins in dis.get_instructions(code):
        if ins.opcode in _HOT_OPS:
            stores.add(ins.offset)
        if prev in _HOT_OPS:
            stores.add(ins.offset)
        if prev in _CALL_OPS:
            calls.add(ins.offset)
        prev = ins.opcode
    return stores, calls


def _instrument(code):
    if code in _instrumented:
        return
    _instrumented.add(code)
    _hot[code] = _hot_offsets(code)
    MON.set_local_events(TOOL, code, MON.events.INSTRUCTION)
    for const in code.co_consts:
        if hasattr(const, 'co_code'):
            _instrument(const)


def instrument():
    '''Call after loading an installation.'''
    if MON.get_tool(TOOL) is None:
        MON.use_tool_id(TOOL, 'scheduler')
        MON.register_callback(TOOL, MON.events.INSTRUCTION, _instruction)
    for name, code in sorted(loader._code_cache.items()):
        for const in code.co_consts:
            if hasattr(const, 'co_code'):
                _instrument(const)


def _instruction(code, offset):
    sched = _ACTIVE[0]
    if sched is not None:
        sched.point(code, offset)


class Thread:
    def __init__(self, i, body):
        self.i = i
        self.body = body
        self.baton = _allocate()
        self.baton.acquire()
        self.done = False
        self.waits = None        # the lock it waits for
        self.call = None         # id of the call it makes
        self.points = 0
        self.doomed = None       # the call to interrupt
        self.held = 0            # locks held
        self.where = ('start', 0)


class Scheduler:
    '''policy: {'kind': ..., 'seed': ...} or {'kind': 'explicit'} with switches and interrupts
    given as [thread, call, point, to].'''

    LIMIT = 4_000_000

    def __init__(self, policy, ctx, switches=(), interrupts=()):
        self.policy = policy
        self.kind = policy['kind']
        self.ctx = ctx
        self.rng = random.Random(policy.get('seed', 0))
        self.explicit = {(t, c, at): to for t, c, at, to in switches}
        self.interrupts = {(t, c, at) for t, c, at in interrupts}
        self.recorded = []
        self.threads = []
        self.cur = None
        self.total = 0
        self.failure = None
        self.over = False
        self.finished = _allocate()
        self.finished.acquire()
        self.places = set()
        self.skip = 0
        self.most = policy.get('max', self.LIMIT)
        self.countdown = policy.get('start', 0) + self._next()
        if self.kind == 'pct':
            self.changes = set(self.rng.randrange(policy['span'])
                               for _ in range(policy['depth']))
            self.prio = None

    def _next(self):
        # Long runs are preempted less and less often
        return self._gap() << len(self.recorded) // 1500

    def _gap(self):
        if self.kind == 'walk':
            p = self.policy['p']
            return 1 + int(self.rng.expovariate(p)) if p < 1 else 1
        if self.kind == 'lockstep':
            return self.policy['n']
        return 0

    def run(self, bodies):
        self.threads = [Thread(i, b) for i, b in enumerate(bodies)]
        if self.kind == 'pct':
            self.prio = list(range(len(bodies)))
            self.rng.shuffle(self.prio)
        _ACTIVE[0] = self
        WORLD.yield_point = self.io_point
        self.cur = self.threads[0]
        try:
            for t in self.threads:
                _thread.start_new_thread(self._main, (t,))
            self.cur.baton.release()
            self.finished.acquire()
        except BaseException:
            self._abandon()
            raise
        finally:
            _ACTIVE[0] = None
            WORLD.yield_point = None
        if self.failure is not None:
            raise self.failure

    def _main(self, t):
        t.baton.acquire()
        try:
            if not self.over:
                t.body(t)
        except Abandon:
            pass
        except BaseException as e:
            if self.failure is None:
                self.failure = e
        t.done = True
        self._leave(t)

    def _leave(self, t):
        if self.failure is not None:
            self._abandon()
        if self.over:
            if all(x.done for x in self.threads) and self.finished.locked():
                try:
                    self.finished.release()
                except RuntimeError:
                    pass
            return
        nxt = self._runnable()
        if nxt is None:
            if not all(x.done for x in self.threads):
                waits = [(x.i, x.call) for x in self.threads if not x.done]
                self.failure = Violation('deadlock', f'threads (and their calls) {waits} wait '
                                                     f'for each other')
                self._abandon()
                return
            self.finished.release()
            return
        self.cur = nxt
        nxt.baton.release()

    def _abandon(self):
        if not self.over:
            self.over = True
            for x in self.threads:
                if not x.done and x.baton.locked():
                    try:
                        x.baton.release()
                    except RuntimeError:
                        pass

    def _runnable(self):
        for x in self.threads:
            if not x.done and x.waits is None:
                return x
        return None

    # -- points

    def io_point(self, what):
        if self.cur is not None and _ACTIVE[0] is self:
            self._point(None, what, 'io')

    def point(self, code, offset):
        self._point(code, offset, None)

    def _point(self, code, offset, special):
        if self.over:
            raise Abandon
        t = self.cur
        if t.call is None:
            return
        t.points += 1
        self.total += 1
        if self.total > self.LIMIT:
            self.failure = Violation('no-progress', 'the threads do not come to an end')
            raise Abandon
        if (t.i, t.call, t.points) in self.interrupts:
            self.interrupts.discard((t.i, t.call, t.points))
            t.doomed = t.call
        # Not between a lock's acquisition and release, where even a with-statement has an
        # instruction that cannot bear it
        if t.doomed == t.call and not t.held:
            t.doomed = None
            self.ctx.fault('interrupted call')
            raise Interrupt('simulated')
        kind = self.kind
        to = None
        if len(self.recorded) >= self.most:
            return
        if kind == 'explicit':
            to = self.explicit.get((t.i, t.call, t.points))
        elif kind == 'walk' or kind == 'lockstep':
            self.countdown -= 1
            if self.countdown <= 0 or special and self.rng.random() < 0.5:
                self.countdown = self._next()
                to = self._pick(t)
        elif kind == 'hot':
            if special:
                if self.rng.random() < 0.5:
                    to = self._pick(t)
            else:
                stores, calls = _hot[code]
                if self.skip > 0:
                    self.skip -= 1
                elif offset in stores:
                    if self.rng.random() < self.policy['p']:
                        to = self._pick(t)
                elif offset in calls and self.rng.random() < self.policy['q']:
                    to = self._pick(t)
        elif kind == 'pct':
            if self.total in self.changes:
                self.prio[t.i] = -self.total
                best = max((x for x in self.threads if not x.done and x.waits is None),
                           key=lambda x: self.prio[x.i])
                to = best.i
        if to is None or to == t.i:
            return
        if to < len(self.threads):
            x = self.threads[to]
            if not x.done and x.waits is None:
                t.where = (code.co_qualname if code else special, offset)
                self.switch(t, x)

    def _pick(self, t):
        others = [x.i for x in self.threads if x is not t and not x.done and x.waits is None]
        if not others:
            return None
        if self.kind == 'lockstep':
            later = [i for i in others if i > t.i]
            return later[0] if later else others[0]
        return self.rng.choice(others)

    def switch(self, t, x):
        self.recorded.append([t.i, t.call, t.points, x.i])
        if len(self.recorded) > 1500:
            self.skip = 1 << len(self.recorded) // 500
        self.ctx.log('switch', t.i, t.call, t.points, x.i)
        self.places.add((t.where, x.where[0]))
        self.cur = x
        x.baton.release()
        t.baton.acquire()
        if self.over:
            raise Abandon

    def wait(self, lock):
        '''The running thread cannot go on until lock is released.'''
        t = self.cur
        t.waits = lock
        x = self._runnable()
        if x is None:
            waits = [(y.i, y.call) for y in self.threads if not y.done]
            self.failure = Violation('deadlock', f'threads (and their calls) {waits} wait for '
                                                 f'each other')
            raise Abandon
        self.ctx.log('wait', t.i, t.call, t.points, x.i)
        self.cur = x
        x.baton.release()
        t.baton.acquire()
        if self.over:
            raise Abandon

    def released(self, lock):
        for x in self.threads:
            if x.waits is lock:
                x.waits = None


class SimLock:
    '''Stands for the locks of the threading module in code under the scheduler.'''

    def __init__(self, reentrant=False):
        self._reentrant = reentrant
        self._owner = None
        self._count = 0

    def _me(self):
        sched = _ACTIVE[0]
        return sched.cur if sched is not None else 'outside'

    def acquire(self, blocking=True, timeout=-1):
        sched = _ACTIVE[0]
        if sched is not None:
            sched.io_point('lock')
        while True:
            me = self._me()
            if self._count == 0:
                self._owner, self._count = me, 1
                if sched is not None:
                    me.held += 1
                return True
            if self._reentrant and self._owner is me:
                self._count += 1
                return True
            if not blocking or timeout is not None and timeout >= 0:
                return False
            if sched is None:
                raise Violation('deadlock', 'a lock left locked is waited for')
            sched.wait(self)

    def release(self):
        if self._count == 0 or self._reentrant and self._owner is not self._me():
            raise RuntimeError('release unlocked lock')
        self._count -= 1
        if self._count == 0:
            if isinstance(self._owner, Thread):
                self._owner.held -= 1
            self._owner = None
            sched = _ACTIVE[0]
            if sched is not None:
                sched.released(self)
                if not sched.over:
                    sched.io_point('unlock')

    def locked(self):
        return self._count > 0

    __enter__ = acquire

    def __exit__(self, *exc):
        self.release()

    # what Condition needs of a reentrant lock
    def _is_owned(self):
        return self._count > 0 and self._owner is self._me()

    def _release_save(self):
        state = self._count
        self._count = 1
        self.release()
        return state

    def _acquire_restore(self, state):
        self.acquire()
        self._count = state

    def _at_fork_reinit(self):
        self._owner, self._count = None, 0


class locks:
    '''While it lasts, locks made by library code are simulated ones.'''

    NAMES = ('Lock', 'RLock', '_allocate_lock', '_CRLock', '_PyRLock')

    def __enter__(self):
        self.saved = {n: getattr(threading, n) for n in self.NAMES if hasattr(threading, n)}
        self.low = _thread.allocate_lock, _thread.RLock
        threading.Lock = threading._allocate_lock = SimLock
        threading.RLock = lambda: SimLock(True)

    def __exit__(self, *exc):
        for n, v in self.saved.items():
            setattr(threading, n, v)
