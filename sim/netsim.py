'''Discrete-event network simulation, used to generate delivery schedules.

The generator simulates miners with skewed clocks, gossip links with delay, loss,
duplication, reordering, partitions and corruption, and peers that ask for missing
parents.  Which blocks a node has accepted is tracked symbolically; the result is a flat,
time-ordered list of operations that does not depend on any state and so can be shrunk and
replayed.
'''

import heapq

BAD_KINDS = ('badbits', 'badpow', 'orphan', 'weirdbits', 'badboth')


class Net:

    def __init__(self, rng, nodes, params):
        self.rng = rng
        self.p = params
        self.nodes = nodes
        self.now = 0.0
        self.seq = 0
        self.q = []
        self.ops = []
        self.blocks = {0: dict(parent=None, height=0, valid=True, ts=1_500_000_000)}
        self.have = [{0} for _ in range(nodes)]
        self.tips = [{0: 0} for _ in range(nodes)]   # id -> height
        self.skew = [rng.choice((0, 0, rng.randint(-7200, 7200))) for _ in range(nodes)]
        self.cut = None
        self.next_id = 1
        self.faults = {}

    def after(self, dt, fn, *args):
        self.seq += 1
        heapq.heappush(self.q, (self.now + dt, self.seq, fn, args))

    def count(self, kind):
        self.faults[kind] = self.faults.get(kind, 0) + 1

    def delay(self):
        r = self.rng
        d = r.expovariate(1 / self.p.get('latency', 2.0))
        if r.random() < self.p.get('stall', 0.02):
            self.count('stalled delivery')
            d += r.uniform(60, 2000)
        return d

    def reachable(self, a, b):
        return self.cut is None or (a in self.cut) == (b in self.cut)

    def send(self, a, b, block, depth=0):
        r, p = self.rng, self.p
        if a is not None and not self.reachable(a, b):
            self.count('message cut by partition')
            return
        if r.random() < p.get('loss', 0):
            self.count('message lost')
            return
        mut = None
        if r.random() < p.get('corrupt', 0):
            self.count('message corrupted')
            mut = [r.randrange(80), 1 << r.randrange(8)]
            if r.random() < 0.1:
                mut = [r.choice((0, 1, 40, 79, 81, 160)), 0]
        self.after(self.delay(), self.deliver, a, b, block, mut, depth)
        if r.random() < p.get('dup', 0):
            self.count('message duplicated')
            self.after(self.delay() * 2, self.deliver, a, b, block, None, depth)

    def deliver(self, a, b, block, mut, depth):
        op = {'op': 'recv', 'n': b, 'id': block, 't': round(self.now, 1)}
        if mut:
            op['mut'] = mut
        self.ops.append(op)
        if mut:
            return
        info = self.blocks[block]
        if not info['valid'] or block in self.have[b]:
            return
        if info['parent'] not in self.have[b]:
            self.count('out-of-order delivery')
            # ask the sender for the parent, then for this block again
            if a is not None and depth < 12 and self.rng.random() < 0.8:
                self.send(a, b, info['parent'], depth + 1)
                self.after(self.delay() * 3, self.deliver, a, b, block, None, depth + 1)
            return
        self.have[b].add(block)
        tips = self.tips[b]
        tips.pop(info['parent'], None)
        tips[block] = info['height']
        if self.rng.random() < self.p.get('relay', 0.7):
            for c in range(self.nodes):
                if c != b and c != a:
                    self.send(b, c, block)

    def mine_at(self, n):
        r, p = self.rng, self.p
        tips = self.tips[n]
        if r.random() < p.get('fork', 0.1):
            # build on an older block
            pool = sorted(self.have[n])
            parent = r.choice(pool[-p.get('depth', 12):])
        else:
            best = max(tips.values())
            parent = r.choice(sorted(t for t in tips if tips[t] == best))
        kind = 'ok'
        if r.random() < p.get('bad', 0):
            kind = r.choice(BAD_KINDS)
        self.add(n, parent, kind)

    def clock(self, n):
        r = self.rng
        if r.random() < self.p.get('jump', 0.05):
            self.count('clock jump')
            self.skew[n] = r.choice((0, r.randint(-100000, 100000), r.randint(-3600, 3600)))
        return max(1, min(1_500_000_000 + int(self.now) + self.skew[n], 0xffffffff))

    def add(self, n, parent, kind):
        i = self.next_id
        self.next_id += 1
        ts = self.clock(n)
        pinfo = self.blocks[parent]
        self.blocks[i] = dict(parent=parent, height=pinfo['height'] + 1,
                              valid=kind == 'ok' and pinfo['valid'], ts=ts)
        op = {'op': 'mine', 'id': i, 'p': parent, 'ts': ts}
        if kind != 'ok':
            op['kind'] = kind
        self.ops.append(op)
        self.deliver(None, n, i, None, 0)
        for c in range(self.nodes):
            if c != n:
                self.send(n, c, i)
        return i

    def run(self, blocks, on_event=None):
        r, p = self.rng, self.p
        # mining events
        t = 0.0
        for _ in range(blocks):
            t += r.expovariate(1 / p.get('spacing', 30.0))
            self.seq += 1
            heapq.heappush(self.q, (t, self.seq, lambda: self.mine_at(r.randrange(self.nodes)),
                                    ()))
        for _ in range(p.get('partitions', 0)):
            start = r.uniform(0, t)
            size = r.uniform(0.05, 0.4) * t
            side = frozenset(k for k in range(self.nodes) if r.random() < 0.5)
            heapq.heappush(self.q, (start, -2 * self.seq - 1, self.set_cut, (side,)))
            heapq.heappush(self.q, (start + size, -2 * self.seq, self.set_cut, (None,)))
            self.seq += 1
        for _ in range(p.get('replays', 0)):
            # a peer replays something old
            heapq.heappush(self.q, (r.uniform(0, t), -10**6 - self.seq, self.replay_old, ()))
            self.seq += 1
        n = 0
        while self.q and n < p.get('max_events', 4000):
            n += 1
            self.now, _, fn, args = heapq.heappop(self.q)
            fn(*args)
            if on_event:
                on_event(self)
        return self.ops

    def set_cut(self, side):
        if side is not None:
            self.count('partition')
        self.cut = side

    def replay_old(self):
        self.count('old message replayed')
        r = self.rng
        self.deliver(None, r.randrange(self.nodes), r.choice(sorted(self.blocks)), None, 0)


def random_params(rng, nodes):
    '''Swarm style: every run has its own mix.'''
    c = rng.choice
    return {
        'latency': c((0.5, 2.0, 10.0, 60.0)),
        'stall': c((0, 0.02, 0.1)),
        'loss': c((0, 0, 0.05, 0.3)),
        'dup': c((0, 0.1, 0.5)),
        'corrupt': c((0, 0, 0.05, 0.2)),
        'relay': c((0.3, 0.7, 1.0)),
        'fork': c((0, 0.05, 0.2, 0.6)),
        'depth': c((2, 6, 20, 200)),
        'bad': c((0, 0.1, 0.3)),
        'jump': c((0, 0.05, 0.5)),
        'spacing': c((5.0, 30.0, 600.0)),
        'partitions': c((0, 0, 1, 2)) if nodes > 1 else 0,
        'replays': c((0, 2, 10)),
    }
