'''C09: required difficulty follows the published rules on every branch and clock.'''

import random

from .. import daa
from .. import model as M
from ..core import check, det_bytes
from ..hdrsim import Node, verdict
from ..loader import Installation
from .hdrplan import net_plan, simplify_op  # noqa

ID = 'C09'
RUNS = {'quick': 5000, 'thorough': 25000}
RULE = ('one run = either one branch of a real network around a rule change (a window of headers '
        'with miners\' skewed, jumping and backward clocks, asked for the required bits of many '
        'heights and candidate timestamps), or a simulated network of 1-3 nodes mining a fork-'
        'heavy tree under the real rules of a network with an easy limit, across a rule change; '
        'every answer and every acceptance is compared with an independent implementation of '
        'the published rules; non-trivial: some required bits differ from those of the '
        'predecessor; distinct by digest of the event log')
COMPONENTS = {'real': ['difficulty rules of all four coins', 'Headers', 'Chain',
                       'header storage', 'Coin'],
              'stub': ['disk (simulated, fault-free)', 'network', 'miner clocks',
                       'limit target of the coins in tree runs']}
STATE_MEASURE = 'distinct (network, height, required bits) triples'
MUST_PROBE = ('retarget', 'emergency', 'daa', 'minimum difficulty', 'limit reached',
              'forks', 'wrong bits refused', 'beyond slow boundary', 'at slow boundary',
              'long minimum-difficulty run', 'fortnight that ran backwards', 'deep fork retargeted',
              'exact retarget')
# With twice this the published 144-block rule divides by zero
TREE_LIMIT = 0x203fffff
NETS = tuple(daa.RULES)
MAIN_BITS = (0x1d00ffff, 0x1b0404cb, 0x1802a4b6, 0x18009645, 0x1a05db8b, 0x1c3fffc0, 0x170331db)


def clocked(rng, n, end):
    '''n timestamps ending near end, from miners with bad clocks.'''
    r = rng.random()
    if r < 0.06:
        # clocks that run backwards
        step = rng.choice((1, 10, 600, 30, 1201))
        out = [end + step * (n - 1 - k) + rng.choice((0, 0, rng.randint(-100, 100)))
               for k in range(n)]
        if rng.random() < 0.5:
            out[rng.randrange(n)] += rng.choice((7200, -7200, 200000, -3_000_000))
        return [min(max(x, 1), 0xffffff00) for x in out]
    if r < 0.25:
        # perfectly regular, at the edges of the clamps and of the emergency rule
        step = rng.choice((7200, 7200, 7199, 7201, 600, 300, 299, 1200, 1201, 150, 149, 2400, 2401))
        out = [end - step * (n - 1 - k) for k in range(n)]
        for _ in range(rng.choice((0, 0, 3))):
            k = rng.randrange(n)
            out[k] += rng.choice((-1, 1, 3600, -3600))
        return [min(max(x, 1), 0xffffff00) for x in out]
    spacing = rng.choice((30, 300, 600, 600, 1200, 6000))
    skews = [rng.choice((0, 0, rng.randint(-7200, 7200))) for _ in range(4)]
    jump = rng.choice((0, 0.02, 0.3))
    ties = rng.choice((0, 0, 0.3))
    t = 0
    out = []
    for _ in range(n):
        r = rng.random()
        if r < 0.01:
            spacing = rng.choice((30, 300, 600, 1200, 6000))
        t += int(rng.expovariate(1 / spacing)) if ties == 0 or rng.random() > ties else 0
        s = rng.choice(skews)
        if rng.random() < jump:
            s += rng.randint(-20000, 7200)
        out.append(t + s)
    shift = end - out[-1]
    return [min(max(x + shift, 1), 0xffffff00) for x in out]


def deep(rng, tier):
    '''Two or three branches that part before a fortnight begins and all reach its end.'''
    net = rng.choice(('Bitcoin',) * 5 + ('BitcoinTestnet', 'BitcoinRegtest'))
    k = rng.choice((1, 2, 5, 15, 200))
    h = 2016 * k - rng.choice((1, 2, 3, 10, 60))
    branches = rng.choice((2, 2, 3))
    ops = []
    left = [2016 * (k + 1) - h + rng.choice((2, 4, 30)) for _ in range(branches)]
    while any(left):
        b = rng.choice([i for i in range(branches) if left[i]])
        n = min(left[b], rng.choice((1, 30, 300, 900, 2100)))
        left[b] -= n
        ops.append({'op': 'grow', 'b': b, 'n': n, 'sp': rng.choice((150, 300, 550, 600, 700, 1190,
                                                                    1300, 3000)),
                    'r': rng.getrandbits(30)})
        if rng.random() < 0.3:
            ops.append({'op': 'query', 'n': 0, 'r': rng.getrandbits(30)})
    cfg = {'mode': 'deep', 'net': net, 'h': h, 'depth': min(h, 2018), 'nodes': 1,
           'regime': rng.choice(('const', 'const', 'steps')), 'clock': rng.getrandbits(40),
           'apart': rng.choice((0, 0, 1, 5)), 'netfaults': {}}
    return {'cfg': cfg, 'ops': ops}


def generate(rng, tier, index):
    if index % 150 == 41:
        return deep(rng, tier)
    net = rng.choice(NETS + ('Bitcoin', 'BitcoinTestnet'))
    edge = rng.choice(daa.EDGES[net])
    if net == 'Bitcoin' and rng.random() < 0.3:
        edge = rng.randint(478558, 504000)
    if rng.random() < 0.5:
        # one branch
        h = edge + rng.choice((0, 0, 1, 2, rng.randint(0, 200)))
        depth = min(h, 2018 if rng.random() < 0.5 or h % 2016 == 0 else 170)
        ops = []
        if h % 2016 > 1990 or rng.random() < 0.2:
            depth = min(h, 2018)
        for _ in range(rng.choice((4, 12, 30))):
            ops.append({'op': 'ask', 'h': h - rng.choice((0, 0, 0, 1, 2, rng.randrange(depth))),
                        'dt': rng.choice((600, 1199, 1200, 1201, 0, -1, -5000, 7200, 100000,
                                          rng.randint(-9000, 9000)))})
        cfg = {'mode': 'line', 'net': net, 'h': h, 'depth': depth,
               'regime': rng.choice(('const', 'steps', 'wild', 'special', 'special', 'long')),
               'clock': rng.getrandbits(40)}
        if rng.random() < 0.25:
            exactly(rng, cfg, ops)
        return {'cfg': cfg, 'ops': ops}
    h = max(1, edge - rng.choice((0, 1, 2, 5, 20)))
    need = 2016 + 2 if h % 2016 > 2016 - 80 or h % 2016 == 0 or rng.random() < 0.2 else 175
    nodes = rng.choice((1, 1, 2, 3))
    over = {'fork': rng.choice((0.05, 0.2, 0.5)), 'bad': rng.choice((0, 0.15)), 'corrupt': 0,
            'spacing': rng.choice((30.0, 300.0, 600.0, 600.0, 2000.0, 9000.0)),
            'jump': rng.choice((0, 0.05, 0.5))}
    ops, net_ = net_plan(rng, nodes, rng.choice((5, 20, 50, 80 if tier == 'quick' else 160)),
                         **over)
    n = len(ops)
    for _ in range(rng.choice((2, 6, 15))):
        ops.insert(rng.randint(0, n), {'op': 'query', 'n': rng.randrange(nodes),
                                       'r': rng.getrandbits(30)})
    cfg = {'mode': 'tree', 'net': net, 'h': h, 'depth': min(h, need), 'nodes': nodes,
           'regime': rng.choice(('const', 'steps', 'wild', 'special')),
           'clock': rng.getrandbits(40), 'netfaults': net_.faults}
    return {'cfg': cfg, 'ops': ops}


def exactly(rng, cfg, ops):
    '''A retarget whose exact result just fits the compact form, so that any loss of precision
    shows.'''
    h = (cfg['h'] + 1) // 2016 * 2016 - 1
    if h < 2015 or not (cfg['net'] != 'Bitcoin' or h < 504031):
        return
    cfg.update(h=h, depth=min(h, 2018))
    d = rng.choice((3, 5, 7, 9, 15, 21, 25, 27, 35, 45, 49, 63, 75, 105, 175, 189, 525, 4725))
    d = d if 1209600 % d == 0 else 7
    n = rng.randint(d // 4 + 1, 4 * d - 1)
    low, high = 0x8000 // d + 1, 0x7fffff // max(n, d)
    m = rng.randint(low, high)
    size = rng.choice((0x18, 0x1a, 0x1b, 0x17))
    cfg['exact'] = [1209600 // d * n, size << 24 | m * d]
    for op in ops[::2]:
        op['h'] = h


def window(cfg, limit):
    '''Raw headers of heights h-depth .. h, and (ts, bits) of each.'''
    rng = random.Random(cfg['clock'])
    n = cfg['depth'] + 1
    stamps = clocked(rng, n, 1_500_000_000)
    pool = MAIN_BITS if limit == daa.LIMIT else (0x203fffff, 0x203fffff, 0x201fffff, 0x2007ffff,
                                                 0x1f7fffff, 0x202ccccc)
    exact = cfg.get('exact')
    if exact:
        # The last fortnight took just so long
        stamps[-1] = stamps[-2016] + exact[0]
    regime = cfg['regime']
    cur = rng.choice(pool)
    # The heights of each fortnight that are not mined at minimum difficulty
    real = {0, rng.randrange(2016)} if regime == 'long' else ()
    info = {}
    raws = {}
    for k, h in enumerate(range(cfg['h'] - cfg['depth'], cfg['h'] + 1)):
        if regime == 'steps' and (h % 2016 == 0 or rng.random() < 0.02):
            cur = rng.choice(pool)
        elif regime == 'wild':
            cur = rng.choice(pool)
        bits = cur
        if regime == 'special' and rng.random() < 0.6:
            bits = limit
        elif regime == 'long' and h % 2016 not in real:
            bits = limit
        if exact and h == cfg['h']:
            bits = exact[1]
        raw = M.raw_header(1, det_bytes(32, 'p', h), det_bytes(32, 'm', cfg['clock'], h),
                           stamps[k], bits, h & 0xffff)
        raws[h] = raw
        info[h] = (stamps[k], bits)
    return raws, info


def execute(plan, ctx):
    cfg = plan['cfg']
    if cfg['mode'] == 'line':
        line(plan, cfg, ctx)
    else:
        tree(plan, cfg, ctx)


class NotEnough(Exception):
    pass


def getter(info):
    def get(h):
        if h not in info:
            raise NotEnough
        return info[h]
    return get


def note(ctx, net, rule, h, bits, prev_bits, limit):
    ctx.state(net, h, bits)
    if bits != prev_bits:
        ctx.nontrivial = True
    if bits == limit:
        ctx.probe('limit reached')
    if h % 2016 == 0:
        ctx.probe('retarget')


def line(plan, cfg, ctx):
    bx = Installation().bx
    net = cfg['net']
    coin = getattr(bx, net)
    rule = daa.RULES[net]
    raws, info = window(cfg, daa.LIMIT)
    top = cfg['h']
    cp = bx.CheckPoint(raws[top], top, 12345)
    node = Node('n0', bx, coin, cp, None, ctx).start()
    node.disk.quiet = True
    for h in range(top - cfg['depth'], top):
        node.headers.set_one(h, raws[h])
    chain = node.headers.longest_chain()
    get = getter(info)
    ctx.fault('skewed miner clocks')
    for op in plan['ops']:
        ctx.step()
        h = op['h'] + 1
        if h - 1 not in info or h < 2:
            continue
        ts = min(max(info[h - 1][0] + op['dt'], 1), 0xffffffff)
        try:
            want = rule(get, h, ts)
        except NotEnough:
            continue
        got = coin.required_bits(node.headers, chain, h, ts)
        again = node.headers.required_bits(chain, h, ts)
        ctx.log('bits', h, got)
        low = h - 1
        while low in info and low % 2016 and info[low][1] == daa.LIMIT:
            low -= 1
        if h - low > 1000 and 'testnet' in net.lower() and want != daa.LIMIT:
            ctx.probe('long minimum-difficulty run')
        if h % 2016 == 0 and h - 2016 in info and info[h - 1][0] < info[h - 2016][0]:
            ctx.probe('fortnight that ran backwards')
        if cfg.get('exact') and h == top + 1:
            ctx.probe('exact retarget')
        check(got == want, 'wrong-bits',
              lambda: f'{net} height {h} timestamp {ts} (previous {info[h - 1]}): required bits '
                      f'{got:#x}, the rules say {want:#x}')
        check(again == want, 'wrong-bits', lambda: f'Headers.required_bits gives {again:#x}')
        note(ctx, net, rule, h, want, info[h - 1][1], daa.LIMIT)
        if net == 'Bitcoin' and 478558 <= h <= 504031 and h % 2016 and want != info[h - 1][1]:
            ctx.probe('emergency')
        if op['dt'] == 1200:
            ctx.probe('at slow boundary')
        if op['dt'] == 1201:
            ctx.probe('beyond slow boundary')
            if want == daa.LIMIT:
                ctx.probe('minimum difficulty')


class Tree:
    '''Builds the blocks of a plan under a real rule with an easy limit.'''

    def __init__(self, plan, cfg):
        self.cfg = cfg
        self.seed = plan['seed']
        self.rule = daa.RULES[cfg['net']]
        self.limit = TREE_LIMIT
        self.raws, self.window = window(cfg, self.limit)
        self.h = cfg['h']
        self.raw = {0: self.raws[self.h]}
        self.info = {0: M.Hdr(self.raws[self.h], self.h, None, 777)}

    def getter(self, tip):
        path = {}
        cursor = [tip]

        def get(h):
            if h <= self.h:
                if h not in self.window:
                    raise NotEnough
                return self.window[h]
            while h not in path:
                x = cursor[0]
                path[x.height] = (x.ts, x.bits)
                cursor[0] = x.parent
            return path[h]
        return get

    def required(self, parent, ts, height=None):
        return self.rule(self.getter(parent), parent.height + 1 if height is None else height,
                         ts, self.limit)

    def build(self, op):
        i, p = op['id'], op['p']
        parent = self.info.get(p)
        if parent is None or i in self.raw:
            return None
        ts = op['ts']
        try:
            bits = self.required(parent, ts)
        except NotEnough:
            return None
        if M.work_of(bits) > 3000:
            # Too hard to mine here: the miner waits until it is easy
            return None
        kind = op.get('kind', 'ok')
        wrong = False
        if kind in ('badbits', 'badboth', 'weirdbits'):
            alts = [parent.bits, self.limit, 0x201fffff, self.window[self.h][1], bits + 1]
            alts = [b for b in alts if b != bits and M.work_of(b) <= 3000]
            bits, wrong = alts[i % len(alts)], True
        raw = M.mine(M.raw_header(2, parent.hash, det_bytes(32, self.seed, i), ts, bits, 0))
        self.raw[i] = raw
        if not wrong:
            self.info[i] = M.Hdr(raw, parent.height + 1, parent, parent.cum)
        return raw


def tree(plan, cfg, ctx):
    bx = Installation().bx
    for kind, k in sorted(cfg['netfaults'].items()):
        ctx.background(kind, k)
    t = Tree(plan, cfg)
    base = getattr(bx, cfg['net'])
    genesis = M.raw_header(1, bytes(32), bytes(32), 1_200_000_000, TREE_LIMIT, 0)
    coin = M.make_coin(bx, 'Easy ' + cfg['net'], genesis, base.required_bits)
    cp = bx.CheckPoint(t.raws[t.h], t.h, 777)
    by_hash = {}

    def rule(ref, prev, ts):
        if prev.height == t.h:
            return t.required(t.info[0], ts)
        return t.required(by_hash[prev.hash], ts)

    nodes = []
    for i in range(cfg['nodes']):
        node = Node(f'n{i}', bx, coin, cp, rule, ctx).start()
        node.disk.quiet = True
        for h in range(t.h - cfg['depth'], t.h):
            node.headers.set_one(h, t.raws[h])
            node.ref.below[h] = t.raws[h]
        nodes.append(node)
    rng = random.Random(plan['seed'])
    for op in plan['ops']:
        ctx.step()
        if op['op'] == 'mine':
            if t.build(op) is not None and op['id'] in t.info:
                x = t.info[op['id']]
                by_hash[x.hash] = x
            continue
        node = nodes[0 if op['op'] == 'grow' else op['n']]
        if op['op'] == 'grow':
            grow(op, node, t, by_hash, rule, ctx)
            continue
        if op['op'] == 'query':
            query(node, t, by_hash, random.Random(op['r']), ctx)
            continue
        raw = t.raw.get(op['id'])
        if raw is None or op['id'] == 0:
            continue
        ctx.sim_seconds = max(ctx.sim_seconds, op.get('t', 0))
        try:
            if 'accept' not in verdict(node.ref, rule, raw):
                outcome = node.offer(raw)
                if outcome == 'IncorrectBits':
                    ctx.probe('wrong bits refused')
                continue
            node.offer(raw)
        except NotEnough:
            continue
        x = node.ref.by_hash[M.dsha(raw)]
        note(ctx, cfg['net'], t.rule, x.height, x.bits, x.parent.bits, t.limit)
        if x.height > {'Bitcoin': 504031, 'BitcoinScalingTestnet': 2200}.get(cfg['net'], 1188697):
            ctx.probe('daa')
    for node in nodes:
        ctx.probe('forks', len(node.ref.branches) - 1)
        query(node, t, by_hash, rng, ctx)


def grow(op, node, t, by_hash, rule, ctx):
    '''Mine op['n'] headers on branch op['b'].'''
    rng = random.Random(op['r'])
    tips = t.__dict__.setdefault('tips', {})
    b = op['b']
    if b not in tips:
        # Branch from the first few headers of the first branch
        tip = tips.get(0, 0)
        x = t.info[tip]
        while b and x.height > t.h + t.cfg['apart']:
            tip, x = tip - 1, x.parent
        tips[b] = tip if b else 0
    for _ in range(op['n']):
        ctx.step()
        parent = t.info[tips[b]]
        i = (b << 20) + parent.height - t.h + 1 if b else tips[b] + 1
        gap = max(-5000, int(rng.gauss(op['sp'], op['sp'] / 3)))
        ts = min(max(parent.ts + gap, 1), 0xffffff00)
        if t.build({'id': i, 'p': tips[b], 'ts': ts}) is None:
            return
        x = t.info[i]
        by_hash[x.hash] = x
        outcome = node.offer(x.raw)
        tips[b] = i
        if x.height % 2016 == 0 and x.height > t.h + 2000:
            if 'accept' in outcome:
                ctx.probe('deep fork retargeted')
        note(ctx, t.cfg['net'], t.rule, x.height, x.bits, x.parent.bits, t.limit)


def query(node, t, by_hash, rng, ctx):
    for _ in range(4):
        b = rng.choice(node.ref.branches)
        chain = next(c for c in node.headers.chains() if c.tip.hash == b.tip.hash)
        h = rng.choice((b.tip.height, rng.randint(t.h, b.tip.height)))
        prev = node.ref.node_at(b, h)
        if prev is None:
            continue
        parent = by_hash.get(prev.hash, t.info[0])
        ts = max(1, prev.ts + rng.choice((600, 1200, 1201, -100, 0, 90000, rng.randint(-999, 9999))))
        try:
            want = t.required(parent, ts)
        except NotEnough:
            continue
        got = node.headers.required_bits(chain, h + 1, ts)
        check(got == want, 'wrong-bits',
              lambda: f'{t.cfg["net"]} height {h + 1} timestamp {ts} on a branch: required bits '
                      f'{got:#x}, the rules say {want:#x}')
        ctx.log('bits', h + 1, got)
        note(ctx, t.cfg['net'], t.rule, h + 1, want, prev.bits, t.limit)
