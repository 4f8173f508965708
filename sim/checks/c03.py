'''C03: chain work is exact, and nodes with the same headers agree on the best chain.'''

import random

from .. import model as M
from ..core import check, det_bytes
from ..hdrsim import Blocks, Node, compare
from ..loader import Installation
from .hdrplan import cfg_for, long_plan, net_plan, run_blocks, simplify_cfg, simplify_op  # noqa

ID = 'C03'
RUNS = {'quick': 6000, 'thorough': 40000}
RULE = ('one run = one simulated network of 2-5 nodes with the real header store under delay, '
        'loss, duplication, reordering, partitions and restarts, then fair delivery of every '
        'block in a different order to each node; work and tips are compared with the reference '
        'during the run and between nodes at the end; non-trivial: at least one fork; distinct '
        'by digest of the event log')
COMPONENTS = {'real': ['Headers', 'Chain', 'header storage', 'Coin', 'work', 'hashes'],
              'stub': ['disk (simulated, fault-free)', 'network', 'clock',
                       'difficulty rule of the simulated coin (five families)']}
STATE_MEASURE = 'distinct (headers stored, branches, best work) of compared stores'
MUST_PROBE = ('forks', 'restarts', 'unique best', 'tied best', 'reorganisations', 'ranges below',
              'longer branches with less work', 'long branches')

# Difficulties a header below the checkpoint, or the checkpoint, may have
BITS = (0x1d00ffff, 0x1b0404cb, 0x1802a4b6, 0x18009645, 0x1a05db8b, 0x207fffff, 0x03123456,
        0x170331db, 0x20008000, 0x2100ffff, 0x0c008000, 0x1f7fffff)


def uneven(rng):
    '''A long branch of slow (easy) blocks against a short branch of fast (hard) blocks.'''
    cfg = cfg_for(rng)
    cfg.update(rule='slow', nodes=2, net={'reordering': 1})
    easy = rng.choice((12, 150, 260, 700))
    hard = max(1, easy // 3 + rng.choice((-8, -2, -1, 0, 1, 2, 3, 8)))
    mines, ids, t = [], {}, 1_500_000_000
    for name, n, step, base in (('easy', easy, 1300, 1), ('hard', hard, 500, 10_000)):
        ids[name] = [base + k for k in range(n)]
        mines += [{'op': 'mine', 'id': base + k, 'p': base + k - 1 if k else 0,
                   'ts': t + step * (k + 1)} for k in range(n)]
    ops = list(mines)
    for node in range(2):
        left = {name: list(reversed(x)) for name, x in ids.items()}
        weight = rng.choice((0.1, 0.5, 0.9))
        while any(left.values()):
            name = 'easy' if rng.random() < weight else 'hard'
            if left[name]:
                ops.append({'op': 'recv', 'n': node, 'id': left[name].pop(), 't': 0})
        ops.append({'op': 'restart', 'n': node})
    return {'cfg': cfg, 'ops': ops}


def long(rng):
    plan = long_plan(rng, rng.choice((1, 2)))
    cfg, ops = plan['cfg'], plan['ops']
    for n in range(cfg['nodes']):
        for _ in range(rng.choice((1, 2))):
            ops.insert(rng.randint(1, len(ops)), {'op': 'restart', 'n': n})
        for _ in range(rng.choice((2, 6))):
            ops.insert(rng.randint(1, len(ops)),
                       {'op': 'ask', 'n': n, 'r': rng.getrandbits(30)})
    return plan


def generate(rng, tier, index):
    if index % 60 == 7:
        return uneven(rng)
    if index % 60 == 37:
        return long(rng)
    cfg = cfg_for(rng)
    nodes = rng.choice((2, 2, 3, 5))
    blocks = rng.choice((6, 20, 60, 100 if tier == 'quick' else 250))
    over = {'fork': rng.choice((0.05, 0.2, 0.6)), 'bad': 0, 'corrupt': 0,
            'partitions': rng.choice((0, 1, 2)), 'relay': rng.choice((0.3, 1.0))}
    ops, net = net_plan(rng, nodes, blocks, **over)
    cfg['nodes'] = nodes
    cfg['net'] = net.faults
    if cfg['height'] and rng.random() < 0.7:
        cfg['cpbits'] = rng.choice(BITS)
    h = cfg['height']
    n = len(ops)
    for _ in range(rng.choice((0, 1, 4))):
        ops.insert(rng.randint(0, n), {'op': 'restart', 'n': rng.randrange(nodes)})
    for _ in range(rng.choice((0, 1, 3)) if h else 0):
        k = rng.choice((1, 3, 12))
        ops.insert(rng.randint(0, n), {'op': 'sets', 'n': rng.randrange(nodes),
                                       'h': max(0, h - k - rng.choice((0, 0, 5))), 'k': k,
                                       'v': rng.randrange(100)})
    for _ in range(rng.choice((1, 4, 10))):
        ops.insert(rng.randint(0, n), {'op': 'ask', 'n': rng.randrange(nodes),
                                       'r': rng.getrandbits(30)})
    return {'cfg': cfg, 'ops': ops}


def below(v, h):
    bits = BITS[(v * 7 + h) % len(BITS)]
    return M.raw_header(1, det_bytes(32, 'b', v, h), det_bytes(32, 'm', v, h), 1_400_000_000 + h,
                        bits, v)


def execute(plan, ctx):
    cfg = plan['cfg']
    bx = Installation().bx
    for kind, k in sorted(cfg['net'].items()):
        ctx.background(kind, k)
    blocks = Blocks(plan['seed'], cfg['rule'], cfg['height'], cfg['prev_work'])
    if cfg.get('cpbits'):
        raw = bytearray(blocks.raw[0])
        raw[72:76] = cfg['cpbits'].to_bytes(4, 'little')
        blocks.raw[0] = bytes(raw)
        blocks.info[0] = M.Hdr(bytes(raw), cfg['height'], None, cfg['prev_work'])
    coin, cp = blocks.setup(bx)
    nodes = [Node(f'n{i}', bx, coin, cp, cfg['rule'], ctx, cache=cfg['cache']).start()
             for i in range(cfg['nodes'])]
    for node in nodes:
        node.ref.below = {cp.height: cp.raw_header}
        node.best = node.headers.longest_chain().tip.hash
    rng = random.Random(plan['seed'])
    order = []
    for op in plan['ops']:
        ctx.step()
        kind = op['op']
        if kind == 'mine':
            raw = blocks.build(op)
            if raw is not None:
                if op.get('kind', 'ok') == 'ok':
                    order.append(raw)
            continue
        if kind == 'run':
            for raw in run_blocks(op, blocks):
                for node in nodes:
                    check(node.offer(raw) == 'accept', 'wrongly-rejected', 'a good header')
            for node in nodes:
                check_best(node, ctx)
            ctx.probe('long branches')
            continue
        node = nodes[op['n']]
        if kind == 'recv':
            ctx.sim_seconds = max(ctx.sim_seconds, op.get('t', 0))
            raw = blocks.raw.get(op['id'])
            if raw is not None and node.offer(raw) == 'accept':
                check_best(node, ctx)
                best = node.ref.by_hash[node.best]
                if any(t.height > best.height + 100 for t in node.ref.tips()):
                    ctx.probe('longer branches with less work')
        elif kind == 'restart':
            node.stop()
            node.open()
            ctx.fault('restart')
            ctx.probe('restarts')
            check_best(node, ctx)
        elif kind == 'sets':
            for h in range(op['h'], min(op['h'] + op['k'], cfg['height'])):
                raw = below(op['v'], h)
                node.headers.set_one(h, raw)
                node.ref.below[h] = raw
        elif kind == 'ask':
            compare(node, random.Random(op['r']), ctx, sample=4, pairs=4)
            ranges(node, random.Random(op['r']), ctx)
    # Faults stop; every node eventually gets every block
    todo = [list(order) for _ in nodes]
    for node, raws in zip(nodes, todo):
        rng.shuffle(raws)
        passes = 0
        while raws:
            left = [raw for raw in raws if node.offer(raw) == 'MissingHeader']
            passes += 1
            check(len(left) < len(raws), 'no-progress-sync',
                  lambda: f'{len(left)} blocks are never accepted')
            raws = left
    views = []
    for node in nodes:
        compare(node, rng, ctx, sample=30, pairs=20)
        ranges(node, rng, ctx)
        check_best(node, ctx)
        tips = sorted((c.tip.hash.hex(), c.height, c.work) for c in node.headers.chains())
        views.append((tips, node.headers.longest_chain().work,
                      node.headers.longest_chain().tip.hash))
    ref = nodes[0].ref
    ctx.probe('forks', len(ref.branches) - 1)
    ctx.nontrivial = len(ref.branches) > 1
    best = ref.best_work()
    unique = sum(t.cum == best for t in ref.tips()) == 1
    ctx.probe('unique best' if unique else 'tied best')
    for v in views[1:]:
        check(v[0] == views[0][0], 'disagree-tips', 'nodes with the same headers differ in their '
              'tips or the work of their branches')
        check(v[1] == views[0][1], 'disagree-work', 'nodes with the same headers differ in the '
              'greatest work')
        if unique:
            check(v[2] == views[0][2], 'disagree-best', 'nodes with the same headers differ in '
                  'the best tip though it is unique')


def check_best(node, ctx):
    longest = node.headers.longest_chain()
    best = node.ref.best_work()
    check(longest.work == best, 'wrong-longest',
          lambda: f'longest chain has work {longest.work}, the greatest is {best}')
    tip = node.ref.by_hash.get(longest.tip.hash)
    check(tip is not None and tip.cum == best and tip.branch.tip is tip, 'wrong-longest',
          'longest chain does not end in a tip of greatest work')
    if longest.tip.hash != node.best:
        if tip.prev != node.best:
            ctx.probe('reorganisations')
        node.best = longest.tip.hash


def ranges(node, rng, ctx):
    '''Exact work of ranges, also across the checkpoint and below it.'''
    ref, headers = node.ref, node.headers
    lo = ref.cp_height
    while lo - 1 in ref.below:
        lo -= 1
    for _ in range(3):
        b = rng.choice(ref.branches)
        chain = next(c for c in headers.chains() if c.tip.hash == b.tip.hash)
        top = b.tip.height
        a = rng.randint(lo, top)
        e = rng.randint(a, top + 1)
        want = sum(M.work_of(int.from_bytes(ref.raw_at(b.tip, h)[72:76], 'little'))
                   for h in range(a, e))
        got = headers.chainwork_range(chain, a, e)
        check(got == want, 'wrong-work', lambda: f'work of [{a},{e}) is {got}, expected {want}')
        if a < ref.cp_height:
            ctx.probe('ranges below')
        if top > ref.cp_height:
            h = rng.randint(ref.cp_height, top)
            got = headers.chainwork_to_height(chain, h)
            want = ref.node_at(b, h).cum
            check(got == want, 'wrong-work', lambda: f'work to {h} is {got}, expected {want}')
