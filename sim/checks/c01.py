'''C01: acceptance rules under any arrival schedule; rejections leave no trace.'''

import random

from .. import seam
from ..core import check, det_bytes
from ..hdrsim import Blocks, Node, compare, mutate
from ..loader import Installation
from .hdrplan import cfg_for, long_plan, net_plan, run_blocks, simplify_cfg, simplify_op  # noqa

ID = 'C01'
RUNS = {'quick': 4800, 'thorough': 60000}
RULE = ('one run = one simulated network of 1-4 nodes with the real header store, fed through '
        'links with delay, loss, duplication, reordering, partitions, corruption and miners with '
        'skewed clocks; every delivery is judged against an independent acceptance model; '
        'non-trivial: at least one block was rejected or duplicated and one accepted; distinct by '
        'digest of the whole event log')
COMPONENTS = {'real': ['Headers', 'Chain', 'header storage', 'Coin', 'work', 'hashes'],
              'stub': ['disk (simulated, fault-free)', 'network', 'clock',
                       'difficulty rule of the simulated coin (five families)']}
STATE_MEASURE = 'distinct (headers stored, branches, best work) of compared stores'
MUST_PROBE = ('MissingHeader', 'IncorrectBits', 'InsufficientPoW', 'accept', 'dup', 'malformed',
              'long branches', 'hashes at their target')


def generate(rng, tier, index):
    if index % 40 == 13:
        return long_plan(rng, rng.choice((1, 1, 2)))
    cfg = cfg_for(rng)
    nodes = rng.choice((1, 1, 2, 3, 4))
    blocks = rng.choice((4, 10, 30, 60 if tier == 'quick' else 150))
    over = {'bad': rng.choice((0.1, 0.3, 0.5)), 'corrupt': rng.choice((0, 0.1, 0.3))}
    ops, net = net_plan(rng, nodes, blocks, **over)
    cfg['nodes'] = nodes
    cfg['net'] = net.faults
    if index % 8 == 5:
        exact_ops(rng, ops, nodes)
    n = len(ops)
    extra = []
    for _ in range(rng.choice((0, 1, 3))):
        extra.append({'op': 'junk', 'n': rng.randrange(nodes), 'id': rng.randrange(1 << 30)})
    for op in extra:
        ops.insert(rng.randint(0, n), op)
    return {'cfg': cfg, 'ops': ops}


def exact_ops(rng, ops, nodes):
    '''Headers whose hash is at, just below or just above their target.'''
    for k in range(rng.choice((1, 2, 4))):
        at = rng.randrange(len(ops) + 1)
        mined = [(op['id'], op['ts']) for op in ops[:at] if op['op'] == 'mine']
        p, ts = rng.choice(mined or [(0, 1_500_000_000)])
        i = 2_000_000 + k
        new = [{'op': 'mine', 'kind': 'exact', 'id': i, 'p': p, 'ts': ts + rng.choice((0, 600, 1201)),
                'delta': rng.choice((0, 0, 0, 1, 1, -1, 2, 255, 256, -256, 1 << 32, -1 << 64,
                                     1 << 200, -1 << 240))}]
        new += [{'op': 'recv', 'n': n, 'id': i} for n in rng.sample(range(nodes), nodes)]
        if rng.random() < 0.5:
            new.append({'op': 'mine', 'id': i + 500, 'p': i, 'ts': ts + 900})
            new += [{'op': 'recv', 'n': n, 'id': i + 500} for n in range(nodes)]
        ops[at:at] = new


def execute(plan, ctx):
    cfg = plan['cfg']
    exact = any(op.get('kind') == 'exact' for op in plan['ops'])
    if exact:
        seam.forced_hashes()
    bx = Installation().bx
    blocks = Blocks(plan['seed'], cfg['rule'], cfg['height'], cfg['prev_work'])
    coin, cp = blocks.setup(bx)
    if exact:
        # Whether the library gets its hashes where they can be forced
        trial = det_bytes(80, 'trial')
        seam.force_double_sha256(trial, bytes(range(32)))
        exact = coin.deserialized_header(trial, 0).hash == bytes(range(32))
        ctx.probe('hashes at their target')
    nodes = [Node(f'n{i}', bx, coin, cp, cfg['rule'], ctx, cache=cfg['cache']).start()
             for i in range(cfg['nodes'])]
    rng = random.Random(plan['seed'])
    deep_ok = cfg['height'] <= 2015
    counts = {}
    for kind, k in sorted(cfg['net'].items()):
        ctx.background(kind, k)
    for op in plan['ops']:
        ctx.step()
        if op['op'] == 'mine':
            if exact or op.get('kind') != 'exact':
                blocks.build(op)
            continue
        if op['op'] == 'run':
            for raw in run_blocks(op, blocks):
                for node in nodes:
                    check(node.offer(raw) == 'accept', 'wrongly-rejected', 'a good header')
            ctx.probe('long branches')
            continue
        node = nodes[op['n']]
        if op['op'] == 'junk':
            raw = det_bytes(80, 'junk', op['id'])
        else:
            raw = blocks.raw.get(op['id'])
            if raw is None:
                continue
            ctx.sim_seconds = max(ctx.sim_seconds, op.get('t', 0))
            if op.get('mut'):
                raw = mutate(raw, op['mut'])
        outcome = node.offer(raw, deep=deep_ok and rng.random() < 0.3)
        counts[outcome] = counts.get(outcome, 0) + 1
        if outcome not in ('accept',) and rng.random() < 0.2:
            # A rejection may have disturbed in-memory indices
            compare(node, rng, ctx, sample=10, pairs=6)
    for name, k in counts.items():
        ctx.probe(name, k)
    ctx.nontrivial = counts.get('accept', 0) > 0 and len(counts) > 1
    for node in nodes:
        compare(node, rng, ctx, sample=60)
        ctx.probe('forks', len(node.ref.branches) - 1)
        # What the file holds is what was accepted, and nothing else
        if rng.random() < 0.5:
            node.stop()
            node.open()
            compare(node, rng, ctx, sample=20, pairs=10)
        check(len(node.headers) == node.count(), 'stored-count', 'count after reopening')
