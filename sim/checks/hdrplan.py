'''Plans shared by the header checks.'''

from .. import netsim
from ..netsim import BAD_KINDS
from ..model import RULES

HEIGHTS = (0, 0, 0, 1, 7, 100, 2015, 70000)


def cfg_for(rng):
    height = rng.choice(HEIGHTS)
    return {
        'rule': rng.choice(RULES),
        'height': height,
        'prev_work': 0 if height == 0 else rng.choice((0, 2 * height, 1 << 80, rng.getrandbits(90))),
        'cache': rng.choice((None, None, 1000, 1, 2, 3, 5, 10, 33)),
    }


def net_plan(rng, nodes, blocks, **over):
    params = netsim.random_params(rng, nodes)
    params.update(over)
    net = netsim.Net(rng, nodes, params)
    ops = net.run(blocks)
    return ops, net


def long_plan(rng, nodes):
    '''A long branch, then forks from anywhere on it, good and bad.'''
    cfg = cfg_for(rng)
    cfg['nodes'] = nodes
    cfg['net'] = {'late forks': 1}
    k = rng.choice((110, 160, 270, 600, 1100, 2100, 2600))
    step = rng.choice((0, 1, 600, 600, 1300))
    run = 1_000_000
    ops = [{'op': 'run', 'id': run, 'p': 0, 'k': k, 'ts': 1_500_000_600, 'step': step}]
    spots = (0, 1, 2, 10, 11, 99, 100, 101, 143, 144, 145, 255, 256, 257, 999, 1000, 1001, 2015,
             2016, 2017)
    # The height above the checkpoint of each block
    height = {0: 0}
    for n in range(k):
        height[run + n] = n + 1
    made = []
    for i in range(1, rng.choice((4, 12, 40))):
        r = rng.random()
        if made and r < 0.4:
            p = rng.choice(made[-3:])
        elif r < 0.7:
            # So far below the tip, or above the checkpoint
            s = rng.choice([x for x in spots if x <= k])
            at = rng.choice((s, k - s))
            p = run + at - 1 if at else 0
        else:
            p = run + rng.randrange(k)
        op = {'op': 'mine', 'id': i, 'p': p, 'ts': 1_500_000_600 + step * height[p] +
              rng.choice((0, 1, 600, 1300, 90000))}
        if rng.random() < 0.25:
            op['kind'] = rng.choice(BAD_KINDS)
        else:
            made.append(i)
            height[i] = height[p] + 1
        ops.append(op)
        for n in rng.sample(range(nodes), nodes):
            if rng.random() < 0.9:
                ops.append({'op': 'recv', 'n': n, 'id': i, 't': 0})
            if rng.random() < 0.1:
                ops.append({'op': 'recv', 'n': n, 't': 0,
                            'id': rng.choice((i, p, run + rng.randrange(k)))})
    return {'cfg': cfg, 'ops': ops}


def run_blocks(op, blocks):
    '''The blocks of a long branch.'''
    p = op['p']
    for n in range(op['k']):
        i = op['id'] + n
        raw = blocks.build({'id': i, 'p': p, 'ts': op['ts'] + n * op['step']})
        if raw is None:
            return
        yield raw
        p = i


def simplify_op(op):
    if op['op'] == 'run':
        for k in (op['k'] // 2, op['k'] - 100, op['k'] - 10, op['k'] - 1):
            if k > 0:
                yield dict(op, k=k)
    if op['op'] == 'mine':
        if op.get('kind', 'ok') != 'ok':
            yield {k: v for k, v in op.items() if k != 'kind'}
    if op.get('mut'):
        yield {k: v for k, v in op.items() if k != 'mut'}
    f = op.get('fault')
    if f and f.get('at', 0) > 0:
        yield dict(op, fault=dict(f, at=0))
        yield dict(op, fault=dict(f, at=f['at'] - 1))
    if f and f.get('tear'):
        yield dict(op, fault={k: v for k, v in f.items() if k != 'tear'})


def simplify_cfg(cfg):
    if cfg.get('rule') != 'const':
        yield dict(cfg, rule='const')
    if cfg.get('height'):
        yield dict(cfg, height=0, prev_work=0)
    if cfg.get('cache') is not None:
        yield dict(cfg, cache=None)
    if cfg.get('prev_work'):
        yield dict(cfg, prev_work=0)
