'''Histories of one header store on one simulated disk (C04-C08).'''

from .hdrplan import cfg_for, net_plan, simplify_cfg, simplify_op  # noqa

HEIGHTS = (0, 0, 0, 1, 5, 12, 40, 100, 2015, 4999, 70000)
POWER_MODES = ('none', 'all', 'prefix', 'prefix', 'lose-one', 'keep-one', 'mostly', 'random')

COMPONENTS = {'real': ['Headers', 'Chain', 'header storage', 'util.map_file', 'Coin', 'work',
                       'hashes', 'mmap and buffered I/O of the interpreter'],
              'stub': ['disk (simulated: per-sector versions, names, sizes)', 'process life',
                       'difficulty rule of the simulated coin (five families)']}


def base_cfg(rng):
    cfg = cfg_for(rng)
    cfg['height'] = rng.choice(HEIGHTS)
    if not cfg['height']:
        cfg['prev_work'] = 0
    return cfg


def history(rng, cfg, blocks, *, flush=0.1, sets=0.1, restart=0.05, bulk=0.04,
            trim=0.0, grow=None):
    '''Mining and (possibly reordered, duplicated, invalid) arrivals at one node.'''
    over = {'max_events': 1500, 'bad': rng.choice((0, 0, 0.15))}
    nodes = rng.choice((1, 1, 2))
    net_ops, net = net_plan(rng, nodes, blocks, **over)
    ops = []
    cp = cfg['height']
    spots = [h for h in (0, 1, cp // 2, cp - 1, cp - 2, cp - 11) if 0 <= h < cp]
    for op in net_ops:
        if op['op'] == 'mine':
            ops.append(op)
            continue
        if op['n'] != 0 or op.get('mut'):
            continue
        ops.append({'op': 'connect', 'id': op['id'], 't': op['t']})
        r = rng.random()
        if r < flush:
            ops.append({'op': 'flush'})
        elif r < flush + sets and cp:
            h = rng.choice(spots) if rng.random() < 0.5 else rng.randrange(cp)
            ops.append({'op': 'set', 'h': h, 'v': rng.randrange(4)})
            if rng.random() < 0.3:
                for k in range(h + 1, min(h + 6, cp)):
                    ops.append({'op': 'set', 'h': k, 'v': rng.randrange(4)})
        elif r < flush + sets + restart:
            ops.append({'op': 'restart'})
        elif r < flush + sets + restart + trim:
            ops.append({'op': 'trim'})
    if rng.random() < bulk:
        ids = [op['id'] for op in ops if op['op'] == 'mine']
        at = rng.randint(0, len(ops))
        seen = [op['id'] for op in ops[:at] if op['op'] == 'mine' and 'kind' not in op] or [0]
        op = {'op': 'bulk', 'id': 1_000_000, 'p': rng.choice([0, seen[-1]]),
              'n': rng.choice((4990, 4998, 4999, 5000, 5001)), 'ts': 1_500_000_000}
        if grow:
            op['n'] = rng.choice((5001, 5003, 5003, 5010))
            op['grow'] = [dict(grow('connect'), at=rng.randrange(8))
                          for _ in range(rng.choice((1, 1, 2, 3)))]
        ops.insert(at, op)
        # Each later restart reads some 5,000 headers again
        later = [k for k in range(at + 1, len(ops)) if ops[k]['op'] == 'restart']
        if len(later) > 10:
            drop = set(rng.sample(later, len(later) - 10))
            ops = [op for k, op in enumerate(ops) if k not in drop]
    return ops, net


def crash_fault(rng, kind, power=False):
    f = {'at': at_for(rng, kind), 'do': 'crash'}
    if rng.random() < 0.4:
        f['tear'] = rng.getrandbits(10) | 1
    if power:
        f['power'] = [rng.choice(POWER_MODES), rng.getrandbits(30)]
    return f


def at_for(rng, kind):
    if kind == 'restart':
        return rng.choice((0, 1, 2, 3, 4, 5, 6, 8, rng.randrange(20)))
    if kind == 'flush':
        return 0
    return rng.choice((0, 0, 1, 1, 2, 3, 4, rng.randrange(8)))


def err_fault(rng, kind):
    f = {'at': at_for(rng, kind), 'do': 'err' if rng.random() < 0.9 else 'short',
         'pick': rng.getrandbits(16)}
    return f


def add_faults(rng, ops, prob, make, kinds=('connect', 'set', 'flush', 'restart')):
    for op in ops:
        if op['op'] in kinds and rng.random() < prob:
            op['fault'] = make(op['op'])
