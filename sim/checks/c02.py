'''C02: every stored header is found by hash and height on the right chain.'''

import functools
import json
import os
import random

from ..core import check
from ..hdrsim import Blocks, Node, below, compare
from ..loader import Installation
from . import hdrplan, huge
from .hdrplan import cfg_for, net_plan

ID = 'C02'
RUNS = {'quick': 9000, 'thorough': 40000}
RULE = ('one run = one process holding 1-4 header stores of one or two chains, fed over simulated '
        'links (delay, loss, duplication, reordering, partitions) with fork-heavy trees, headers '
        'whose short hashes collide (precomputed: siblings, across depths, three-way and '
        'misaligned), sets below the checkpoint and lookups in between; every answer is compared '
        'with the reference tree; non-trivial: at least one fork stored; distinct by digest of '
        'the event log')
COMPONENTS = {'real': ['Headers', 'Chain', 'header storage', 'Coin', 'work', 'hashes'],
              'stub': ['disk (simulated, fault-free)', 'network', 'clock',
                       'difficulty rule of the simulated coin (five families)']}
STATE_MEASURE = 'distinct (headers stored, branches, best work) of compared stores'
MUST_PROBE = ('forks', 'colliding headers stored', 'several stores', 'set below checkpoint',
              'misaligned lookups', 'as many chains as small integers hold',
              'deeply nested forks')
FIX = os.path.join(os.path.dirname(__file__), '..', '..', 'fixtures', 'collisions.json')


@functools.lru_cache()
def families():
    with open(FIX) as f:
        data = json.load(f)
    return {fam['seed']: fam for fam in data}


def prepare():
    families()


def generate(rng, tier, index):
    # Huge histories: as many chains as small integers hold; forks nested deeply
    if index == 11 or tier == 'thorough' and index % 5000 == 11:
        return {'cfg': {'groups': []}, 'ops': [
            {'op': 'wide', 'n': rng.choice((65537, 65540, 65800)), 'seed': rng.randrange(1000)}]}
    if index % 400 == 29:
        return {'cfg': {'groups': []}, 'ops': [
            {'op': 'deep', 'n': rng.choice((300, 1100, 1500)), 'seed': rng.randrange(1000),
             'lead': rng.choice((1, 1, 2, 3))}]}
    groups = []
    ops = []
    for g in range(rng.choice((1, 1, 1, 2))):
        cfg = cfg_for(rng)
        nodes = rng.choice((1, 1, 2))
        fix = rng.choice(sorted(families())) if rng.random() < 0.4 else None
        if fix is not None:
            cfg['rule'] = 'const'
            cfg['seed'] = fix
        else:
            cfg['seed'] = rng.randrange(6, 64)
        over = {'fork': rng.choice((0.05, 0.2, 0.6)), 'bad': 0, 'corrupt': 0}
        mine, net = net_plan(rng, nodes, rng.choice((6, 20, 60, 120 if tier == 'quick' else 300)),
                             **over)
        cfg['nodes'] = nodes
        cfg['fix'] = fix
        cfg['net'] = net.faults
        groups.append(cfg)
        for op in mine:
            op['g'] = g
        if fix is not None:
            # The colliding family arrives in a random topological-ish order
            fam = families()[fix]
            for n in range(nodes):
                order = [b[0] for b in fam['blocks']]
                parent = {b[0]: b[1] for b in fam['blocks']}
                done, todo = {0}, list(order)
                while todo:
                    ready = [i for i in todo if parent[i] in done]
                    i = rng.choice(ready[:rng.choice((1, 2, 30))])
                    todo.remove(i)
                    done.add(i)
                    op = {'op': 'fx', 'g': g, 'n': n, 'id': i}
                    mine.append(op)
            # interleave, keeping relative order
            a = [op for op in mine if op['op'] != 'fx']
            b = [op for op in mine if op['op'] == 'fx']
            mine = merge(rng, a, b)
        h = cfg['height']
        for _ in range(rng.choice((0, 2, 8)) if h else 0):
            mine.insert(rng.randint(0, len(mine)),
                        {'op': 'set', 'g': g, 'n': rng.randrange(nodes),
                         'h': rng.choice((0, h - 1, rng.randrange(h))), 'v': rng.randrange(4)})
        for _ in range(rng.choice((0, 3, 10))):
            mine.insert(rng.randint(0, len(mine)),
                        {'op': 'look', 'g': g, 'n': rng.randrange(nodes),
                         'r': rng.getrandbits(30)})
        ops = merge(rng, ops, mine)
    return {'cfg': {'groups': groups}, 'ops': ops}


def merge(rng, a, b):
    out = []
    i = j = 0
    while i < len(a) or j < len(b):
        if j >= len(b) or (i < len(a) and rng.random() < (len(a) - i) / (len(a) - i + len(b) - j)):
            out.append(a[i])
            i += 1
        else:
            out.append(b[j])
            j += 1
    return out


def simplify_op(op):
    yield from huge.simplify_op(op)
    yield from hdrplan.simplify_op(op)


def simplify_cfg(cfg):
    for k, g in enumerate(cfg['groups']):
        for c in hdrplan.simplify_cfg(g):
            if g['fix'] is None:
                yield {'groups': cfg['groups'][:k] + [c] + cfg['groups'][k + 1:]}


def execute(plan, ctx):
    bx = Installation().bx
    stores = []
    blocks = []
    rng = random.Random(plan['seed'])
    for g, cfg in enumerate(plan['cfg']['groups']):
        for kind, k in sorted(cfg['net'].items()):
            ctx.background(kind, k)
        b = Blocks(cfg['seed'], cfg['rule'], cfg['height'], cfg['prev_work'])
        b.seed = plan['seed'] + g
        coin, cp = b.setup(bx)
        blocks.append(b)
        stores.append([Node(f'g{g}n{i}', bx, coin, cp, cfg['rule'], ctx,
                            cache=cfg['cache']).start() for i in range(cfg['nodes'])])
        for node in stores[-1]:
            node.ref.below = {cp.height: cp.raw_header}
    if sum(map(len, stores)) > 1:
        ctx.probe('several stores')
    for op in plan['ops']:
        ctx.step()
        kind = op['op']
        if kind in ('wide', 'deep'):
            huge.run(bx, ctx, op)
            continue
        b = blocks[op['g']]
        if kind == 'mine':
            b.build(op)
            continue
        node = stores[op['g']][op['n']]
        if kind == 'recv':
            ctx.sim_seconds = max(ctx.sim_seconds, op.get('t', 0))
            raw = b.raw.get(op['id'])
            if raw is not None:
                node.offer(raw)
        elif kind == 'fx':
            fam = families()[plan['cfg']['groups'][op['g']]['fix']]
            raw = bytes.fromhex(fam['blocks'][op['id'] - 1][2])
            if node.offer(raw) == 'accept':
                ctx.probe('colliding headers stored')
        elif kind == 'set':
            h = op['h']
            if h < node.ref.cp_height:
                raw = below(h, op['v'])
                node.headers.set_one(h, raw)
                node.ref.below[h] = raw
                ctx.probe('set below checkpoint')
        elif kind == 'look':
            look(node, random.Random(op['r']), ctx)
    for nodes in stores:
        for node in nodes:
            if len(node.ref.branches) > 1:
                ctx.nontrivial = True
            ctx.probe('forks', len(node.ref.branches) - 1)
            compare(node, rng, ctx)
            misaligned(node, rng, ctx)
            known(node, stores, rng, ctx)


def look(node, rng, ctx):
    if rng.random() < 0.5:
        compare(node, rng, ctx, sample=15, pairs=6)
    else:
        misaligned(node, rng, ctx)


def misaligned(node, rng, ctx):
    '''Hashes never stored, made of parts of hashes that are.'''
    log = node.ref.log
    for _ in range(4):
        i = rng.randrange(len(log))
        j = min(i + 1, len(log) - 1)
        k = rng.randrange(1, 4)
        key = log[i].hash[k:4] + log[j].hash[:k]
        absent = key + rng.choice((log[i].hash[4:], log[j].hash[4:], bytes(28)))
        if absent in node.ref.by_hash:
            continue
        ctx.probe('misaligned lookups')
        try:
            found = node.headers.lookup(absent)
        except node.bx.MissingHeader:
            continue
        check(False, 'phantom-header', f'lookup of {absent.hex()} found {found[0]}')


def known(node, stores, rng, ctx):
    '''A header stored only in another store is not found in this one; previously returned
    heights below the checkpoint stay missing.'''
    for nodes in stores:
        for other in nodes:
            if other is node:
                continue
            for h in rng.sample(other.ref.log, min(6, len(other.ref.log))):
                if h.hash in node.ref.by_hash:
                    continue
                try:
                    node.headers.lookup(h.hash)
                except node.bx.MissingHeader:
                    continue
                check(False, 'phantom-header', 'a header of another store was found')
    if node.ref.cp_height:
        chain = rng.choice(node.headers.chains())
        for h in {0, node.ref.cp_height - 1, rng.randrange(node.ref.cp_height)}:
            if h in node.ref.below:
                continue
            try:
                node.headers.raw_header_at_height(chain, h)
            except node.bx.MissingHeader:
                continue
            check(False, 'phantom-header', f'height {h} was never set')
