'''C20: transaction finality follows lock time, height, median time and sequences.'''

import os
import random
import re
import time

from .. import model as M
from ..core import check, describe, det_bytes
from ..hdrsim import Blocks, Node
from ..loader import Installation
from ..seam import WORLD
from .hdrplan import net_plan, simplify_op  # noqa

ID = 'C20'
RUNS = {'quick': 14000, 'thorough': 150000}
RULE = ('one run = wallets at 1-3 nodes of a simulated network (delays, loss, partitions, skewed '
        'and jumping miner clocks, some miners breaking the timestamp rule, restarts) watching a '
        'pool of time-locked transactions: after every accepted header the median time past and '
        'the finality of each transaction on that branch are compared with the definition, and '
        'with the previous answer on the branch; lock times are described in changing time '
        'zones and clocks; non-trivial: at least one clock, zone or network fault; distinct by '
        'digest of the event log')
COMPONENTS = {'real': ['Tx.is_final_for_block', 'Tx.are_inputs_final', 'Tx.to_json',
                       'Headers.median_time_past', 'Headers', 'Chain', 'C library time zones'],
              'stub': ['disk (simulated, fault-free)', 'network', 'miner clocks', 'wall clock']}
STATE_MEASURE = ('distinct (class of lock time, sequences final, side of the lock, relation to '
                 'height and time, answer)')
MUST_PROBE = ('final by height', 'final by time', 'final by sequence', 'not final by height',
              'not final by time', 'becomes final', 'reorganised', 'at the height', 'at the time',
              'fewer than eleven', 'across a fork', 'timestamp rule broken', 'description',
              'time zone', 'restart', 'missing below checkpoint', 'not final again on a branch',
              'many inputs', 'no inputs')
ZONES = ('', 'UTC0', 'EST5EDT,M3.2.0,M11.1.0', 'CET-1CEST,M3.5.0,M10.5.0/3', 'AAA-14', 'BBB+12',
         'NPT-5:45', 'XXX+3:59:59', 'LHST-10:30LHDT-11,M10.1.0,M4.1.0')
THRESHOLD = 500_000_000
TOP = 0xffffffff


def gen_lock(rng, height, t0):
    r = rng.random()
    if r < 0.1:
        return 0
    if r < 0.45:
        return max(0, height + rng.randint(0, 40))
    if r < 0.85:
        return min(TOP, 1_500_000_000 + t0 + rng.choice((rng.randint(-100, 3000),
                                                         rng.randint(-9000, 40000))))
    return rng.choice((1, THRESHOLD - 1, THRESHOLD, THRESHOLD + 1, TOP, TOP - 1, 0x7fffffff,
                       0x80000000, rng.getrandbits(32), rng.randrange(THRESHOLD)))


def gen_seqs(rng):
    if rng.random() < 0.1:
        # many, and at most one of them not final
        seqs = [TOP] * rng.choice((4, 9, 10, 17, 33, 64, 65, 70, 101, 129, 253, 257, 300))
        if rng.random() < 0.7:
            seqs[rng.choice((0, -1, rng.randrange(len(seqs))))] = rng.choice((TOP - 1, 0))
        return seqs
    return [rng.choice((TOP, TOP, TOP - 1, 0, rng.getrandbits(32)))
            for _ in range(rng.choice((0, 1, 1, 1, 2, 2, 3)))]


def generate(rng, tier, index):
    nodes = rng.choice((1, 1, 2, 3))
    height = rng.choice((0, 0, 0, 1, 7, 9, 10, 11, 100))
    t0 = rng.choice((0, 0, 0, 2**31 - 1_500_000_000 - 1000, TOP - 1_500_000_000 - 30000))
    ops, net = net_plan(rng, nodes, rng.choice((5, 15, 30, 60 if tier == 'quick' else 100)),
                        bad=0, corrupt=0, jump=rng.choice((0, 0.1, 0.5)),
                        spacing=rng.choice((30.0, 600.0, 600.0)), fork=rng.choice((0, 0.1, 0.4)))
    cheat = rng.choice((0, 0, 0.1, 0.5))
    for op in ops:
        if op['op'] == 'mine':
            op['cheat'] = rng.random() < cheat
            if rng.random() < 0.1:
                op['tie'] = True       # exactly the earliest timestamp allowed
    n = len(ops)
    extra = [{'op': 'tx', 'lock': gen_lock(rng, height, t0),
              'seqs': gen_seqs(rng), 'shape': rng.choice((0, 0, rng.getrandbits(12)))}
             for _ in range(rng.choice((2, 5)))]
    ops[:0] = extra[:2]
    for op in extra[2:]:
        ops.insert(rng.randint(0, n), op)
    for _ in range(rng.choice((2, 6, 15))):
        what = rng.choice(('ask', 'ask', 'zone', 'clock', 'describe', 'describe', 'edit',
                           'restart', 'query', 'relay'))
        op = {'op': what, 'n': rng.randrange(nodes), 'k': rng.getrandbits(20),
              'v': rng.getrandbits(32)}
        if what == 'describe':
            op['lock'] = gen_lock(rng, height, t0)
        ops.insert(rng.randint(0, len(ops)), op)
    return {'cfg': {'nodes': nodes, 'height': height, 't0': t0, 'netfaults': net.faults,
                    'below': rng.choice((0, 3, 10, 12)), 'zone': rng.randrange(len(ZONES)),
                    'cache': rng.choice((None, None, 1, 5))}, 'ops': ops}


def simplify_cfg(cfg):
    if cfg['height']:
        yield dict(cfg, height=0)
    if cfg['t0']:
        yield dict(cfg, t0=0)
    if cfg['zone']:
        yield dict(cfg, zone=0)
    if cfg['cache'] is not None:
        yield dict(cfg, cache=None)


def civil(t):
    '''UTC calendar date and time of a Unix time.'''
    days, secs = divmod(t, 86400)
    z = days + 719468
    era, doe = divmod(z, 146097)
    yoe = (doe - doe // 1460 + doe // 36524 - doe // 146096) // 365
    doy = doe - (365 * yoe + yoe // 4 - yoe // 100)
    mp = (5 * doy + 2) // 153
    d = doy - (153 * mp + 2) // 5 + 1
    m = mp + 3 if mp < 10 else mp - 9
    y = yoe + era * 400 + (m <= 2)
    return f'{y:04d}-{m:02d}-{d:02d}', f'{secs // 3600:02d}:{secs // 60 % 60:02d}:{secs % 60:02d}'


def final(lock, seqs, height, stamp):
    by_lock = lock == 0 or lock < (height if lock < THRESHOLD else stamp)
    return by_lock, by_lock or all(s == TOP for s in seqs)


class Wallet:
    '''The transactions watched, and per node what was last said of each.'''

    def __init__(self, bx, ctx):
        self.bx, self.ctx = bx, ctx
        self.txs = []
        self.said = {}          # (node, tx, header hash) -> final by lock time
        self.mtp = {}           # header hash -> median time past, by the library

    def add(self, op):
        bx = self.bx
        # Nothing else about a transaction matters
        shape = op.get('shape', 0)
        coinbase = (shape >> 2 & 7) if shape & 1 else -1
        ins = [bx.TxInput(bytes(32), TOP, bx.Script(bytes(shape & 2)), s) if k == coinbase else
               bx.TxInput(det_bytes(32, len(self.txs), k), k, bx.Script(bytes(shape >> 5 & 3)), s)
               for k, s in enumerate(op['seqs'])]
        tx = bx.Tx((2, 1, -1, 0)[shape >> 7 & 3], ins,
                   [bx.TxOutput(k, bx.Script()) for k in range((1, 0, 2, 3)[shape >> 9 & 3])],
                   op['lock'])
        self.ctx.probe('coinbase inputs', sum(i.is_coinbase() for i in ins))
        self.txs.append([tx, op['lock'], list(op['seqs'])])
        self.ctx.probe('many inputs', len(op['seqs']) > 64)
        self.ctx.probe('no inputs', not op['seqs'])

    def judge(self, k, height, stamp, where):
        tx, lock, seqs = self.txs[k]
        by_lock, want = final(lock, seqs, height, stamp)
        raw = tx.to_bytes()
        got = tx.is_final_for_block(height, stamp)
        check(bool(got) == want, 'wrong-finality', lambda: (
            f'{where}: lock time {lock}, sequences {seqs}, height {height}, time {stamp}: '
            f'{"final" if got else "not final"}'))
        check(bool(tx.are_inputs_final()) == all(s == TOP for s in seqs), 'wrong-finality',
              lambda: f'sequences {seqs} taken for {tx.are_inputs_final()}')
        check(tx.to_bytes() == raw, 'tx-changed', where)
        ctx = self.ctx
        kind = 'none' if lock == 0 else 'height' if lock < THRESHOLD else 'time'
        if kind != 'none':
            ctx.probe((f'final by {kind}' if by_lock else f'not final by {kind}')
                      if by_lock == want else 'final by sequence')
            at = height if kind == 'height' else stamp
            if at in (lock, lock + 1):
                ctx.probe('at the ' + kind)
            ctx.state(kind, [s == TOP for s in seqs[:3]], len(seqs) > 3, (at > lock) - (at < lock),
                      abs(at - lock) < 2, height < lock, stamp < lock, want)
        return by_lock

    def evaluate(self, node, chain, h):
        '''Header h is the tip of chain: can each transaction be in the next block?'''
        bx, ctx, ref = self.bx, self.ctx, node.ref
        need = range(max(0, h.height - 10), h.height + 1)
        raws = [ref.raw_at(h, x) for x in need]
        try:
            got = node.headers.median_time_past(chain, h.height)
        except bx.MissingHeader as e:
            check(None in raws, 'lost-header', lambda: f'median time past: {describe(e)}')
            ctx.probe('missing below checkpoint')
            return
        check(None not in raws, 'wrong-mtp', lambda: (
            f'median time past at {h.height} is {got}, but headers are missing'))
        stamps = sorted(int.from_bytes(r[68:72], 'little') for r in raws)
        want = stamps[len(stamps) // 2]
        check(got == want, 'wrong-mtp', lambda: (
            f'median time past at height {h.height} is {got}, of timestamps '
            f'{[int.from_bytes(r[68:72], "little") for r in raws]} it is {want}'))
        ctx.log('mtp', node.name, h.height, got)
        if len(raws) < 11:
            ctx.probe('fewer than eleven')
        if h.branch.parent is not None and h.height - h.branch.first.height < 10:
            ctx.probe('across a fork')
        self.mtp[h.hash] = got
        parent = h.parent
        prev = self.mtp.get(parent.hash) if parent else None
        ok = prev is not None and h.ts > prev
        if prev is not None:
            # A header obeying the rule never turns the clock back
            if not ok:
                ctx.probe('timestamp rule broken')
            if ok:
                check(got >= prev, 'mtp-backwards', lambda: (
                    f'median time past fell from {prev} to {got} at height {h.height}, though '
                    f'its timestamp {h.ts} is later'))
        for k in range(len(self.txs)):
            said = self.judge(k, h.height + 1, got, f'{node.name} at height {h.height}')
            before = parent and self.said.get((node.name, k, parent.hash))
            if before is not None and prev is not None:
                if before and got >= prev:
                    check(said, 'final-no-more', lambda: (
                        f'lock time {self.txs[k][1]} was final after height {parent.height}, not '
                        f'after {h.height} (median times past {prev}, {got})'))
                if said and not before:
                    ctx.probe('becomes final')
                if before and not said:
                    ctx.probe('not final again on a branch')
            self.said[node.name, k, h.hash] = said


def describe_lock(bx, ctx, lock, zone, k):
    tx = bx.Tx(1, [bx.TxInput(bytes(32), 0, bx.Script(), k & TOP)], [], lock)
    flags = bx.JSONFlags.LOCKTIME_MEANING
    if k & 1:
        flags |= bx.JSONFlags.SIZE
    text = tx.to_json(flags, bx.Bitcoin)['locktimeMeaning']
    ctx.log('describe', lock, repr(text))
    ctx.probe('description')
    if lock == 0:
        check(not re.search(r'\d', text), 'wrong-description', lambda: repr(text))
    elif lock < THRESHOLD:
        check(re.findall(r'\d+', text.replace(',', '')) == [str(lock)] and 'UTC' not in text,
              'wrong-description', lambda: f'lock time {lock}: {text!r}')
    else:
        check(tuple(re.findall(r'\d+-\d\d-\d\d|\d\d:\d\d:\d\d', text)) == civil(lock) and
              'UTC' in text, 'wrong-description', lambda: (
                  f'lock time {lock} in time zone {zone!r}: {text!r}, should be {civil(lock)}'))


def set_zone(zone):
    if zone:
        os.environ['TZ'] = zone
    else:
        os.environ.pop('TZ', None)
    time.tzset()


def execute(plan, ctx):
    cfg = plan['cfg']
    old = os.environ.get('TZ')
    set_zone(ZONES[cfg['zone']])
    try:
        run(plan, cfg, ctx)
    finally:
        set_zone(old)


def run(plan, cfg, ctx):
    bx = Installation().bx
    blocks = Blocks(plan['seed'], 'const', cfg['height'])
    coin, cp = blocks.setup(bx)
    zone = ZONES[cfg['zone']]
    if zone:
        ctx.background('time zone')
    for kind, k in sorted(cfg['netfaults'].items()):
        ctx.fault(kind, k)
    now = 1_500_000_000 + cfg['t0']
    WORLD.clock = lambda: now
    wallet = Wallet(bx, ctx)
    rng = random.Random(plan['seed'])
    below = {}
    for k in range(1, cfg['below'] + 1):
        h = cfg['height'] - k
        if h >= 0:
            below[h] = M.raw_header(1, bytes(32), det_bytes(32, 'b', h),
                                    min(TOP, now - 600 * k + rng.randint(-3000, 3000)), M.EASY, 0)
    nodes = []
    for i in range(cfg['nodes']):
        node = Node(f'n{i}', bx, coin, cp, 'const', ctx, cache=cfg['cache']).start()
        for h, raw in sorted(below.items()):
            node.headers.set_one(h, raw)
            node.ref.below[h] = raw
        nodes.append(node)
    medians = {}

    def median(h):
        if h.hash not in medians:
            stamps = []
            x = h
            while x is not None and len(stamps) < 11:
                stamps.append(x.ts)
                x = x.parent
            at = h.height - len(stamps)
            while len(stamps) < 11 and at in below:
                stamps.append(int.from_bytes(below[at][68:72], 'little'))
                at -= 1
            medians[h.hash] = sorted(stamps)[len(stamps) // 2]
        return medians[h.hash]

    for op in plan['ops']:
        ctx.step()
        what = op['op']
        if what == 'mine':
            parent = blocks.info.get(op['p'])
            if parent is None:
                continue
            ts = min(op['ts'] + cfg['t0'], TOP)
            if op['cheat']:
                ctx.fault('clock behind the median')
            elif op.get('tie'):
                ts = median(parent) + 1
                ctx.fault('earliest timestamp')
            else:
                ts = max(ts, median(parent) + 1)
            blocks.build(dict(op, ts=min(ts, TOP)))
        elif what == 'recv':
            node = nodes[op['n']]
            raw = blocks.raw.get(op['id'])
            if raw is None:
                continue
            ctx.sim_seconds = max(ctx.sim_seconds, op.get('t', 0))
            best = node.headers.longest_chain().tip.hash
            if node.offer(raw) != 'accept':
                continue
            header, chain = node.headers.lookup(M.dsha(raw))
            wallet.evaluate(node, chain, node.ref.by_hash[header.hash])
            new = node.headers.longest_chain().tip
            if new.hash != best and new.prev_hash != best:
                ctx.probe('reorganised')
        elif what == 'tx':
            wallet.add(op)
        elif what == 'zone':
            zone = ZONES[op['k'] % len(ZONES)]
            set_zone(zone)
            ctx.fault('time zone')
            ctx.probe('time zone')
        elif what == 'clock':
            now = op['v']
            ctx.fault('wall clock jump')
        elif what == 'describe':
            describe_lock(bx, ctx, op['lock'], zone, op['k'])
        elif what == 'restart':
            nodes[op['n']].stop()
            nodes[op['n']].open()
            ctx.fault('restart')
            ctx.probe('restart')
        elif what == 'query':
            node = nodes[op['n']]
            b = node.ref.branches[op['k'] % len(node.ref.branches)]
            chain = node.headers.lookup(b.tip.hash)[1]
            h = b.tip
            while op['v'] & 7 and h.parent is not None and h.parent.height > cfg['height']:
                op = dict(op, v=op['v'] >> 1)
                h = h.parent
            # on a later chain's view of the same header
            wallet.evaluate(node, chain, h)
        elif wallet.txs and what == 'edit':
            k = op['k'] % len(wallet.txs)
            tx, lock, seqs = wallet.txs[k]
            if op['v'] & 1 and seqs:
                i = (op['v'] >> 3) % len(seqs)
                seqs[i] = tx.inputs[i].sequence = (TOP, 0, TOP - 1, op['v'])[op['v'] >> 1 & 3]
            else:
                wallet.txs[k][1] = tx.locktime = lock ^ 1 << (op['v'] >> 2) % 32
                wallet.said = {x: v for x, v in wallet.said.items() if x[1] != k}
            ctx.background('edited')
        elif wallet.txs and what == 'relay':
            # the transaction reaches another wallet over the wire
            k = op['k'] % len(wallet.txs)
            wallet.txs[k][0] = bx.Tx.from_bytes(wallet.txs[k][0].to_bytes())
        elif wallet.txs and what == 'ask':
            k = op['k'] % len(wallet.txs)
            lock = wallet.txs[k][1]
            d = (op['v'] & 7) - 3
            height = max(0, (lock + d, op['v'] >> 8, 0, THRESHOLD + d)[op['v'] >> 3 & 3])
            stamp = max(0, (lock + d, op['v'] >> 2, 0, THRESHOLD - d)[op['v'] >> 5 & 3])
            wallet.judge(k, height, stamp, 'asked')
    for k in range(len(wallet.txs)):
        describe_lock(bx, ctx, wallet.txs[k][1], zone, k)
