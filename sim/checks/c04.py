'''C04: closing and reopening changes nothing observable.'''

from ..core import check, digest
from ..filesim import FileRun
from ..loader import Installation
from . import fileplan, huge
from .fileplan import simplify_cfg  # noqa

ID = 'C04'
RUNS = {'quick': 3000, 'thorough': 40000}
RULE = ('one run = one history of arrivals, forks, sets and flushes on one simulated disk with '
        'the process exiting and the file being opened again at random points; after every open '
        'everything the store answers is compared with the reference; non-trivial: at least one '
        'restart with two or more headers stored; distinct by digest of the event log')
COMPONENTS = fileplan.COMPONENTS
STATE_MEASURE = 'distinct (headers stored, branches, best work) of compared stores'
MUST_PROBE = ('restarts', 'forks at a restart', 'bulk headers',
              'as many chains as small integers hold', 'deeply nested forks')


def generate(rng, tier, index):
    if index == 11 or tier == 'thorough' and index % 5000 == 11:
        return {'cfg': {}, 'ops': [{'op': 'wide', 'n': rng.choice((65537, 65540, 65800)),
                                    'seed': rng.randrange(1000)}]}
    if index % 400 == 29:
        return {'cfg': {}, 'ops': [
            {'op': 'deep', 'n': rng.choice((300, 1100, 1500)), 'seed': rng.randrange(1000),
             'lead': rng.choice((1, 1, 2, 3))}]}
    cfg = fileplan.base_cfg(rng)
    blocks = rng.choice((3, 10, 30, 60 if tier == 'quick' else 200))
    ops, net = fileplan.history(rng, cfg, blocks, flush=rng.choice((0, 0.1)),
                                restart=rng.choice((0.05, 0.2, 0.5)), sets=rng.choice((0, .1, .3)),
                                trim=rng.choice((0, 0, 0.1)))
    cfg['earlier'] = rng.random() < 0.15 and rng.choice((1, 8, 300, 5000))
    cfg['net'] = net.faults
    return {'cfg': cfg, 'ops': ops}


def simplify_op(op):
    yield from huge.simplify_op(op)
    yield from fileplan.simplify_op(op)


class Run(FileRun):

    def op_restart(self, op):
        node = self.node
        if node.headers is None:
            return super().op_restart(op)
        before = node.disk.get_file(node.path)
        self.node.stop()
        if len(node.ref.log) > 1:
            self.ctx.nontrivial = True
        self.ctx.probe('restarts')
        self.ctx.probe('forks at a restart', len(node.ref.branches) - 1)
        status, _ = self.try_open(None)
        after = node.disk.get_file(node.path)
        check(held(before) == held(after), 'open-altered', 'opening altered the stored headers')
        self.settle()
        return status


def held(content):
    '''The bytes that matter: bookkeeping and the headers counted.'''
    n = int.from_bytes(content[4:8], 'little')
    return digest(content[:8 + 80 * n])


def execute(plan, ctx):
    if plan['ops'] and plan['ops'][0]['op'] in ('wide', 'deep'):
        huge.run(Installation().bx, ctx, plan['ops'][0], read_back=True)
        return
    run = Run(plan, ctx)
    if plan['cfg'].get('earlier'):
        # An earlier file of something else is there
        run.node.disk.put_file(run.node.path, b'\x55' * plan['cfg']['earlier'])
    run.run()
