'''C05: a process death at any instant never loses accepted headers or the store.'''

from ..filesim import FileRun
from . import fileplan
from .fileplan import simplify_cfg, simplify_op  # noqa

ID = 'C05'
RUNS = {'quick': 4000, 'thorough': 60000}
RULE = ('one run = one history on one simulated disk in which the process dies at planned disk '
        'events (any file operation or any store into the memory map, stores torn in 16-byte '
        'pieces), including during creation, growth, recovery and recovery from recovery; after '
        'each death the file is opened again and compared with the reference; non-trivial: at '
        'least one death happened; distinct by digest of the event log')
COMPONENTS = fileplan.COMPONENTS
STATE_MEASURE = 'distinct (headers stored, branches, best work) of compared stores'
MUST_PROBE = ('in-flight header lost', 'trimmed files', 'faults while growing a long file')


def generate(rng, tier, index):
    cfg = fileplan.base_cfg(rng)
    blocks = rng.choice((2, 5, 12, 30 if tier == 'quick' else 80))
    ops, net = fileplan.history(rng, cfg, blocks, restart=rng.choice((0.05, 0.2)),
                                flush=rng.choice((0, 0.1)), trim=rng.choice((0, 0, 0.05, 0.15)),
                                bulk=0.06, grow=lambda k: fileplan.crash_fault(rng, k))
    fileplan.add_faults(rng, ops, rng.choice((0.05, 0.15, 0.4)),
                        lambda k: fileplan.crash_fault(rng, k))
    # Deaths while opening, several in a row
    n = len(ops)
    for _ in range(rng.choice((0, 1, 3))):
        at = rng.choice((0, rng.randint(0, n)))
        for _ in range(rng.choice((1, 1, 2, 4))):
            ops.insert(at, {'op': 'restart', 'fault': fileplan.crash_fault(rng, 'restart')})
    for _ in range(rng.choice((0, 1, 2))):
        ops.insert(rng.randint(0, n), {'op': 'kill'})
    cfg['net'] = net.faults
    return {'cfg': cfg, 'ops': ops}


def execute(plan, ctx):
    FileRun(plan, ctx).run()
