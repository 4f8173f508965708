'''C06: after power loss the store opens and holds every flushed header.'''

from ..filesim import FileRun
from . import fileplan
from .fileplan import simplify_cfg, simplify_op  # noqa

ID = 'C06'
RUNS = {'quick': 7000, 'thorough': 60000}
RULE = ('one run = one history on one simulated disk which loses power between or in the middle '
        'of operations; every 512-byte sector written since its last sync independently keeps '
        'any of its versions, and so do the file size and the directory; non-trivial: at least '
        'one loss of power; distinct by digest of the event log')
COMPONENTS = fileplan.COMPONENTS
STATE_MEASURE = 'distinct (headers stored, branches, best work) of compared stores'
MUST_PROBE = ('unsynced things lost', 'accepted unflushed headers lost',
              'faults while growing a long file')


def generate(rng, tier, index):
    cfg = fileplan.base_cfg(rng)
    blocks = rng.choice((3, 8, 20, 40 if tier == 'quick' else 100))
    ops, net = fileplan.history(rng, cfg, blocks, restart=rng.choice((0, 0.05)),
                                flush=rng.choice((0.03, 0.1, 0.3)), bulk=0.04,
                                grow=lambda k: fileplan.crash_fault(rng, k, power=True))
    fileplan.add_faults(rng, ops, rng.choice((0, 0.03, 0.1)),
                        lambda k: fileplan.crash_fault(rng, k, power=rng.random() < 0.8))
    for _ in range(rng.choice((1, 2, 4))):
        at = rng.randint(0, len(ops))
        for _ in range(rng.choice((1, 1, 2))):
            ops.insert(at, {'op': 'power', 'mode': rng.choice(fileplan.POWER_MODES),
                            's': rng.getrandbits(30)})
            if rng.random() < 0.3:
                ops.insert(at + 1, {'op': 'restart',
                                    'fault': fileplan.crash_fault(rng, 'restart', power=True)})
    cfg['net'] = net.faults
    return {'cfg': cfg, 'ops': ops}


def execute(plan, ctx):
    FileRun(plan, ctx).run()
