'''C07: an I/O failure surfaces as an error and leaves the header store usable.'''

from ..core import check, describe
from ..filesim import FileRun
from . import fileplan
from .fileplan import simplify_cfg, simplify_op  # noqa

ID = 'C07'
RUNS = {'quick': 4500, 'thorough': 60000}
RULE = ('one run = one history on one simulated disk in which planned system calls fail once or '
        'for a while (no space, I/O error, no descriptors, no memory, permission, read-only, '
        'short reads and writes); after each failure the running store is compared with the '
        'reference, failed operations are retried, and the file is reopened; non-trivial: at '
        'least one failure fired; distinct by digest of the event log')
COMPONENTS = fileplan.COMPONENTS
STATE_MEASURE = 'distinct (headers stored, branches, best work) of compared stores'
MUST_PROBE = ('connect failed', 'open failed', 'flush failed', 'retried',
              'trimmed files', 'faults while growing a long file')

WINDOWS = (
    (('create', 'write', 'truncate'), 'ENOSPC'),
    (('open', 'create'), 'EMFILE'),
    (('open', 'create', 'truncate', 'write'), 'EROFS'),
    (('open', 'create'), 'EACCES'),
    (('mmap', 'mremap'), 'ENOMEM'),
    (('msync', 'fsync'), 'EIO'),
    (('read', 'write', 'msync', 'fsync', 'truncate'), 'EIO'),
    (('truncate',), 'EFBIG'),
)


def generate(rng, tier, index):
    cfg = fileplan.base_cfg(rng)
    blocks = rng.choice((2, 5, 12, 30 if tier == 'quick' else 80))
    ops, net = fileplan.history(rng, cfg, blocks, restart=rng.choice((0.05, 0.2)),
                                flush=rng.choice((0.05, 0.2)), trim=rng.choice((0, 0, 0.05, 0.15)),
                                bulk=0.06, grow=lambda k: fileplan.err_fault(rng, k))
    fileplan.add_faults(rng, ops, rng.choice((0.05, 0.2, 0.5)),
                        lambda k: fileplan.err_fault(rng, k))
    out = []
    first = True
    for op in ops:
        if op['op'] == 'connect' and first and rng.random() < 0.6:
            # The first acceptance after creation is the one that grows the file
            first = False
            op = dict(op, fault=dict(fileplan.err_fault(rng, 'connect'), at=rng.randrange(6)))
        out.append(op)
        if 'fault' in op and op['op'] != 'restart' and rng.random() < 0.6:
            again = {k: v for k, v in op.items() if k != 'fault'}
            again['retry'] = 1
            if rng.random() < 0.3:
                again['fault'] = fileplan.err_fault(rng, op['op'])
            out.append(again)
    n = len(out)
    for _ in range(rng.choice((0, 1, 3))):
        at = rng.choice((0, rng.randint(0, n)))
        for _ in range(rng.choice((1, 1, 2, 4))):
            out.insert(at, {'op': 'restart', 'fault': fileplan.err_fault(rng, 'restart')})
    for _ in range(rng.choice((0, 1, 2))):
        kinds, errno = rng.choice(WINDOWS)
        at = rng.choice((0, rng.randint(0, len(out))))
        end = min(len(out), at + rng.choice((1, 3, 10)))
        out.insert(end, {'op': 'heal'})
        out.insert(at, {'op': 'window', 'kinds': kinds, 'errno': errno})
        if rng.random() < 0.5:
            out.insert(at + 1, {'op': 'restart'})
    if rng.random() < 0.1:
        at = rng.randint(0, len(out))
        out.insert(min(len(out), at + rng.choice((1, 4))), {'op': 'fds', 'n': None})
        out.insert(at, {'op': 'fds', 'n': 0})
    cfg['net'] = net.faults
    return {'cfg': cfg, 'ops': out}


class Run(FileRun):

    def try_open(self, fault=None):
        disk, path = self.node.disk, self.node.path
        before = disk.get_file(path)
        status, err = super().try_open(fault)
        if status == 'oserror':
            self.ctx.probe('open failed')
            if before is not None and len(self.node.ref.log) > 1:
                after = disk.get_file(path)
                check(after is not None and len(after) >= len(before) and
                      after[:len(before)] == before, 'file-destroyed',
                      lambda: f'opening failed ({describe(err)}) and altered the good file')
        return status, err

    def op_connect(self, op):
        status = super().op_connect(op)
        if op.get('retry'):
            self.ctx.probe('retried')
        if status == 'oserror':
            self.ctx.probe('connect failed')
        return status

    def op_flush(self, op):
        status = super().op_flush(op)
        if status == 'oserror':
            self.ctx.probe('flush failed')
        return status

    def op_fds(self, op):
        self.node.disk.fd_limit = op['n']
        if op['n'] is not None:
            self.ctx.fault('no file descriptors left')

    def finish(self):
        self.node.disk.fd_limit = None
        super().finish()


def execute(plan, ctx):
    Run(plan, ctx).run()
