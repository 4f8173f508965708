'''C10: parsing a stream yields exactly what was sent, or an error, never garbage.'''

import mmap
import random
import struct
from io import BytesIO

from ..core import Violation, check, describe, det_bytes, digest, short
from ..disk import SimCrash, SimDisk
from ..loader import Installation
from ..streams import SimStream

ID = 'C10'
RUNS = {'quick': 12000, 'thorough': 150000}
RULE = ('one run = a sequence of encoded values (integers, varints, byte strings, lists, inputs, '
        'outputs, transactions) read back from one simulated stream, memory map or file which '
        'may end early, deliver a short read or fail at any call; values and positions are '
        'compared with what was encoded by an independent encoder; non-trivial: at least one '
        'fault fired or five values read; distinct by digest of the event log')
COMPONENTS = {'real': ['packing readers', 'Tx.read', 'TxInput.read', 'TxOutput.read', 'Script'],
              'stub': ['the stream (connection, file or memory map)']}
STATE_MEASURE = 'distinct (kind of value, fault fired, outcome)'
MUST_PROBE = ('read back', 'end of stream', 'short read', 'stream error', 'retried',
              'short file read', 'from bytes', 'ends after a round part')

INTS = {'le_int32': '<i', 'le_int64': '<q', 'le_uint16': '<H', 'le_uint32': '<I',
        'le_uint64': '<Q', 'be_uint16': '>H', 'be_uint32': '>I', 'be_uint64': '>Q'}


def varint(n, wide=0):
    '''wide: 1-3 to use a longer form than needed.'''
    if wide:
        forms = [x for x in ((b'\xfd', '<H', 16), (b'\xfe', '<I', 32), (b'\xff', '<Q', 64))
                 if n < 1 << x[2]]
        head, fmt, _ = forms[wide % len(forms)]
        return head + struct.pack(fmt, n)
    if n < 253:
        return bytes([n])
    if n < 1 << 16:
        return b'\xfd' + struct.pack('<H', n)
    if n < 1 << 32:
        return b'\xfe' + struct.pack('<I', n)
    return b'\xff' + struct.pack('<Q', n)


def some_int(rng, fmt):
    size = struct.calcsize(fmt) * 8
    signed = fmt[1] in 'iq'
    lo, hi = (-(1 << size - 1), (1 << size - 1) - 1) if signed else (0, (1 << size) - 1)
    return rng.choice((lo, hi, 0, 1, rng.randint(lo, hi), rng.randint(0, 300)))


def wide(seed):
    '''Whether (and how) the count belonging to seed is in a longer form than needed.'''
    h = det_bytes(2, 'wide', seed)
    return h[1] % 3 + 1 if h[0] < 20 else 0


def some_len(rng):
    return rng.choice((0, 1, 5, 32, 75, 76, 107, 252, 253, 254, 255, 256, rng.randrange(600),
                       rng.choice((65535, 65536, 66000)) if rng.random() < 0.05 else 20))


def some_count(rng):
    return rng.choice((0, 1, 1, 2, 3, 5, 252, 253, 300) if rng.random() < 0.1 else (0, 1, 1, 2, 3))


def gen_value(rng, depth=0):
    kinds = list(INTS) + ['varint', 'varbytes'] * 3 + ['txin', 'txout'] * 2 + ['tx'] * 6
    if depth == 0:
        kinds += ['list'] * 4
    k = rng.choice(kinds)
    if k in INTS:
        return [k, some_int(rng, INTS[k])]
    if k == 'varint':
        return [k, rng.choice((0, 1, 252, 253, 254, 255, 256, 65535, 65536, 1 << 31, (1 << 32) - 1,
                               1 << 32, (1 << 64) - 1, rng.getrandbits(rng.randint(1, 64)))),
                rng.choice((0, 0, 0, 1, 2, 3))]
    if k == 'varbytes':
        return [k, some_len(rng), rng.getrandbits(30)]
    if k == 'txin':
        return [k, rng.getrandbits(30), some_len(rng)]
    if k == 'txout':
        return [k, rng.getrandbits(30), some_len(rng)]
    if k == 'tx':
        return [k, rng.getrandbits(30), [some_len(rng) for _ in range(some_count(rng))],
                [some_len(rng) for _ in range(some_count(rng))]]
    inner = gen_value(rng, 1)
    n = some_count(rng)
    return ['list', inner, n]


def big_value(rng):
    '''Something larger than any buffer or plausible limit.'''
    k = rng.choice(('varbytes', 'txout', 'txin', 'list', 'list', 'tx'))
    n = rng.choice((65534, 65535, 65536, 65537, 70000, 100001))
    size = rng.choice((70000, 131072, 1 << 20, (1 << 20) + 1, 3_000_000))
    if k in ('varbytes', 'txout', 'txin'):
        return [k, size, rng.getrandbits(30)] if k == 'varbytes' else [k, rng.getrandbits(30), size]
    if k == 'list':
        return ['list', gen_small(rng), n]
    return [k, rng.getrandbits(30), [0, size], [3, size // 2]]


def gen_small(rng):
    return rng.choice((['le_uint16', rng.getrandbits(16)], ['varint', rng.choice((5, 300))],
                       ['varbytes', rng.randrange(4), 1], ['txout', rng.getrandbits(30), 1]))


def generate(rng, tier, index):
    ops = []
    big = index % 40 == 17
    for _ in range(rng.choice((1, 2)) if big else rng.choice((1, 3, 8))):
        op = {'op': 'read', 'v': big_value(rng) if big and not ops else gen_value(rng)}
        r = rng.random() * (0.65 if big else 1)
        if r < 0.2:
            op['fault'] = {'do': 'short', 'call': rng.randrange(rng.choice((1, 2, 6, 20))),
                           'pick': rng.getrandbits(20)}
        elif r < 0.4:
            op['fault'] = {'do': 'err', 'call': rng.randrange(rng.choice((1, 2, 6, 20))),
                           'pick': rng.getrandbits(20)}
        elif r < 0.6:
            op['fault'] = {'do': 'end', 'pick': rng.getrandbits(20)}
        elif r < 0.7:
            op['raw'] = rng.choice((0, 1, 9))
        if big and 'fault' in op and rng.random() < 0.6:
            # The stream stops after a round part of the data
            op['fault']['unit'] = rng.choice((4096, 65536, 65536, 1 << 20))
            if op['fault']['do'] == 'short' and rng.random() < 0.7:
                op['fault']['call'] = rng.choice((1, 2, 4, 5))
        ops.append(op)
    cfg = {'stream': rng.choice(('sim', 'sim', 'sim', 'sim-ba', 'bytesio', 'mmap', 'file',
                                 'rawfile')),
           'pad': rng.choice((0, 0, 3, 1000))}
    return {'cfg': cfg, 'ops': ops}


# -- independent encoding; the decoded form uses plain values

def encode(v):
    k = v[0]
    if k in INTS:
        return struct.pack(INTS[k], v[1]), v[1]
    if k == 'varint':
        return varint(v[1], v[2] if len(v) > 2 else 0), v[1]
    if k == 'varbytes':
        data = det_bytes(v[1], 'vb', v[2])
        return varint(len(data), wide(v[2])) + data, data
    if k == 'txin':
        rng = random.Random(v[1])
        script = det_bytes(v[2], 'si', v[1])
        # The input of a coinbase transaction spends nothing
        prev = bytes(32) if v[1] % 5 == 0 else det_bytes(32, 'ph', v[1])
        idx, seq = rng.choice((0, 1, 0xffffffff, rng.getrandbits(32))), rng.choice(
            (0xffffffff, 0, rng.getrandbits(32)))
        return (prev + struct.pack('<I', idx) + varint(len(script), wide(v[1])) + script +
                struct.pack('<I', seq)), (prev, idx, script, seq)
    if k == 'txout':
        rng = random.Random(v[1])
        script = det_bytes(v[2], 'so', v[1])
        value = rng.choice((0, 1, 21_000_000 * 10**8, -1, rng.getrandbits(60)))
        return struct.pack('<q', value) + varint(len(script), wide(v[1])) + script, (value, script)
    if k == 'tx':
        rng = random.Random(v[1])
        version = rng.choice((1, 2, -1, rng.randint(-1 << 31, (1 << 31) - 1)))
        locktime = rng.choice((0, 0xffffffff, rng.getrandbits(32)))
        ins = [encode(['txin', v[1] + i, n]) for i, n in enumerate(v[2])]
        outs = [encode(['txout', v[1] + i, n]) for i, n in enumerate(v[3])]
        raw = (struct.pack('<i', version) + varint(len(ins), wide(v[1] + 1)) +
               b''.join(r for r, _ in ins) + varint(len(outs), wide(v[1] + 2)) +
               b''.join(r for r, _ in outs) + struct.pack('<I', locktime))
        return raw, (version, [d for _, d in ins], [d for _, d in outs], locktime)
    if k == 'list':
        raw, dec = encode(v[1])
        return varint(v[2]) + raw * v[2], [dec] * v[2]
    raise ValueError(k)


def payload(v, raw):
    '''Where the data proper of a value begin.'''
    if v[0] == 'varbytes':
        return len(raw) - v[1]
    if v[0] == 'txin':
        return len(raw) - 4 - v[2]
    if v[0] == 'txout':
        return len(raw) - v[2]
    if v[0] == 'list':
        return len(raw) - v[2] * len(encode(v[1])[0])
    return 0


def reader(bx, v):
    k = v[0]
    if k in INTS:
        return getattr(bx, f'read_{k}')
    if k == 'varint':
        return bx.read_varint
    if k == 'varbytes':
        return bx.read_varbytes
    if k == 'txin':
        return bx.TxInput.read
    if k == 'txout':
        return bx.TxOutput.read
    if k == 'tx':
        return bx.Tx.read
    inner = reader(bx, v[1])
    return lambda read: bx.read_list(read, inner)


def plain(v, got):
    '''What was read, as plain values.'''
    k = v[0]
    if k == 'txin':
        return (bytes(got.prev_hash), got.prev_idx, bytes(got.script_sig), got.sequence)
    if k == 'txout':
        return (got.value, bytes(got.script_pubkey))
    if k == 'tx':
        return (got.version, [plain(['txin'], i) for i in got.inputs],
                [plain(['txout'], o) for o in got.outputs], got.locktime)
    if k == 'list':
        return [plain(v[1], x) for x in got]
    if k == 'varbytes':
        return bytes(got)
    return got


class FileStream:
    '''A simulated file (buffered, unbuffered or mapped) positioned at an offset.'''

    def __init__(self, disk, kind, data, pos, end, fault):
        path = disk.root + 'stream'
        disk.begin_op(None)
        if end is not None:
            data = data[:end]
        disk.put_file(path, data)
        self.fired = self.error = None
        self.disk = disk
        if kind == 'mmap' and data:
            with open(path, 'rb+') as f:
                self.f = mmap.mmap(f.fileno(), 0)
        else:
            self.f = open(path, 'rb', buffering=0 if kind == 'rawfile' else -1)
        self.f.seek(pos)
        self.read = self.f.read
        if end is not None:
            self.fired = 'end of stream'
        if fault and fault['do'] in ('short', 'err') and kind != 'mmap':
            disk.begin_op({'at': fault['call'], 'do': fault['do'], 'kind': 'read',
                           'pick': fault['pick']})

    @property
    def pos(self):
        return self.f.tell()

    def done(self):
        fired = self.disk.end_op()
        if fired and self.fired is None:
            self.fired = 'short file read' if fired[0] == 'short' else 'file error'
        self.f.close()


class Sim(SimStream):
    def done(self):
        pass


class Mem:
    def __init__(self, data, pos, end):
        self.f = BytesIO(data if end is None else data[:end])
        self.f.seek(pos)
        self.read = self.f.read
        self.fired = 'end of stream' if end is not None else None
        self.error = None

    @property
    def pos(self):
        return self.f.tell()

    def done(self):
        pass


def execute(plan, ctx):
    bx = Installation().bx
    cfg = plan['cfg']
    ops = plan['ops']
    enc = [encode(op['v']) for op in ops]
    pad = det_bytes(cfg['pad'], 'pad', plan['seed'])
    data = b''.join(raw for raw, _ in enc) + pad
    disk = SimDisk('n0', ctx)
    kind = cfg['stream']

    def stream(pos, end=None, fault=None):
        if kind in ('sim', 'sim-ba'):
            return Sim(data, pos, end, fault, bytes if kind == 'sim' else bytearray)
        if kind == 'bytesio':
            return Mem(data, pos, end)
        return FileStream(disk, kind, data, pos, end, fault)

    pos = 0
    good = 0
    for op, (raw, want) in zip(ops, enc):
        ctx.step()
        v = op['v']
        read_one = reader(bx, v)
        fault = op.get('fault')
        if 'raw' in op and v[0] in ('tx', 'txin', 'txout'):
            from_bytes(bx, v, raw, want, op['raw'], ctx)
        if fault:
            end = None
            if fault['do'] == 'end':
                end = pos + fault['pick'] % max(len(raw), 1)
                if fault.get('unit'):
                    first = pos + payload(v, raw)
                    parts = (pos + len(raw) - 1 - first) // fault['unit']
                    if parts > 0:
                        end = first + fault['unit'] * (1 + fault['pick'] % parts)
                        ctx.probe('ends after a round part')
            s = stream(pos, end, fault if fault['do'] != 'end' else None)
            got = exc = None
            try:
                got = read_one(s.read)
                ok = True
            except SimCrash:
                raise
            except BaseException as e:
                if type(e).__name__ == 'NoProgress':
                    raise
                ok, exc = False, e
            stop = None
            if ok:
                stop = s.pos
            s.done()
            if s.fired:
                ctx.fault(s.fired)
                ctx.probe(s.fired)
            ctx.log('read', v[0], s.fired, ok, type(exc).__name__)
            ctx.state(v[0], s.fired, ok)
            if ok:
                # A value was returned: it must be the right one, in full
                check(plain(v, got) == want, 'garbage',
                      lambda: f'{v[0]} read as {short(plain(v, got))} after {s.fired}; sent '
                              f'{short(want)}')
                check(stop == pos + len(raw), 'wrong-consumption',
                      lambda: f'{v[0]} consumed {stop - pos} bytes of {len(raw)} after {s.fired}')
                check(s.fired != 'end of stream', 'garbage',
                      f'{v[0]} was read although the stream ended within it')
            elif s.error is not None:
                check(exc is s.error, 'error-changed',
                      lambda: f'the stream raised {describe(s.error)}, the reader {describe(exc)}')
            elif s.fired == 'file error':
                check(isinstance(exc, OSError), 'error-changed', lambda: describe(exc))
            else:
                check(s.fired is not None, 'spurious-error',
                      lambda: f'{v[0]} raised {describe(exc)} without a fault')
                check(isinstance(exc, Exception), 'spurious-error', lambda: describe(exc))
            ctx.probe('retried')
        # (Re)try on a fresh stream
        s = stream(pos)
        try:
            got = read_one(s.read)
        except Exception as e:
            raise Violation('spurious-error', f'{v[0]} raised {describe(e)} without a fault') from e
        stop = s.pos
        s.done()
        check(plain(v, got) == want, 'wrong-value',
              lambda: f'{v[0]} read as {short(plain(v, got))}; sent {short(want)}')
        check(stop == pos + len(raw), 'wrong-consumption',
              lambda: f'{v[0]} consumed {stop - pos} bytes of {len(raw)}')
        ctx.log('value', v[0], digest(raw))
        ctx.probe('read back')
        good += 1
        pos += len(raw)
    # All of them from one stream, one after another
    s = stream(0)
    for op, (raw, want) in zip(ops, enc):
        got = reader(bx, op['v'])(s.read)
        check(plain(op['v'], got) == want, 'wrong-value', 'in sequence')
    check(s.pos == len(data) - len(pad), 'wrong-consumption', 'in sequence')
    check(s.read(len(pad) + 1) == pad, 'wrong-consumption', 'following bytes')
    s.done()
    if good >= 5:
        ctx.nontrivial = True


def from_bytes(bx, v, raw, want, cut, ctx):
    cls = {'tx': bx.Tx, 'txin': bx.TxInput, 'txout': bx.TxOutput}[v[0]]
    ctx.probe('from bytes')
    for data, good in ((raw, True), (raw[:max(0, len(raw) - 1 - cut)], False)):
        for how in (lambda: cls.from_bytes(data), lambda: cls.from_hex(data.hex())):
            try:
                got = how()
            except Exception as e:
                check(not good, 'spurious-error', lambda: describe(e))
                continue
            check(good, 'garbage', lambda: f'{v[0]} read from {len(data)} of {len(raw)} bytes')
            check(plain(v, got) == want, 'wrong-value', 'from bytes')
