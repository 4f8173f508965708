'''A simulated disk.

Every node of a simulated world has one SimDisk, reachable under /simdisk/<node>/.  File
contents live in memfds, so real memory maps of them work; every operation that changes or
synchronises a file is an event that the fault plan can fail, shorten, tear or die at.

Process death:  file contents survive exactly as they are (page cache); every open handle
and memory map of the dead process becomes inert.

Power loss:  for each 512-byte sector written since it was last synchronised the plan picks
which of its versions reached the platter, and likewise for the file size and for the
directory operations (a prefix of them; any successful sync of a file commits them).
'''

import errno as E
import io
import mmap as _mmap
import os
import random
import stat as _stat

SIM_ROOT = '/simdisk'
SECTOR = 512

REAL = {name: getattr(os, name) for name in (
    'open', 'close', 'read', 'write', 'pread', 'pwrite', 'lseek', 'ftruncate', 'truncate',
    'fsync', 'fdatasync', 'stat', 'lstat', 'fstat', 'rename', 'replace', 'remove', 'unlink',
    'listdir', 'scandir', 'mkdir', 'makedirs', 'rmdir', 'access', 'dup', 'link',
    'posix_fallocate', 'sync', 'chmod', 'utime', 'get_blocking', 'readv', 'writev', 'preadv',
    'pwritev',
)}
RealMmap = _mmap.mmap

# fd -> SimRaw handle, for all disks
FDS = {}
# node name -> SimDisk
DISKS = {}


class YIELD:
    '''Replaced by the seam: where another simulated thread may run.'''
    yield_point = None




class SimCrash(BaseException):
    '''The simulated process has died.  Not an Exception: library code cannot handle it.'''


class Inode:
    _count = 0

    def __init__(self, content=b''):
        self.fd = os.memfd_create('sim')
        if content:
            REAL['pwrite'](self.fd, content, 0)
        self.pending = {}       # sector -> [(seq, bytes), ...]; the first is the synced one
        self.sizes = [(0, len(content))]
        self.nlink_dead = False

    def size(self):
        return REAL['fstat'](self.fd).st_size

    def read(self, off, n):
        return REAL['pread'](self.fd, n, off)

    def content(self):
        size = self.size()
        return REAL['pread'](self.fd, size, 0) if size else b''

    def _sector(self, s):
        data = REAL['pread'](self.fd, SECTOR, s * SECTOR)
        return data + bytes(SECTOR - len(data))

    def before(self, off, n):
        for s in range(off // SECTOR, (off + max(n, 1) - 1) // SECTOR + 1):
            if s not in self.pending:
                self.pending[s] = [(0, self._sector(s))]

    def after(self, off, n, seq):
        for s in range(off // SECTOR, (off + max(n, 1) - 1) // SECTOR + 1):
            data = self._sector(s)
            versions = self.pending[s]
            if versions[-1][1] != data:
                versions.append((seq, data))

    def note_size(self, seq):
        size = self.size()
        if self.sizes[-1][1] != size:
            self.sizes.append((seq, size))

    def data_sectors(self, start):
        '''Sectors at or beyond byte start which hold data.'''
        result = []
        pos = start
        size = self.size()
        while pos < size:
            try:
                pos = REAL['lseek'](self.fd, pos, os.SEEK_DATA)
            except OSError:
                break
            end = REAL['lseek'](self.fd, pos, os.SEEK_HOLE)
            result.extend(range(pos // SECTOR, (end + SECTOR - 1) // SECTOR))
            pos = end
        return sorted(set(result))

    def set_size(self, size, seq):
        old = self.size()
        if size < old:
            touched = self.data_sectors(size - size % SECTOR)
            for s in touched:
                self.before(s * SECTOR, 1)
            REAL['ftruncate'](self.fd, size)
            for s in touched:
                self.after(s * SECTOR, 1, seq)
        else:
            REAL['ftruncate'](self.fd, size)
        self.note_size(seq)

    def pwrite(self, off, data, seq):
        if not data:
            return
        self.before(off, len(data))
        REAL['pwrite'](self.fd, data, off)
        self.after(off, len(data), seq)
        self.note_size(seq)

    def synced(self, off=0, n=None):
        if n is None:
            self.pending.clear()
        else:
            for s in range(off // SECTOR, (off + max(n, 1) - 1) // SECTOR + 1):
                self.pending.pop(s, None)
        self.sizes = [(0, self.size())]

    def unsynced(self):
        return sum(len(v) > 1 for v in self.pending.values()) + (len(self.sizes) > 1)

    def lose_power(self, choose_sector, choose_size):
        sizes = self.sizes
        size = sizes[choose_size(sizes)][1]
        lost = 0
        for s in sorted(self.pending):
            versions = self.pending[s]
            k = choose_sector(s, versions)
            if k != len(versions) - 1:
                lost += 1
            REAL['pwrite'](self.fd, versions[k][1], s * SECTOR)
        if size != sizes[-1][1]:
            lost += 1
        REAL['ftruncate'](self.fd, size)
        self.pending.clear()
        self.sizes = [(0, size)]
        return lost

    def destroy(self):
        if self.fd is not None:
            REAL['close'](self.fd)
            self.fd = None


ERRNOS = {
    'open': ('EMFILE', 'ENFILE', 'EACCES', 'EIO', 'ENOMEM', 'EROFS', 'EPERM'),
    'create': ('ENOSPC', 'EMFILE', 'EACCES', 'EIO', 'EROFS', 'EDQUOT'),
    'read': ('EIO',),
    'write': ('ENOSPC', 'EIO', 'EDQUOT', 'EFBIG'),
    'truncate': ('ENOSPC', 'EIO', 'EFBIG', 'EDQUOT', 'EPERM'),
    'mmap': ('ENOMEM', 'ENODEV', 'EAGAIN', 'ENFILE', 'EACCES'),
    'msync': ('EIO', 'ENOMEM', 'ENOSPC'),
    'fsync': ('EIO', 'ENOSPC', 'EDQUOT'),
    'close': ('EIO', 'ENOSPC', 'EDQUOT'),
    'rename': ('EIO', 'EACCES', 'ENOSPC'),
    'unlink': ('EIO', 'EACCES', 'EPERM'),
    'stat': ('EIO', 'EACCES'),
    'mremap': ('ENOMEM',),
    'seek': (),
}


class SimDisk:

    def __init__(self, node, ctx=None):
        self.node = node
        self.root = f'{SIM_ROOT}/{node}/'
        self.ctx = ctx
        self.names = {}
        self.dir_inode = None
        self.ns_log = [(0, {})]
        self.inodes = []
        self.gen = 0
        self.dead = False
        self.seq = 0
        self.op_events = 0
        self.op_kinds = []
        self.armed = None
        self.fired = None
        self.window = None
        self.window_fired = 0
        self.quiet = False
        self.locale = 'utf-8'
        self.missing = set()     # data files withheld
        self.fd_limit = None
        DISKS[node] = self

    # -- life cycle

    def shutdown(self):
        self.gen += 1
        self.dead = True
        for fd, handle in list(FDS.items()):
            if handle.disk is self:
                handle._drop()
        for inode in self.inodes:
            inode.destroy()
        self.inodes = []
        DISKS.pop(self.node, None)

    def begin_op(self, fault=None):
        '''Start a new operation; fault is armed within it.'''
        self.op_events = 0
        self.op_kinds = []
        self.armed = dict(fault) if fault else None
        self.fired = None

    def end_op(self):
        self.armed = None
        return self.fired

    def process_death(self):
        '''The process is gone; whatever it wrote is in the page cache.'''
        self.gen += 1
        self.dead = False
        self.armed = None
        for fd, handle in list(FDS.items()):
            if handle.disk is self:
                handle._drop()

    def power_loss(self, mode, seed):
        '''The machine loses power; returns the number of things lost.'''
        rng = random.Random(f'{mode}:{seed}')
        self.process_death()
        # Directory operations: a prefix survives
        snaps = self.ns_log
        allpend = []
        for inode in self.inodes:
            if inode.fd is None:
                continue
            for s in sorted(inode.pending):
                if len(inode.pending[s]) > 1:
                    allpend.append((inode, s))
        cut = None
        seqs = sorted({q for inode, s in allpend for q, _ in inode.pending[s]}
                      | {q for inode in self.inodes for q, _ in inode.sizes}
                      | {q for q, _ in snaps})
        if mode == 'prefix' and seqs:
            cut = rng.choice(seqs)
        special = rng.choice(allpend) if allpend else None

        def choose(versions, who=None):
            last = len(versions) - 1
            if mode == 'none':
                return 0
            if mode == 'all':
                return last
            if mode == 'prefix':
                k = 0
                for n, (q, _) in enumerate(versions):
                    if q <= cut:
                        k = n
                return k
            if mode == 'lose-one':
                return rng.randrange(last) if (who == special and last) else last
            if mode == 'keep-one':
                return last if who == special else 0
            if mode == 'mostly':
                return last if rng.random() < 0.7 else rng.randint(0, last)
            return rng.randint(0, last)

        lost = 0
        k = choose(snaps) if mode not in ('lose-one', 'keep-one') else (
            len(snaps) - 1 if rng.random() < 0.8 else rng.randrange(len(snaps)))
        if k != len(snaps) - 1:
            lost += 1
        self.names = dict(snaps[k][1])
        self.ns_log = [(0, dict(self.names))]
        for inode in self.inodes:
            if inode.fd is None:
                continue
            def choose_sector(s, versions, inode=inode):
                return choose(versions, (inode, s))

            def choose_size(sizes):
                if mode in ('lose-one', 'keep-one'):
                    return len(sizes) - 1 if rng.random() < 0.85 else rng.randrange(len(sizes))
                return choose(sizes)
            lost += inode.lose_power(choose_sector, choose_size)
        return lost

    # -- events

    def check_alive(self, gen):
        if self.dead or gen != self.gen:
            raise SimCrash()

    def event(self, kind, gen, off=0, n=0, tear=None):
        '''Announce something about to happen.

        Returns None to go ahead, or ('short', k).  Raises OSError or SimCrash.  tear(mask)
        applies part of a store when the process dies in the middle of it.'''
        self.check_alive(gen)
        if YIELD.yield_point is not None:
            YIELD.yield_point(kind)
        if self.quiet:
            return None
        self.seq += 1
        self.op_events += 1
        self.op_kinds.append(kind)
        if self.ctx is not None:
            self.ctx.log('ev', self.node, kind, off, n)
        w = self.window
        if w is not None and kind in w['kinds']:
            self.window_fired += 1
            if self.ctx is not None:
                self.ctx.fault(f'{w["errno"]} on {kind} (persistent)')
            raise OSError(getattr(E, w['errno']), os.strerror(getattr(E, w['errno'])))
        a = self.armed
        if a is None:
            return None
        only = a.get('kind')
        if only is not None and only != kind or a.get('but') == kind:
            return None
        if a['at'] > 0:
            a['at'] -= 1
            return None
        do = a['do']
        if do == 'crash':
            self.armed = None
            torn = False
            if tear is not None and a.get('tear'):
                torn = tear(a['tear'])
            self.fired = ('crash', kind, torn)
            self.dead = True
            raise SimCrash()
        if do == 'err':
            names = ERRNOS.get(kind, ())
            if not names:
                return None
            self.armed = None
            name = a.get('errno')
            if name not in names:
                name = names[a.get('pick', 0) % len(names)]
            self.fired = ('err', kind, name)
            if self.ctx is not None:
                self.ctx.fault(f'{name} on {kind}')
            raise OSError(getattr(E, name), os.strerror(getattr(E, name)))
        if do == 'short' and kind in ('write', 'read'):
            self.armed = None
            if n <= 1:
                return None
            self.fired = ('short', kind, n)
            if self.ctx is not None:
                self.ctx.fault(f'short {kind}')
            return ('short', 1 + a.get('pick', 0) % (n - 1))
        return None

    # -- names

    def key(self, path):
        return os.path.normpath(path)

    def _ns_changed(self):
        self.ns_log.append((self.seq, dict(self.names)))

    def committed(self):
        self.ns_log = [(self.seq, dict(self.names))]

    def new_inode(self, content=b''):
        inode = Inode(content)
        self.inodes.append(inode)
        return inode

    def is_dir(self, key):
        return key + '/' == self.root

    def put_file(self, path, content):
        '''Harness: place a (fully durable) file.'''
        old = self.names.get(self.key(path))
        inode = self.new_inode(content)
        inode.synced()
        self.names[self.key(path)] = inode
        self.committed()
        return inode

    def get_file(self, path):
        '''Harness: the current content or None.'''
        inode = self.names.get(self.key(path))
        return None if inode is None else inode.content()

    def open_raw(self, path, flags, mode=0o666):
        gen = self.gen
        key = self.key(path)
        inode = self.names.get(key)
        creating = inode is None and flags & os.O_CREAT
        self.event('create' if creating and not self.is_dir(key) else 'open', gen)
        if self.is_dir(key) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT):
            raise IsADirectoryError(E.EISDIR, os.strerror(E.EISDIR), path)
        if self.fd_limit is not None:
            used = sum(h.disk is self for h in FDS.values())
            if used >= self.fd_limit:
                raise OSError(E.EMFILE, os.strerror(E.EMFILE))
        if self.is_dir(key):
            self.dir_inode = self.dir_inode or self.new_inode()
            return SimDir(self, self.dir_inode, path, flags)
        if inode is None:
            if not flags & os.O_CREAT:
                raise FileNotFoundError(E.ENOENT, os.strerror(E.ENOENT), path)
            inode = self.new_inode()
            self.names[key] = inode
            self._ns_changed()
        elif flags & os.O_CREAT and flags & os.O_EXCL:
            raise FileExistsError(E.EEXIST, os.strerror(E.EEXIST), path)
        if flags & os.O_TRUNC and inode.size():
            self.event('truncate', gen)
            inode.set_size(0, self.seq)
        return SimRaw(self, inode, path, flags)


class SimRaw(io.RawIOBase):
    '''The raw file object (and file descriptor) of an open simulated file.'''

    def __init__(self, disk, inode, path, flags):
        self.disk = disk
        self.inode = inode
        self.path = path
        self.name = path
        self.flags = flags
        self.gen = disk.gen
        self.pos = 0
        self._fd = REAL['dup'](inode.fd)
        acc = flags & (os.O_RDONLY | os.O_WRONLY | os.O_RDWR)
        self._r = acc in (os.O_RDONLY, os.O_RDWR)
        self._w = acc in (os.O_WRONLY, os.O_RDWR)
        self._append = bool(flags & os.O_APPEND)
        self._gone = False
        self.mode = 'rb+' if self._r and self._w else 'wb' if self._w else 'rb'
        FDS[self._fd] = self

    def _drop(self):
        if not self._gone:
            self._gone = True
            FDS.pop(self._fd, None)
            REAL['close'](self._fd)

    def _ok(self):
        if self.closed or self._gone:
            if self.gen != self.disk.gen or self.disk.dead:
                raise SimCrash()
            raise ValueError('I/O operation on closed file')

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def isatty(self):
        return False

    def fileno(self):
        self._ok()
        return self._fd

    def readinto(self, b):
        self._ok()
        if not self._r:
            raise io.UnsupportedOperation('not readable')
        b = memoryview(b).cast('B')
        n = len(b)
        d = self.disk.event('read', self.gen, self.pos, n)
        if d:
            n = min(n, d[1])
        data = self.inode.read(self.pos, n)
        b[:len(data)] = data
        self.pos += len(data)
        return len(data)

    def write(self, b):
        self._ok()
        if not self._w:
            raise io.UnsupportedOperation('not writable')
        data = bytes(memoryview(b).cast('B'))
        if self._append:
            self.pos = self.inode.size()
        pos = self.pos

        def tear(mask):
            # A write() of several pages can be interrupted between pages
            first = 4096 - pos % 4096
            if len(data) <= first:
                return False
            self.inode.pwrite(pos, data[:first], self.disk.seq)
            return True
        d = self.disk.event('write', self.gen, pos, len(data), tear)
        if d:
            data = data[:d[1]]
        self.inode.pwrite(pos, data, self.disk.seq)
        self.pos += len(data)
        return len(data)

    def seek(self, offset, whence=0):
        self._ok()
        if whence == 0:
            pos = offset
        elif whence == 1:
            pos = self.pos + offset
        else:
            pos = self.inode.size() + offset
        if pos < 0:
            raise OSError(E.EINVAL, os.strerror(E.EINVAL))
        self.pos = pos
        return pos

    def tell(self):
        self._ok()
        return self.pos

    def truncate(self, size=None):
        self._ok()
        if not self._w:
            raise io.UnsupportedOperation('truncate')
        if size is None:
            size = self.pos
        self.disk.event('truncate', self.gen, size, 0)
        self.inode.set_size(size, self.disk.seq)
        return size

    def sync(self):
        self._ok()
        self.disk.event('fsync', self.gen)
        self.inode.synced()
        self.disk.committed()

    def close(self):
        if self.closed:
            return
        dead = self._gone or self.disk.dead or self.gen != self.disk.gen
        try:
            super().close()
        finally:
            if not dead:
                try:
                    self.disk.event('close', self.gen)
                finally:
                    self._drop()
            else:
                self._drop()

    def __del__(self):
        # No events from the garbage collector
        try:
            self._drop()
            super().close()
        except BaseException:
            pass


class SimDir(SimRaw):
    '''An open directory: synchronising it commits the names in it.'''

    def readinto(self, b):
        raise IsADirectoryError(E.EISDIR, os.strerror(E.EISDIR), self.path)

    def sync(self):
        self._ok()
        self.disk.event('fsync', self.gen)
        self.disk.committed()


class SimMmap(RealMmap):
    '''A memory map whose stores to a simulated file are events.'''

    def __new__(cls, fileno, length, *args, **kwargs):
        handle = FDS.get(fileno)
        if handle is None:
            return RealMmap(fileno, length, *args, **kwargs)
        disk = handle.disk
        handle._ok()
        disk.event('mmap', handle.gen, 0, length)
        self = super().__new__(cls, fileno, length, *args, **kwargs)
        access = kwargs.get('access', 0)
        if len(args) >= 3:
            access = args[2]
        flags = kwargs.get('flags', args[0] if args else _mmap.MAP_SHARED)
        self._disk = disk
        self._inode = handle.inode
        self._gen = handle.gen
        self._base = kwargs.get('offset', 0)
        self._hooked = access != _mmap.ACCESS_COPY and bool(flags & _mmap.MAP_SHARED)
        return self

    def __init__(self, *args, **kwargs):
        pass

    def _store(self, off, data, do):
        if not self._hooked:
            return do()
        disk, inode = self._disk, self._inode
        n = len(data)

        def tear(mask):
            # A process can be killed in the middle of copying more than a word or two;
            # the copy is made of 16-byte (or so) moves in no particular order.
            if n <= 8:
                return False
            parts = [p for p in range(0, n, 16)]
            done = [p for i, p in enumerate(parts) if mask >> i & 1]
            if not done or len(done) == len(parts):
                return False
            for p in done:
                inode.pwrite(self._base + off + p, bytes(data[p: p + 16]), disk.seq)
            return True
        disk.event('store', self._gen, self._base + off, n, tear)
        inode.before(self._base + off, n)
        result = do()
        inode.after(self._base + off, n, disk.seq)
        return result

    def __setitem__(self, key, value):
        sup = super().__setitem__
        if self.closed or not hasattr(self, '_disk'):
            if hasattr(self, '_disk'):
                self._disk.check_alive(self._gen)
            return sup(key, value)
        size = len(self)
        if isinstance(key, slice):
            start, stop, step = key.indices(size)
            data = bytes(value) if not isinstance(value, int) else b''
            if step != 1 or isinstance(value, int) or max(stop - start, 0) != len(data):
                return sup(key, value)
            if not data:
                return sup(key, value)
            return self._store(start, data, lambda: sup(key, value))
        index = key.__index__()
        if index < 0:
            index += size
        if not 0 <= index < size or not isinstance(value, int) or not 0 <= value < 256:
            return sup(key, value)
        return self._store(index, bytes([value]), lambda: sup(key, value))

    def write(self, data):
        sup = super().write
        data = bytes(data)
        if self.closed or not data or self.tell() + len(data) > len(self):
            return sup(data)
        return self._store(self.tell(), data, lambda: sup(data))

    def write_byte(self, byte):
        sup = super().write_byte
        if self.closed or self.tell() >= len(self):
            return sup(byte)
        return self._store(self.tell(), bytes([byte]), lambda: sup(byte))

    def move(self, dest, src, count):
        sup = super().move
        if self.closed or count <= 0 or max(dest, src) + count > len(self) or min(dest, src) < 0:
            return sup(dest, src, count)
        return self._store(dest, self[src: src + count], lambda: sup(dest, src, count))

    def flush(self, *args):
        sup = super().flush
        if self.closed:
            self._disk.check_alive(self._gen)
            return sup(*args)
        if not self._hooked:
            return sup(*args)
        off = args[0] if args else 0
        n = args[1] if len(args) > 1 else len(self) - off
        result = None
        if off < 0 or n < 0 or off + n > len(self) or off % _mmap.PAGESIZE:
            return sup(*args)
        self._disk.event('msync', self._gen, off, n)
        result = sup(*args)
        if off == 0 and n == len(self):
            n = None
        if self._base == 0 and n is None and len(self) >= self._inode.size():
            self._inode.synced()
        else:
            lo = (self._base + off) - (self._base + off) % 4096
            hi = self._base + off + (len(self) - off if n is None else n)
            hi += -hi % 4096
            self._inode.synced(lo, hi - lo)
        self._disk.committed()
        return result

    def resize(self, size):
        sup = super().resize
        if self.closed or not self._hooked:
            return sup(size)
        self._disk.event('truncate', self._gen, self._base + size, 0)
        self._disk.event('mremap', self._gen, 0, size)
        if self._base + size < self._inode.size():
            self._inode.set_size(self._base + size, self._disk.seq)
        result = sup(size)
        self._inode.note_size(self._disk.seq)
        return result

    def close(self):
        return super().close()


# ---------------------------------------------------------------- interposition

def disk_for(path):
    if isinstance(path, int):
        return None
    try:
        path = os.fspath(path)
    except TypeError:
        return None
    if isinstance(path, bytes):
        path = os.fsdecode(path)
    if not path.startswith(SIM_ROOT + '/'):
        return None
    node = path[len(SIM_ROOT) + 1:].split('/', 1)[0]
    return DISKS.get(node)


def text_path(path):
    path = os.fspath(path)
    return os.fsdecode(path) if isinstance(path, bytes) else path


def flags_of(mode):
    m = set(mode) - set('bt')
    plus = '+' in m
    m.discard('+')
    if len(m) != 1 or not m <= set('rwax'):
        raise ValueError(f'invalid mode: {mode!r}')
    base = m.pop()
    flags = os.O_RDWR if plus else (os.O_RDONLY if base == 'r' else os.O_WRONLY)
    if base == 'w':
        flags |= os.O_CREAT | os.O_TRUNC
    elif base == 'a':
        flags |= os.O_CREAT | os.O_APPEND
    elif base == 'x':
        flags |= os.O_CREAT | os.O_EXCL
    return flags


def wrap(raw, mode, buffering, encoding, errors, newline, locale):
    binary = 'b' in mode
    if buffering == 0:
        if not binary:
            raise ValueError("can't have unbuffered text I/O")
        return raw
    size = 4096 if buffering in (-1, 1) else buffering
    if raw.readable() and raw.writable():
        buf = io.BufferedRandom(raw, size)
    elif raw.writable():
        buf = io.BufferedWriter(raw, size)
    else:
        buf = io.BufferedReader(raw, size)
    if binary:
        return buf
    if encoding in (None, 'locale'):
        encoding = locale
    text = io.TextIOWrapper(buf, encoding, errors, newline, buffering == 1)
    text.mode = mode
    return text


def stat_of(inode):
    return REAL['fstat'](inode.fd)
