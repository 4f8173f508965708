'''Interposition: puts every source of nondeterminism the library can reach behind a seam.

install() must run before any bitcoinx module is imported.
'''

import builtins
import errno
import hashlib
import hmac as _hmac
import io
import locale
import mmap
import os
import random
import time

from . import disk as D
from .disk import FDS, REAL, SIM_ROOT, SimMmap, SimRaw, disk_for, text_path
from .loader import REPO, install_finder

REAL_OPEN = builtins.open
REAL_URANDOM = os.urandom
REAL_HMAC_DIGEST = _hmac.digest
REAL_HMAC = _hmac.HMAC
REAL_TIME = {n: getattr(time, n) for n in ('time', 'monotonic', 'perf_counter', 'sleep')}

DATA_DIR = os.path.realpath(os.path.join(REPO, 'bitcoinx', 'data'))


class World:
    '''What the seams of the current run are connected to.'''

    def __init__(self):
        self.entropy = None      # object with draw(n)
        self.hmac = None         # function (key, msg, digest) -> forced bytes or None
        self.data_disk = None    # SimDisk through which shipped data files are read
        self.clock = None        # function () -> simulated seconds
        self.yield_point = None  # function (what): another thread may run here


WORLD = World()
D.YIELD = WORLD


def _open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None,
          closefd=True, opener=None):
    if isinstance(file, int):
        handle = FDS.get(file)
        if handle is None:
            return REAL_OPEN(file, mode, buffering, encoding, errors, newline, closefd, opener)
        return D.wrap(handle, mode, buffering, encoding, errors, newline, handle.disk.locale)
    disk = disk_for(file)
    if disk is None and WORLD.data_disk is not None:
        try:
            path = os.path.realpath(text_path(file))
        except TypeError:
            path = ''
        if path.startswith(DATA_DIR + os.sep):
            disk = WORLD.data_disk
            key = disk.root + path[len(DATA_DIR) + 1:]
            if (disk.names.get(disk.key(key)) is None and disk.key(key) not in disk.missing
                    and REAL_ISFILE(path)):
                with REAL_OPEN(path, 'rb') as f:
                    disk.put_file(key, f.read())
            file = key
    if disk is None:
        return REAL_OPEN(file, mode, buffering, encoding, errors, newline, closefd, opener)
    path = text_path(file)
    if opener is not None:
        fd = opener(path, D.flags_of(mode))
        return _open(fd, mode, buffering, encoding, errors, newline)
    raw = disk.open_raw(path, D.flags_of(mode))
    if isinstance(raw, D.SimDir):
        raise IsADirectoryError(21, 'Is a directory', path)
    if 'a' in mode:
        raw.pos = raw.inode.size()
    return D.wrap(raw, mode, buffering, encoding, errors, newline, disk.locale)


REAL_ISFILE = os.path.isfile


def _os_open(path, flags, mode=0o777, *, dir_fd=None):
    disk = disk_for(path)
    if disk is None:
        return REAL['open'](path, flags, mode, dir_fd=dir_fd)
    raw = disk.open_raw(text_path(path), flags, mode)
    KEEP[raw._fd] = raw
    return raw._fd


KEEP = {}


def _fd(name, sim):
    real = REAL[name]

    def wrapper(fd, *args, **kwargs):
        handle = FDS.get(fd) if isinstance(fd, int) else None
        if handle is None:
            return real(fd, *args, **kwargs)
        return sim(handle, *args, **kwargs)
    wrapper.__name__ = name
    return wrapper


def _sim_read(h, n):
    buf = bytearray(n)
    return bytes(buf[:h.readinto(buf)])


def _sim_pread(h, n, off):
    h._ok()
    d = h.disk.event('read', h.gen, off, n)
    return h.inode.read(off, min(n, d[1]) if d else n)


def _sim_pwrite(h, data, off):
    pos, h.pos = h.pos, off
    try:
        return h.write(data)
    finally:
        h.pos = pos


def _sim_readv(h, buffers):
    total = 0
    for b in buffers:
        n = h.readinto(b)
        total += n
        if n < len(memoryview(b).cast('B')):
            break
    return total


def _sim_preadv(h, buffers, off, flags=0):
    pos, h.pos = h.pos, off
    try:
        return _sim_readv(h, buffers)
    finally:
        h.pos = pos


def _sim_dup(h):
    raw = SimRaw(h.disk, h.inode, h.path, os.O_RDWR if h.writable() else os.O_RDONLY)
    raw.pos = h.pos
    KEEP[raw._fd] = raw
    return raw._fd


def _gather(buffers):
    return b''.join(bytes(b) for b in buffers)


def _unsupported(name, code):
    '''Copying inside the kernel is refused, as some file systems do; callers fall back.'''
    real = getattr(os, name)

    def wrapper(a, b, *args, **kwargs):
        if a in FDS or b in FDS:
            raise OSError(code, os.strerror(code))
        return real(a, b, *args, **kwargs)
    wrapper.__name__ = name
    return wrapper


class _Entry:
    '''What scandir gives.'''

    def __init__(self, base, name):
        self.name, self.path = name, os.path.join(base, name)

    def __fspath__(self):
        return self.path

    def stat(self, *, follow_symlinks=True):
        return os.stat(self.path)

    def is_file(self, *, follow_symlinks=True):
        return os.path.isfile(self.path)

    def is_dir(self, *, follow_symlinks=True):
        return os.path.isdir(self.path)

    def is_symlink(self):
        return False


class _Entries(list):
    def __enter__(self):
        return self

    def __exit__(self, *args):
        pass

    def close(self):
        pass


def _scandir(path='.'):
    disk = disk_for(path)
    if disk is None:
        return REAL_SCANDIR(path)
    path = text_path(path)
    return _Entries(_Entry(path, name) for name in _sim_listdir(disk, path))


REAL_SCANDIR = os.scandir


def _sim_close(h):
    KEEP.pop(h._fd, None)
    h.close()


def _sim_fallocate(h, off, n):
    if off + n > h.inode.size():
        h.truncate(off + n)


def _path(name, sim):
    real = REAL[name]

    def wrapper(path, *args, **kwargs):
        disk = disk_for(path)
        if disk is None:
            return real(path, *args, **kwargs)
        return sim(disk, text_path(path), *args, **kwargs)
    wrapper.__name__ = name
    return wrapper


def _sim_stat(disk, path, **kwargs):
    disk.event('stat', disk.gen)
    key = disk.key(path)
    inode = disk.names.get(key)
    if inode is None:
        if key + '/' == disk.root or any(n.startswith(key + '/') for n in disk.names):
            return os.stat_result((0o40755, 1, 1, 2, 0, 0, 4096, 0, 0, 0))
        raise FileNotFoundError(2, 'No such file or directory', path)
    return REAL['fstat'](inode.fd)


def _os_stat(path, **kwargs):
    if isinstance(path, int):
        return REAL['stat'](path, **kwargs)
    disk = disk_for(path)
    if disk is None:
        return REAL['stat'](path, **kwargs)
    return _sim_stat(disk, text_path(path))


def _os_truncate(path, length):
    if isinstance(path, int):
        return os.ftruncate(path, length)
    disk = disk_for(path)
    if disk is None:
        return REAL['truncate'](path, length)
    raw = disk.open_raw(text_path(path), os.O_RDWR)
    try:
        raw.truncate(length)
    finally:
        raw._drop()


def _sim_unlink(disk, path, **kwargs):
    key = disk.key(path)
    disk.event('unlink', disk.gen)
    if key not in disk.names:
        raise FileNotFoundError(2, 'No such file or directory', path)
    del disk.names[key]
    disk._ns_changed()


def _sim_rename(disk, src, dst, **kwargs):
    disk.event('rename', disk.gen)
    s, d = disk.key(src), disk.key(text_path(dst))
    if s not in disk.names:
        raise FileNotFoundError(2, 'No such file or directory', src)
    disk.names[d] = disk.names.pop(s)
    disk._ns_changed()


def _sim_listdir(disk, path='.'):
    base = disk.key(path) + '/'
    return sorted({n[len(base):].split('/')[0] for n in disk.names if n.startswith(base)})


def _sim_access(disk, path, mode, **kwargs):
    try:
        _sim_stat(disk, path)
        return True
    except OSError:
        return False


def _urandom(n):
    e = WORLD.entropy
    if e is None:
        # Every run must decide its randomness; this is a deterministic stand-in.
        return _fallback(n)
    return e.draw(n)


class _Fallback:
    def __init__(self):
        self.count = 0

    def __call__(self, n):
        import hashlib
        self.count += 1
        return hashlib.shake_256(b'fallback%d' % self.count).digest(n)


_fallback = _Fallback()


def _hmac_digest(key, msg, digest):
    f = WORLD.hmac
    if f is not None:
        forced = f(key, msg, digest)
        if forced is not None:
            return forced
    return REAL_HMAC_DIGEST(key, msg, digest)


class _HmacObj:
    def __init__(self, key, msg=None, digestmod=''):
        self._key, self._msg, self._dm = bytes(key), bytes(msg or b''), digestmod
        self._real = REAL_HMAC(key, None, digestmod)
        self.digest_size = self._real.digest_size
        self.block_size = self._real.block_size
        self.name = self._real.name

    def update(self, msg):
        self._msg += bytes(msg)

    def copy(self):
        return _HmacObj(self._key, self._msg, self._dm)

    def digest(self):
        return _hmac_digest(self._key, self._msg, self._dm)

    def hexdigest(self):
        return self.digest().hex()


def _hmac_new(key, msg=None, digestmod=''):
    return _HmacObj(key, msg, digestmod)


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    install_finder()
    builtins.open = io.open = _open
    mmap.mmap = SimMmap
    os.open = _os_open
    os.read = _fd('read', _sim_read)
    os.write = _fd('write', lambda h, data: h.write(data))
    os.pread = _fd('pread', _sim_pread)
    os.pwrite = _fd('pwrite', _sim_pwrite)
    os.lseek = _fd('lseek', lambda h, off, whence=0: h.seek(off, whence))
    os.ftruncate = _fd('ftruncate', lambda h, n: h.truncate(n) and None)
    os.fsync = _fd('fsync', lambda h: h.sync())
    os.fdatasync = _fd('fdatasync', lambda h: h.sync())
    os.close = _fd('close', _sim_close)
    os.posix_fallocate = _fd('posix_fallocate', _sim_fallocate)
    os.readv = _fd('readv', _sim_readv)
    os.preadv = _fd('preadv', _sim_preadv)
    os.writev = _fd('writev', lambda h, buffers: h.write(_gather(buffers)))
    os.pwritev = _fd('pwritev', lambda h, buffers, off, flags=0: _sim_pwrite(h, _gather(buffers),
                                                                             off))
    os.dup = lambda fd: _sim_dup(FDS[fd]) if fd in FDS else REAL['dup'](fd)
    os.sendfile = _unsupported('sendfile', errno.ENOTSOCK)
    os.copy_file_range = _unsupported('copy_file_range', errno.EXDEV)
    os.scandir = _scandir
    os.truncate = _os_truncate
    os.stat = _os_stat
    os.lstat = _os_stat
    os.remove = _path('remove', _sim_unlink)
    os.unlink = _path('unlink', _sim_unlink)
    os.rename = _path('rename', _sim_rename)
    os.replace = _path('replace', _sim_rename)
    os.listdir = lambda path='.': (_sim_listdir(disk_for(path), text_path(path))
                                   if disk_for(path) else REAL['listdir'](path))
    os.access = _path('access', _sim_access)
    os.mkdir = _path('mkdir', lambda disk, path, *a, **k: None)
    os.makedirs = _path('makedirs', lambda disk, path, *a, **k: None)
    os.chmod = _path('chmod', lambda disk, path, *a, **k: None)
    os.urandom = _urandom
    if hasattr(os, 'getrandom'):
        os.getrandom = lambda n, flags=0: _urandom(n)
    random._urandom = _urandom
    for name in ('getpreferredencoding', 'getencoding'):
        if hasattr(locale, name):
            setattr(locale, name, _encoding(getattr(locale, name)))
    _hmac.digest = _hmac_digest
    _hmac.new = _hmac_new
    _hmac.HMAC = _HmacObj
    for name in ('time', 'monotonic', 'perf_counter'):
        real = getattr(time, name)
        setattr(time, name, _clock(name, real))
    for name in ('time_ns', 'monotonic_ns', 'perf_counter_ns'):
        real = getattr(time, name)
        setattr(time, name, _clock_ns(name, real))
    real_sleep = time.sleep
    time.sleep = lambda s: _sleep(s, real_sleep)




def _sleep(seconds, real):
    if WORLD.yield_point is not None:
        WORLD.yield_point('sleep')
    elif WORLD.clock is None:
        real(seconds)


def _encoding(real):
    def encoding(*args, **kwargs):
        disk = WORLD.data_disk
        return disk.locale if disk is not None else real(*args, **kwargs)
    return encoding


def _clock(name, real):
    def clock():
        return WORLD.clock() if WORLD.clock is not None else real()
    return clock


def _clock_ns(name, real):
    def clock():
        return int(WORLD.clock() * 1e9) if WORLD.clock is not None else real()
    return clock


class _Sha256:
    '''SHA-256 that gives forced results for some data.'''
    name = 'sha256'
    digest_size = 32
    block_size = 64

    def __init__(self, data=b'', **kwargs):
        self._data = bytes(data)

    def update(self, data):
        self._data += bytes(data)

    def digest(self):
        return FORCED.get(self._data) or REAL_SHA256(self._data).digest()

    def hexdigest(self):
        return self.digest().hex()

    def copy(self):
        return _Sha256(self._data)


REAL_SHA256 = hashlib.sha256
REAL_HASH_NEW = hashlib.new
FORCED = {}


def _hash_new(name, data=b'', **kwargs):
    if name.lower().replace('-', '') == 'sha256':
        return _Sha256(data)
    return REAL_HASH_NEW(name, data, **kwargs)


def forced_hashes():
    '''Installations made from now on, in this run, use a SHA-256 whose results can be forced.'''
    hashlib.sha256 = _Sha256
    hashlib.new = _hash_new


def force_double_sha256(data, result):
    FORCED[REAL_SHA256(data).digest()] = result


def reset():
    '''Between runs.'''
    hashlib.sha256 = REAL_SHA256
    hashlib.new = REAL_HASH_NEW
    FORCED.clear()
    WORLD.entropy = None
    WORLD.hmac = None
    WORLD.data_disk = None
    WORLD.clock = None
    WORLD.yield_point = None
    _fallback.count = 0
    for disk in list(D.DISKS.values()):
        disk.shutdown()
    for handle in list(FDS.values()):
        handle._drop()
    KEEP.clear()
