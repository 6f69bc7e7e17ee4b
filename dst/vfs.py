"""The simulated file system and the permanent patches of the os/io/socket/time seams.

Patches are installed once, before mygrations is imported, and pass through to the
real functions unless a simulated run is active and the path lies in the simulated
tree (/simfs).  Relative paths are resolved against the acting program's simulated
working directory.  Nothing a simulated program does reaches the real file system:
writes outside /simfs are recorded and go nowhere.
"""
import builtins
import errno
import io
import os
import socket
import stat as st_mod
import time

ROOT = '/simfs'
REAL = {}
ACTIVE = None      # the running World, or None


def _norm(path):
    """Absolute normalised simulated path, or None when the path is not ours."""
    w = ACTIVE
    if w is None or w.current is None or isinstance(path, int):
        return None
    try:
        p = os.fspath(path)
    except TypeError:
        return None
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    if not p:
        return None
    if '\0' in p:
        return None
    if not p.startswith('/'):
        p = w.current.cwd + '/' + p
    parts = []
    for x in p.split('/'):
        if x in ('', '.'):
            continue
        if x == '..':
            if parts:
                parts.pop()
            continue
        parts.append(x)
    q = '/' + '/'.join(parts)
    if q == ROOT or q.startswith(ROOT + '/'):
        return q
    return None


class VFS:
    """files: {path: bytes}; directories are implied by files plus the explicit `dirs`."""

    def __init__(self, order_seed=0):
        self.files = {}
        self.dirs = {ROOT}
        self.noaccess = set()
        self.order_seed = order_seed

    def put(self, path, data):
        if isinstance(data, str):
            data = data.encode('utf8')
        self.files[path] = data
        self.mkdirs(os.path.dirname(path))

    def mkdirs(self, d):
        while d and d != '/' and d not in self.dirs:
            self.dirs.add(d)
            d = d.rsplit('/', 1)[0]

    def listing(self, d):
        import random
        names = set()
        pre = d.rstrip('/') + '/'
        for p in list(self.files) + list(self.dirs):
            if p.startswith(pre):
                names.add(p[len(pre):].split('/', 1)[0])
        names.discard('')
        names = sorted(names)
        random.Random('%s|%s' % (self.order_seed, d)).shuffle(names)
        return names

    def stat(self, p):
        if p in self.files:
            return os.stat_result((st_mod.S_IFREG | 0o644, abs(hash_path(p)), 1, 1, 0, 0, len(self.files[p]), 0, 0, 0))
        if p in self.dirs:
            return os.stat_result((st_mod.S_IFDIR | 0o755, abs(hash_path(p)), 1, 1, 0, 0, 4096, 0, 0, 0))
        up = p
        while up not in ('', '/'):
            up = up.rsplit('/', 1)[0]
            if up in self.files:
                raise NotADirectoryError(errno.ENOTDIR, 'Not a directory', p)
        if any(len(x.encode('utf8', 'surrogateescape')) > 255 for x in p.split('/')):
            raise OSError(errno.ENAMETOOLONG, 'File name too long', p)
        raise FileNotFoundError(errno.ENOENT, 'No such file or directory', p)


def hash_path(p):
    h = 0
    for ch in p:
        h = (h * 131 + ord(ch)) % 1000000007
    return h


def os_error(fault, path):
    code = getattr(errno, fault.get('errno', 'EIO'))
    return OSError(code, os.strerror(code), path)


def p_stat(path, *a, **k):
    p = _norm(path)
    if p is None:
        return REAL['stat'](path, *a, **k)
    w = ACTIVE
    f = w.io('stat', p)
    if f and f['kind'] == 'eio':
        w.fired(f)
        raise os_error(f, p)
    return w.vfs.stat(p)


def p_lstat(path, *a, **k):
    if _norm(path) is None:
        return REAL['lstat'](path, *a, **k)
    return p_stat(path)


def p_access(path, mode, *a, **k):
    p = _norm(path)
    if p is None:
        return REAL['access'](path, mode, *a, **k)
    try:
        p_stat(path)
        return p not in ACTIVE.vfs.noaccess
    except OSError:
        return False


class Entry:
    def __init__(self, w, d, name, shown):
        self.w, self.name = w, name
        self.full = d.rstrip('/') + '/' + name
        self.path = os.path.join(shown, name)

    def is_dir(self, follow_symlinks=True):
        return self.full in self.w.vfs.dirs

    def is_file(self, follow_symlinks=True):
        return self.full in self.w.vfs.files

    def is_symlink(self):
        return False

    def stat(self, follow_symlinks=True):
        return p_stat(self.full)

    def inode(self):
        return abs(hash_path(self.full))

    def __fspath__(self):
        return self.path

    def __repr__(self):
        return '<DirEntry %r>' % self.name


class Scan:
    def __init__(self, w, d, shown, fail_at=None, fault=None):
        self.items = [Entry(w, d, n, shown) for n in w.vfs.listing(d)]
        self.k = 0
        self.fail_at = None if fail_at is None else min(fail_at, len(self.items))
        self.fault, self.w, self.d = fault, w, d

    def __iter__(self):
        return self

    def __next__(self):
        if self.fail_at is not None and self.k >= self.fail_at:
            self.fail_at = None
            self.items = []
            self.w.fired(self.fault)
            raise os_error(self.fault, self.d)
        if self.k >= len(self.items):
            raise StopIteration
        self.k += 1
        return self.items[self.k - 1]

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


def _list_point(path):
    p = _norm(path)
    w = ACTIVE
    f = w.io('list', p)
    if f and f['kind'] == 'eio':
        w.fired(f)
        raise os_error(f, p)
    if p in w.vfs.files:
        raise NotADirectoryError(errno.ENOTDIR, 'Not a directory', p)
    if p not in w.vfs.dirs:
        raise FileNotFoundError(errno.ENOENT, 'No such file or directory', p)
    if p in w.vfs.noaccess:
        raise PermissionError(errno.EACCES, 'Permission denied', p)
    return p, f


def p_scandir(path='.'):
    if _norm(path) is None:
        return REAL['scandir'](path)
    p, f = _list_point(path)
    if f and f['kind'] == 'mid':
        return Scan(ACTIVE, p, os.fspath(path), f.get('at', 1), f)
    return Scan(ACTIVE, p, os.fspath(path))


def p_listdir(path='.'):
    if path is None or _norm(path) is None:
        return REAL['listdir'](path)
    p, f = _list_point(path)
    if f and f['kind'] == 'mid':
        ACTIVE.fired(f)
        raise os_error(f, p)
    return ACTIVE.vfs.listing(p)


class RawFile(io.RawIOBase):
    def __init__(self, w, p, data):
        super().__init__()
        self.w, self.p, self.data, self.pos = w, p, data, 0
        self.name = p
        self.mode = 'rb'
        self.bad = None

    def readable(self):
        return True

    def seekable(self):
        return True

    def seek(self, pos, whence=0):
        self.pos = pos if whence == 0 else (self.pos + pos if whence == 1 else len(self.data) + pos)
        return self.pos

    def tell(self):
        return self.pos

    def fileno(self):
        raise io.UnsupportedOperation('fileno')

    def isatty(self):
        return False

    def readinto(self, b):
        if self.bad is not None and self.pos >= self.bad[0]:
            f = self.bad[1]
            self.w.fired(f)
            raise os_error(f, self.p)
        n = min(len(b), len(self.data) - self.pos, self.w.read_chunk)
        if self.bad is not None:
            n = min(n, self.bad[0] - self.pos)
        b[:n] = self.data[self.pos:self.pos + n]
        self.pos += n
        return n


class RawSink(io.RawIOBase):
    """Write side: contents land in the simulated tree; everything is recorded."""

    def __init__(self, w, p, keep):
        super().__init__()
        self.w, self.p, self.keep = w, p, keep
        self.name = p

    def writable(self):
        return True

    def write(self, b):
        b = bytes(b)
        self.w.fs_writes.append((self.w.current.name if self.w.current else None, 'write', self.p))
        if self.keep:
            self.w.vfs.files[self.p] = self.w.vfs.files.get(self.p, b'') + b
        return len(b)


def p_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    w = ACTIVE
    p = _norm(file)
    writing = any(x in mode for x in 'wax+')
    if p is None:
        if w is not None and w.current is not None and writing and not isinstance(file, int):
            w.fs_writes.append((w.current.name, 'open-' + mode, str(file)))
            raw = RawSink(w, str(file), False)
            return raw if 'b' in mode else io.TextIOWrapper(io.BufferedWriter(raw), encoding or 'utf8', errors, newline)
        return REAL['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
    f = w.io('open', p)
    if f and f['kind'] == 'eio':
        w.fired(f)
        raise os_error(f, p)
    if p in w.vfs.dirs:
        raise IsADirectoryError(errno.EISDIR, 'Is a directory', p)
    if p in w.vfs.noaccess:
        raise PermissionError(errno.EACCES, 'Permission denied', p)
    if writing:
        w.fs_writes.append((w.current.name, 'open-' + mode, p))
        if 'a' not in mode:
            w.vfs.files[p] = b''
        raw = RawSink(w, p, True)
        return raw if 'b' in mode else io.TextIOWrapper(io.BufferedWriter(raw), encoding or 'utf8', errors, newline)
    if p not in w.vfs.files:
        raise FileNotFoundError(errno.ENOENT, 'No such file or directory', p)
    data = w.vfs.files[p]
    raw = RawFile(w, p, data)
    f = w.io('read', p)
    if f:
        if f['kind'] == 'eio':
            raw.bad = (min(f.get('at', 0), len(data)), f)
        elif f['kind'] == 'garble':
            at = min(f.get('at', 0), len(data))
            raw.data = data[:at] + b'\xff\xfe\xc3\x28' + data[at:]
            w.fired(f)
        elif f['kind'] == 'truncate':
            raw.data = data[:f.get('at', 0)]
            w.fired(f)
    w.opened.append((w.current.name, p))
    buf = io.BufferedReader(raw)
    if 'b' in mode:
        return buf
    return io.TextIOWrapper(buf, encoding or 'utf8', errors, newline)


def p_getcwd():
    w = ACTIVE
    if w is None or w.current is None:
        return REAL['getcwd']()
    f = w.io('cwd', w.current.cwd)
    if f and f['kind'] == 'eio':
        w.fired(f)
        raise FileNotFoundError(errno.ENOENT, 'No such file or directory')
    return w.current.cwd


def p_chdir(path):
    w = ACTIVE
    if w is None or w.current is None:
        return REAL['chdir'](path)
    p = _norm(path)
    if p is None or p not in w.vfs.dirs:
        raise FileNotFoundError(errno.ENOENT, 'No such file or directory', str(path))
    w.current.cwd = p


def _mutator(name):
    def fn(path, *a, **k):
        w = ACTIVE
        if w is None or w.current is None:
            return REAL[name](path, *a, **k)
        w.fs_writes.append((w.current.name, name, str(path)))
        p = _norm(path)
        if p is not None and name in ('remove', 'unlink'):
            w.vfs.files.pop(p, None)
        if p is not None and name in ('rename', 'replace') and p in w.vfs.files:
            q = _norm(a[0])
            if q:
                w.vfs.files[q] = w.vfs.files.pop(p)
        if p is not None and name == 'mkdir':
            w.vfs.mkdirs(p)
    return fn


def p_connect(address, timeout=None, source_address=None, **k):
    w = ACTIVE
    if w is None:
        raise OSError('network is not available outside a simulated run')
    return w.connect(address, timeout)


def p_time():
    return REAL['time']() if ACTIVE is None else 1700000000.0 + ACTIVE.server.clock


def p_mono():
    return REAL['monotonic']() if ACTIVE is None else 1000.0 + ACTIVE.server.clock


def p_sleep(n):
    if ACTIVE is None or ACTIVE.current is None:
        return REAL['sleep'](n)
    ACTIVE.sleep(n)


def install():
    if REAL:
        return
    REAL.update(stat=os.stat, lstat=os.lstat, access=os.access, scandir=os.scandir, listdir=os.listdir, open=builtins.open,
                getcwd=os.getcwd, chdir=os.chdir, connect=socket.create_connection, time=time.time,
                monotonic=time.monotonic, sleep=time.sleep)
    os.stat, os.lstat, os.access, os.scandir, os.listdir = p_stat, p_lstat, p_access, p_scandir, p_listdir
    os.getcwd, os.chdir = p_getcwd, p_chdir
    builtins.open = p_open
    io.open = p_open
    socket.create_connection = p_connect
    time.time, time.monotonic, time.sleep = p_time, p_mono, p_sleep
    for n in ('remove', 'unlink', 'rename', 'replace', 'mkdir', 'rmdir', 'truncate', 'chmod', 'symlink', 'link', 'utime'):
        REAL[n] = getattr(os, n)
        setattr(os, n, _mutator(n))
