"""Seams: file system, clock, process id, standard output, subprocess.

Only active inside simulated tasks; any other thread gets the real thing.
File operations act on real files below a scratch directory; every one of
them is a yield point and a fault point.  A killed process performs no further
operation: what it had only buffered is lost, what it wrote stays.
Changing anything outside the scratch directories is refused.
"""
import builtins
import contextlib
import errno
import io
import os
import random
import stat as _stat
import subprocess
import sys
import time
import weakref

from . import core
from .core import cur, op, SimKill, HarnessError

real = {}
SCRATCH = []          # absolute prefixes under simulated control


def _path(p):
    try:
        p = os.fspath(p)
    except TypeError:
        return None
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    if isinstance(p, int):
        return None
    return os.path.abspath(p)


def managed(p):
    if cur() is None or isinstance(p, int):
        return None
    a = _path(p)
    if a is None:
        return None
    for s in SCRATCH:
        if a == s or a.startswith(s + '/'):
            return a
    return None


def short(p):
    for s in SCRATCH:
        if p.startswith(s):
            return p[len(s):] or '/'
    return p


def _deny(p, what):
    """Mutation outside the scratch area from inside a simulated task."""
    a = _path(p)
    if os.path.basename(a).startswith('pym-'):
        return            # multiprocessing's own shared memory
    if a in ('/dev/null', '/dev/stdout', '/dev/stderr', '/dev/tty'):
        return
    t = cur()
    t.sim.note(f'DENIED {what} {a}')
    t.sim.stats['denied'] = t.sim.stats.get('denied', 0) + 1
    raise PermissionError(errno.EACCES, f'outside the simulated file system ({what})', str(p))


class SimRaw(io.RawIOBase):
    """Raw file; deliberately not io.FileIO, so that libraries use read()/write()."""
    def __init__(self, path, flags, mode):
        self._fd = real['os.open'](path, flags | os.O_CLOEXEC, 0o666)
        self.name = path
        self.mode = mode.replace('+', '') + 'b' + ('+' if '+' in mode else '')
        self._r = '+' in mode or 'r' in mode
        self._w = '+' in mode or 'r' not in mode
        self._owner = cur().proc
        if 'a' in mode:
            os.lseek(self._fd, 0, os.SEEK_END)

    def _live(self, cls, detail=''):
        """Account for an operation; False if it must have no effect."""
        if self._owner.killed:
            t = cur()
            if t is not None and t.proc is self._owner:
                t.check_killed()
            return False
        t = cur()
        if t is not None and t.proc is self._owner:
            op(cls, f'{short(self.name)}{detail}')
        return True

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def fileno(self):
        # no direct descriptor access: everything goes through the seam
        raise io.UnsupportedOperation('fileno')

    def isatty(self):
        return False

    def readinto(self, b):
        if not self._live('fs:read'):
            return 0
        return os.readv(self._fd, [b])

    def write(self, b):
        mv = memoryview(b).cast('B')
        n = len(mv)
        t = cur()
        if t is not None:
            t.sim.short_write = None
        if not self._live('fs:write', f' {n}'):
            return n
        if t is not None and getattr(t.sim, 'short_write', None) and n > 1:
            n = max(1, n // 2)
            t.sim.short_write = None
        return os.write(self._fd, mv[:n])

    def seek(self, off, whence=0):
        return os.lseek(self._fd, off, whence)

    def tell(self):
        return os.lseek(self._fd, 0, os.SEEK_CUR)

    def truncate(self, size=None):
        if size is None:
            size = self.tell()
        if self._live('fs:truncate'):
            os.ftruncate(self._fd, size)
        return size

    def close(self):
        if self.closed:
            return
        try:
            t = cur()
            if self._w and not self._owner.killed and t is not None and t.proc is self._owner:
                op('fs:close', short(self.name))
        finally:
            try:
                super().close()
            finally:
                os.close(self._fd)


class Whole:
    """File object for HDF5: like the native driver it loops on short writes.

    HDF5 calls it while holding its global lock, so nothing may yield here; the
    yield points are the h5py calls themselves (see install)."""
    def __init__(self, raw):
        self.raw = raw
        self.name = raw.name

    def write(self, b):
        mv = memoryview(b).cast('B')
        n = 0
        with core.NoYield():
            while n < len(mv):
                n += self.raw.write(mv[n:])
        return n

    def read(self, n=-1):
        out = b''
        with core.NoYield():
            if n is None or n < 0:
                return self.raw.readall()
            while len(out) < n:
                c = self.raw.read(n - len(out))
                if not c:
                    break
                out += c
        return out

    def readinto(self, b):
        mv = memoryview(b).cast('B')
        n = 0
        with core.NoYield():
            while n < len(mv):
                k = self.raw.readinto(mv[n:])
                if not k:
                    break
                n += k
        return n

    def truncate(self, size=None):
        with core.NoYield():
            return self.raw.truncate(size)

    def __getattr__(self, k):
        return getattr(self.raw, k)


def _unlocked(f):
    """Wrapper for code that does file operations while it holds a process-wide lock."""
    def g(*a, **k):
        with core.NoYield():
            return f(*a, **k)
    return g


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None,
             closefd=True, opener=None):
    if cur() is None or isinstance(file, int) or opener is not None:
        return real['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
    a = managed(file)
    if a is None:
        if any(c in mode for c in 'wax+'):
            _deny(file, f'open {mode}')
        return real['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
    m = mode.replace('b', '').replace('t', '').replace('U', '')
    plus = '+' in m
    base = m.replace('+', '') or 'r'
    flags = {'r': 0, 'w': os.O_CREAT | os.O_TRUNC, 'x': os.O_CREAT | os.O_EXCL,
             'a': os.O_CREAT | os.O_APPEND}[base]
    flags |= os.O_RDWR if plus else (os.O_RDONLY if base == 'r' else os.O_WRONLY)
    op('fs:open' if base == 'r' and not plus else 'fs:create', f'{short(a)} {m}')
    if base == 'r' and os.path.isdir(a):
        raise IsADirectoryError(errno.EISDIR, 'Is a directory', str(file))
    raw = SimRaw(a, flags, m)
    if buffering == 0:
        return raw
    bs = buffering if buffering > 1 else 8192
    if plus:
        buf = io.BufferedRandom(raw, bs)
    elif base == 'r':
        buf = io.BufferedReader(raw, bs)
    else:
        buf = io.BufferedWriter(raw, bs)
    if 'b' in mode:
        return buf
    tx = io.TextIOWrapper(buf, encoding, errors, newline, line_buffering=buffering == 1)
    tx.mode = mode
    return tx


def _wrap1(name, cls, mutate):
    fn = getattr(os, name)
    real['os.' + name] = fn

    def f(path='.', *a, **k):
        if cur() is None:
            return fn(path, *a, **k)
        m = managed(path)
        if m is None:
            if mutate and not isinstance(path, int):
                _deny(path, name)
            return fn(path, *a, **k)
        op(cls, short(m))
        return fn(path, *a, **k)
    f.__name__ = name
    setattr(os, name, f)


def _wrap_list(name):
    """Directory listings come in an order of the scheduler's choice."""
    fn = getattr(os, name)
    real['os.' + name] = fn

    def f(path='.'):
        if cur() is None or managed(path) is None:
            return fn(path)
        op('fs:list', short(managed(path)))
        with contextlib.ExitStack() as st:
            it = fn(path)
            if hasattr(it, 'close'):
                st.callback(it.close)
            out = sorted(it, key=lambda e: getattr(e, 'name', e))
        k = cur().sim.choose(1000, 'list', w0=0.3)
        if k:
            random.Random(k).shuffle(out)
        return out if name == 'listdir' else _Scan(out)
    f.__name__ = name
    setattr(os, name, f)


class _Scan:
    def __init__(self, entries):
        self._it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        self._it = iter(())


def _wrap2(name, cls):
    fn = getattr(os, name)
    real['os.' + name] = fn

    def f(src, dst, *a, **k):
        if cur() is None:
            return fn(src, dst, *a, **k)
        m1, m2 = managed(src), managed(dst)
        if m2 is None or (m1 is None and name in ('rename', 'replace')):
            _deny(dst if m2 is None else src, name)
        op(cls, f'{short(m1 or str(src))} -> {short(m2)}')
        return fn(src, dst, *a, **k)
    f.__name__ = name
    setattr(os, name, f)


def _os_open(path, flags, *a, **k):
    if cur() is None:
        return real['os.open'](path, flags, *a, **k)
    m = managed(path)
    w = flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)
    if m is None:
        if w:
            _deny(path, 'os.open')
    else:
        op('fs:create' if w else 'fs:open', short(m))
    return real['os.open'](path, flags, *a, **k)


# -- clock ------------------------------------------------------------------------

def _now():
    t = cur()
    sim = t.sim
    core.fault_point(t, 'clock')
    sim.now += 1e-6
    return sim.now + t.proc.data.get('clock_offset', 0.0)


def install_clock():
    for nm in ('time', 'monotonic', 'perf_counter', 'process_time', 'sleep', 'asctime', 'ctime',
               'localtime', 'gmtime', 'strftime', 'time_ns', 'monotonic_ns', 'perf_counter_ns'):
        real['time.' + nm] = getattr(time, nm)
    R = real

    def clock(nm, ns=False):
        r = R['time.' + nm]

        def f():
            if cur() is None:
                return r()
            v = _now()
            return int(v * 1e9) if ns else v
        return f
    for nm in ('time', 'monotonic', 'perf_counter', 'process_time'):
        setattr(time, nm, clock(nm))
        if nm != 'process_time':
            setattr(time, nm + '_ns', clock(nm, True))

    def sleep(s):
        t = cur()
        if t is None:
            return R['time.sleep'](s)
        if s < 0:
            raise ValueError('sleep length must be non-negative')
        op('sleep', '')
        t.wait(lambda: False, 'sleep', timeout=s)
        t.sim.idle = 0

    def localtime(s=None):
        return R['time.localtime'](s if s is not None or cur() is None else _now())

    def gmtime(s=None):
        return R['time.gmtime'](s if s is not None or cur() is None else _now())

    def asctime(tup=None):
        return R['time.asctime'](localtime()) if tup is None else R['time.asctime'](tup)

    def ctime(s=None):
        return R['time.ctime'](s if s is not None or cur() is None else _now())

    def strftime(fmt, tup=None):
        return R['time.strftime'](fmt, localtime() if tup is None else tup)
    time.sleep, time.localtime, time.gmtime = sleep, localtime, gmtime
    time.asctime, time.ctime, time.strftime = asctime, ctime, strftime


# -- stdout ------------------------------------------------------------------------

class _Std:
    def __init__(self, under, name='stdout'):
        self._u, self._name = under, name

    def write(self, s):
        t = cur()
        if t is None:
            return self._u.write(s)
        if not t.proc.killed:
            dst = t.proc.data.get(self._name)
            (dst or t.proc.out).write(s)
        return len(s)

    def flush(self):
        if cur() is None:
            self._u.flush()

    def fileno(self):
        if cur() is not None:
            raise io.UnsupportedOperation('fileno')
        return self._u.fileno()

    def isatty(self):
        return False

    def __getattr__(self, k):
        return getattr(self._u, k)


# -- subprocess ---------------------------------------------------------------------

class _ChildOut:
    """Standard output of a command, redirected to an open file of its parent.

    The descriptor is the command's own: what it writes does not depend on the parent."""
    def __init__(self, f, proc):
        raw = f
        while not isinstance(raw, SimRaw):
            raw = getattr(raw, 'buffer', None) or raw.raw
        self._fd, self._proc, self._name = os.dup(raw._fd), proc, raw.name
        proc.end_hooks.append(lambda: os.close(self._fd))

    def write(self, s):
        op('fs:write', f'{short(self._name)} {len(s)}')
        os.write(self._fd, s.encode())
        return len(s)


class SimPopen:
    def __init__(self, args, stdin=None, stdout=None, stderr=None, shell=False, cwd=None,
                 env=None, text=None, universal_newlines=None, **kw):
        t = cur()
        if isinstance(args, (str, bytes)):
            import shlex
            argv = shlex.split(args if isinstance(args, str) else args.decode())
            if not shell and len(argv) > 1:
                raise FileNotFoundError(errno.ENOENT, 'No such file or directory', args)
        else:
            argv = [os.fspath(a) for a in args]
        self.args = args
        op('exec', ' '.join(argv[:1]))
        h = t.sim.stats_handler = getattr(t.sim, 'exec_handler', None)
        if h is None:
            raise HarnessError('no simulated command handler')
        n = t.proc.data.get('nexec', 0)
        t.proc.data['nexec'] = n + 1
        body = h(t.proc, argv, cwd or os.getcwd())   # may raise a launch error
        p = core.Proc(t.sim, f'{t.proc.name}.x{n}', parent=t.proc)
        self._text = bool(text or universal_newlines)
        if stdout not in (None, subprocess.PIPE, subprocess.DEVNULL, subprocess.STDOUT):
            p.data['stdout'] = _ChildOut(stdout, p)
        if stderr == subprocess.STDOUT:
            p.data['errout'] = p.data.get('stdout')
        elif stderr not in (None, subprocess.PIPE, subprocess.DEVNULL):
            p.data['errout'] = _ChildOut(stderr, p)
        self._proc = p
        self._so, self._se = stdout, stderr
        self.pid = p.pid
        self.returncode = None
        t.sim.count('commands')
        t.sim.spawn(p.name, body, proc=p)

    def poll(self):
        op('exec', 'poll')
        if self._proc.done:
            self.returncode = self._proc.exitcode
        return self.returncode

    def wait(self, timeout=None):
        t = cur()
        if not t.wait(lambda: self._proc.done, f'wait {self._proc.name}', timeout):
            raise subprocess.TimeoutExpired(self.args, timeout)
        self.returncode = self._proc.exitcode
        return self.returncode

    def communicate(self, input=None, timeout=None):
        self.wait(timeout)
        o = self._proc.out.getvalue()
        e = self._proc.data.get('stderr', '')
        if not self._text:
            o, e = o.encode(), e.encode()
        return (o if self._so == subprocess.PIPE else None,
                e if self._se == subprocess.PIPE else None)

    def kill(self):
        cur().sim.kill(self._proc, 'killed by parent')

    terminate = kill

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.wait()


def _install_subprocess():
    def run(*pa, input=None, capture_output=False, timeout=None, check=False, **kw):
        if cur() is None:
            return real['sp.run'](*pa, input=input, capture_output=capture_output,
                                  timeout=timeout, check=check, **kw)
        if capture_output:
            kw['stdout'] = kw['stderr'] = subprocess.PIPE
        p = SimPopen(*pa, **kw)
        o, e = p.communicate(input, timeout)
        if check and p.returncode:
            raise subprocess.CalledProcessError(p.returncode, p.args, o, e)
        return subprocess.CompletedProcess(p.args, p.returncode, o, e)

    def call(*pa, timeout=None, **kw):
        if cur() is None:
            return real['sp.call'](*pa, timeout=timeout, **kw)
        return SimPopen(*pa, **kw).wait(timeout)

    def check_call(*pa, **kw):
        if cur() is None:
            return real['sp.check_call'](*pa, **kw)
        rc = call(*pa, **kw)
        if rc:
            raise subprocess.CalledProcessError(rc, pa[0] if pa else kw.get('args'))
        return 0

    def check_output(*pa, timeout=None, **kw):
        if cur() is None:
            return real['sp.check_output'](*pa, timeout=timeout, **kw)
        return run(*pa, stdout=subprocess.PIPE, timeout=timeout, check=True, **kw).stdout

    def system(cmd):
        if cur() is None:
            return real['os.system'](cmd)
        return SimPopen(cmd, shell=True).wait() << 8
    for nm in ('run', 'call', 'check_call', 'check_output', 'Popen'):
        real['sp.' + nm] = getattr(subprocess, nm)
    real['os.system'] = os.system
    subprocess.run, subprocess.call, subprocess.check_call = run, call, check_call
    subprocess.check_output = check_output
    os.system = system

    rp = subprocess.Popen

    class Meta(type(rp)):
        def __call__(cls, *a, **k):
            if cur() is not None and cls is Popen:
                return SimPopen(*a, **k)
            return super().__call__(*a, **k)

    class Popen(rp, metaclass=Meta):
        pass
    subprocess.Popen = Popen


_done = False


def install():
    global _done
    if _done:
        return
    _done = True
    real['open'] = builtins.open
    real['os.open'] = os.open
    for nm, cls, mut in (('remove', 'fs:remove', True), ('unlink', 'fs:remove', True),
                         ('mkdir', 'fs:mkdir', True), ('rmdir', 'fs:remove', True),
                         ('truncate', 'fs:truncate', True), ('chmod', 'fs:chmod', True),
                         ('utime', 'fs:chmod', True),
                         ('stat', 'fs:stat', False), ('access', 'fs:stat', False)):
        _wrap1(nm, cls, mut)
    _wrap_list('listdir')
    _wrap_list('scandir')
    for nm in ('rename', 'replace', 'link'):
        _wrap2(nm, 'fs:rename')
    real['os.getpid'] = os.getpid
    os.getpid = lambda: real['os.getpid']() if cur() is None else cur().proc.pid
    os.open = _os_open
    real['os.fsync'] = os.fsync

    def fsync(fd):
        if cur() is None or isinstance(fd, int):
            return real['os.fsync'](fd)
        op('fs:fsync')
    os.fsync = fsync
    builtins.open = sim_open
    io.open = sim_open
    install_clock()
    _install_subprocess()
    sys.stdout = _Std(sys.stdout)
    sys.stderr = _Std(sys.stderr, 'errout')
    from . import simmpi, simmp
    simmp.install()
    simmpi.install_mpi4py()

    import astropy.utils.decorators as ad
    ad.lazyproperty.__get__ = _unlocked(ad.lazyproperty.__get__)

    import fitsio
    fx = fitsio.FITS

    class FITS(fx):             # a library of its own: opening and reading are points of interest
        def __init__(self, name, *a, **k):
            m = managed(name) if cur() is not None else None
            if m is not None:
                op('fs:open', short(m))
            super().__init__(name, *a, **k)
            self._simname = m

        def __getitem__(self, ext):
            if cur() is not None and self._simname:
                op('fs:read', short(self._simname))
            return super().__getitem__(ext)
    FITS.__name__ = 'FITS'
    fitsio.FITS = FITS

    import h5py

    def yielding(cls, name):
        fn = getattr(cls, name)

        def f(*a, **k):
            if cur() is not None:
                op('h5', name)
                with core.NoYield():        # it holds the lock of the library
                    return fn(*a, **k)
            return fn(*a, **k)
        f.__name__ = name
        setattr(cls, name, f)
    for cls, names in ((h5py.Group, ('__getitem__', '__setitem__', 'create_dataset', 'visit', 'visititems')),
                       (h5py.Dataset, ('__getitem__', '__setitem__'))):
        for nm in names:
            yielding(cls, nm)
    base = h5py.File

    class File(base):
        def __init__(self, name, mode='r', *a, **k):
            m = None if not isinstance(name, (str, bytes, os.PathLike)) else managed(name)
            if m is None:
                if cur() is not None and mode != 'r' and isinstance(name, (str, os.PathLike)):
                    _deny(name, f'h5py {mode}')
                super().__init__(name, mode, *a, **k)
                self._simraw = None
                return
            exists = real['os.stat'] and os.path.exists(m)
            if mode in ('r', 'r+') and not exists:
                op('fs:open', short(m))
                raise FileNotFoundError(errno.ENOENT, 'Unable to open file', m)
            if mode in ('w-', 'x') and exists:
                raise FileExistsError(errno.EEXIST, 'Unable to create file', m)
            # the library keeps one table of open files per process
            table = cur().proc.data.setdefault('h5open', [])
            if exists and mode in ('w', 'r+', 'a'):
                st = real['os.stat'](m)
                for ref, ino, w in table:
                    if ref() is not None and ref()._simraw is not None and ino == (st.st_dev, st.st_ino) \
                            and (mode == 'w' or not w):
                        raise OSError('Unable to synchronously create file (unable to truncate a file '
                                      'which is already open)' if mode == 'w' else 'Unable to '
                                      'synchronously open file (file is already open for read-only)')
            om = {'r': 'rb', 'r+': 'r+b', 'w': 'w+b', 'w-': 'x+b', 'x': 'x+b',
                  'a': 'r+b' if exists else 'w+b'}[mode]
            raw = sim_open(m, om, 0)
            k.pop('driver', None)
            try:
                with core.NoYield():
                    super().__init__(Whole(raw), 'w' if mode in ('w-', 'x') or
                                     (mode == 'a' and not exists)
                                     else ('r+' if mode == 'a' else mode), *a, **k)
            except BaseException:
                raw.close()
                raise
            self._simraw = raw
            st = real['os.stat'](m)
            table.append((weakref.ref(self), (st.st_dev, st.st_ino), mode != 'r'))

        def __exit__(self, *args):
            # not that of the library, which holds its lock while the file is closed
            if self.id:
                self.close()

        def close(self):
            try:
                with core.NoYield():
                    super().close()
            finally:
                r = getattr(self, '_simraw', None)
                if r is not None:
                    self._simraw = None
                    r.close()
    File.__name__ = 'File'
    h5py.File = File
    h5py._hl.files.File = File
