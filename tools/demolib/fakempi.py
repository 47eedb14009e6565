"""A small MPI stand-in for demonstrations: ranks are threads, messages are pickled."""
import contextlib
import io
import os
import pickle
import queue
import sys
import threading
import types

TIMEOUT = float(os.environ.get('FAKEMPI_TIMEOUT', 40))


class Aborted(BaseException):
    pass


class Stuck(Exception):
    pass


class World:
    def __init__(self, size):
        self.size = size
        self.box = {}
        self.lock = threading.Lock()
        self.aborted = None
        self.jitter = lambda src, dst, n: 0.0      # seconds to delay a message
        self.nsent = 0

    def q(self, *key):
        with self.lock:
            return self.box.setdefault(key, queue.Queue())


class Req:
    def __init__(self, f=lambda: None):
        self.f = f

    def wait(self):
        return self.f()

    def test(self):
        return True, None


class Comm:
    def __init__(self, world, rank, ctx=(), group=None):
        self.w, self.rank, self.ctx = world, rank, ctx
        self.group = list(range(world.size)) if group is None else group
        self.size = len(self.group)
        self.nc = 0
        self.log = []

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def __deepcopy__(self, memo):
        return self

    def _get(self, key, timeout=None):
        import time
        end = time.monotonic() + (timeout or TIMEOUT)
        while True:
            if self.w.aborted is not None:
                raise Aborted(self.w.aborted)
            try:
                return self.w.q(*key).get(timeout=0.05)
            except queue.Empty:
                if time.monotonic() > end:
                    raise Stuck(f'rank {self.rank} waits forever at {key}') from None

    def send(self, obj, dest, tag=0):
        self.w.q('p', self.ctx, self.rank, dest, tag).put(pickle.dumps(obj))

    ssend = bsend = send

    def isend(self, obj, dest, tag=0):
        self.send(obj, dest, tag)
        return Req()

    def recv(self, buf=None, source=None, tag=0):
        return pickle.loads(self._get(('p', self.ctx, source, self.rank, tag)))

    def irecv(self, buf=None, source=None, tag=0):
        return Req(lambda: self.recv(source=source, tag=tag))

    # every collective is an exchange of (kind, root, object) between all ranks
    def _coll(self, kind, obj, root=None):
        self.nc += 1
        self.log.append(kind)
        data = pickle.dumps((kind, root, obj))
        for d in range(self.size):
            self.w.q('c', self.ctx, self.nc, self.rank, d).put(data)
        out = []
        for s in range(self.size):
            k, r, o = pickle.loads(self._get(('c', self.ctx, self.nc, s, self.rank)))
            if (k, r) != (kind, root):
                raise Stuck(f'rank {self.rank} is in {kind} and rank {s} in {k}')
            out.append(o)
        return out

    def barrier(self):
        self._coll('barrier', None)

    Barrier = barrier

    def bcast(self, obj=None, root=0):
        return self._coll('bcast', obj if self.rank == root else None, root)[root]

    def gather(self, obj, root=0):
        r = self._coll('gather', obj, root)
        return r if self.rank == root else None

    def scatter(self, obj=None, root=0):
        return self._coll('scatter', obj if self.rank == root else None, root)[root][self.rank]

    def allgather(self, obj):
        return self._coll('allgather', obj)

    def allreduce(self, obj, op=None):
        r = self._coll('allreduce', obj)
        t = r[0]
        for x in r[1:]:
            t = op(t, x) if op else t + x
        return t

    def reduce(self, obj, op=None, root=0):
        r = self._coll('reduce', obj, root)
        if self.rank != root:
            return None
        t = r[0]
        for x in r[1:]:
            t = op(t, x) if op else t + x
        return t

    def Split(self, color=0, key=0):
        r = self._coll('split', (color, key, self.rank))
        mine = sorted((k, s) for c, k, s in r if c == color)
        if color is None:
            return None
        group = [s for _, s in mine]
        return Comm(self.w, group.index(self.rank), self.ctx + ((self.nc, color),), group)

    def Abort(self, code=0):
        self.w.aborted = code
        raise Aborted(code)


def run(size, fn, quiet=True, world=None):
    """Run fn(comm) on every rank; returns (results, errors) lists."""
    w = world or World(size)
    res, err = [None] * size, [None] * size

    def body(r):
        try:
            res[r] = fn(Comm(w, r))
        except BaseException as e:      # noqa
            err[r] = e
    th = [threading.Thread(target=body, args=(r,), daemon=True) for r in range(size)]
    with contextlib.redirect_stdout(io.StringIO()) if quiet else contextlib.nullcontext():
        for t in th:
            t.start()
        for t in th:
            t.join(TIMEOUT * 3)
    for r, t in enumerate(th):
        if t.is_alive():
            err[r] = Stuck(f'rank {r} never ended')
    return res, err


def install(get_comm):
    """Make `from mpi4py import MPI` give get_comm() as COMM_WORLD."""
    m = types.ModuleType('mpi4py')
    mpi = types.ModuleType('mpi4py.MPI')
    mpi.__getattr__ = lambda name: get_comm() if name == 'COMM_WORLD' else (_ for _ in ()).throw(AttributeError(name))
    m.MPI = mpi
    m.__version__ = '4.0.0'
    sys.modules['mpi4py'] = m
    sys.modules['mpi4py.MPI'] = mpi


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        yield


def check(ok, what):
    if not ok:
        print('BROKEN:', what)
        sys.stdout.flush()
        os._exit(1)


def done():
    print('as it should be')
    sys.stdout.flush()
    os._exit(0)
