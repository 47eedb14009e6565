"""Simulated multiprocessing: Process, Queue, SimpleQueue, Pipe with fork semantics.

A started Process runs as a simulated process on a deep copy of its arguments
(what fork gives it), except that arrays backed by multiprocessing RawArray
stay shared.  Queue.put hands the object to a feeder which pickles it later
(as the real one does) and writes it to a pipe of finite capacity; a process
does not exit before its feeders have flushed; a killed process loses what its
feeders had not written, and when killed in the middle of a write it leaves
the pipe locked, as a real one does.
"""
import copy
import ctypes
import pickle
import queue as _queue

import numpy as np

from . import core
from .core import cur, op, SimKill, HarnessError

# The messages of these small workloads are far smaller than real ones, so pipes may be, too:
# what matters is whether a writer has to wait for its reader.
PIPE_CAPACITIES = (65536, 2000, 300, 60)


def capacity(sim):
    c = getattr(sim, 'pipe_capacity', None)
    if c is None:
        c = sim.pipe_capacity = PIPE_CAPACITIES[sim.choose(4, 'pipe', w0=0.3)]
        sim.count(f'pipe_capacity_{c}')
    return c


# -- fork semantics: deep copy that keeps shared memory shared -------------------

def is_shared(a):
    b = a
    for _ in range(20):
        if isinstance(b, (ctypes.Array, memoryview)):
            return True
        nb = getattr(b, 'base', None)
        if nb is None:
            return False
        b = nb
    return False


_orig_nd_deepcopy = np.ndarray.__deepcopy__


def _copy_ndarray(a, memo):
    if type(a) is np.ndarray and is_shared(a):
        return a.view()
    return _orig_nd_deepcopy(a, memo)


def fork_copy(obj):
    old = copy._deepcopy_dispatch.get(np.ndarray)
    copy._deepcopy_dispatch[np.ndarray] = _copy_ndarray
    try:
        return copy.deepcopy(obj)
    finally:
        if old is None:
            del copy._deepcopy_dispatch[np.ndarray]
        else:
            copy._deepcopy_dispatch[np.ndarray] = old


# -- queue ----------------------------------------------------------------------

class PipeState:
    """Shared (kernel) part of a queue."""
    def __init__(self):
        self.items = []          # complete pickled items
        self.nbytes = 0
        self.wlock = None        # process holding the write lock
        self.partial = None      # process that has written part of an item
        self.readers = 0         # readers blocked in get
        self.feeders = {}        # Proc -> list of objects not yet written


class SimQueue:
    def __init__(self, maxsize=0, ctx=None):
        self._s = PipeState()
        self._maxsize = maxsize
        self._cancel = set()
        self._closed = False

    def __deepcopy__(self, memo):
        return self

    # writer side
    def put(self, obj, block=True, timeout=None):
        op('mpq', 'put')
        t = cur()
        p, s, sim = t.proc, self._s, t.sim
        buf = s.feeders.get(p)
        if buf is None:
            buf = s.feeders[p] = []
            p.exit_hooks.append(lambda: self._flush(p))
            p.end_hooks.append(lambda: self._gone(p))
        buf.append(obj)
        sim.count('mp_queue_puts')
        if len(buf) == 1:
            self._arm(sim, p)

    def put_nowait(self, obj):
        return self.put(obj, False)

    def _arm(self, sim, p):
        s = self._s
        buf = s.feeders[p]

        def start():
            if p.killed:
                return
            core_fault(sim, p)
            if p.killed:
                return
            try:
                data = pickle.dumps(buf[0], pickle.HIGHEST_PROTOCOL)
            except Exception as e:      # the real feeder prints and drops the object
                p.out.write(f'feeder: {e!r}\n')
                sim.count('mp_feeder_pickle_errors')
                buf.pop(0)
                if buf:
                    self._arm(sim, p)
                return
            s.wlock = p
            # a write larger than one page is not atomic
            if len(data) + 4 > 4096:
                s.partial = p
            sim.count('mp_bytes', len(data))

            def fits():
                return (s.nbytes + len(data) <= capacity(sim)) or (not s.items and s.readers > 0)

            def finish():
                if p.killed:
                    return
                s.wlock = None
                s.partial = None
                s.items.append(data)
                s.nbytes += len(data)
                buf.pop(0)
                if buf:
                    self._arm(sim, p)
            sim.add_event(lambda: p.killed or fits(), finish, f'feeder {p.name} writes', owner=p)
        sim.add_event(lambda: p.killed or s.wlock is None, start, f'feeder {p.name} starts',
                      owner=p)

    def _flush(self, p):
        if p in self._cancel:
            return
        buf = self._s.feeders[p]
        cur().wait(lambda: not buf, 'flush queue at exit')

    def _gone(self, p):
        s = self._s
        if not p.killed and p in self._cancel and s.wlock is not p:
            s.feeders[p].clear()

    # reader side
    def _avail(self):
        return bool(self._s.items)

    def get(self, block=True, timeout=None):
        op('mpq', 'get')
        t = cur()
        s = self._s
        if not block:
            timeout = 0.0
        s.readers += 1
        try:
            # data of a writer killed half-way makes the pipe readable, and the read blocks
            ok = t.wait(lambda: s.items or (s.partial is not None and s.partial.killed),
                        'queue get', timeout)
            if not ok:
                t.sim.count('mp_get_timeouts')
                raise _queue.Empty
            if not s.items:
                t.wait(lambda: bool(s.items), 'queue get (truncated item)')
        finally:
            s.readers -= 1
        data = s.items.pop(0)
        s.nbytes -= len(data)
        return pickle.loads(data)

    def get_nowait(self):
        return self.get(False)

    def empty(self):
        op('mpq', 'empty')
        return not self._s.items

    def qsize(self):
        op('mpq', 'qsize')
        return len(self._s.items)

    def full(self):
        return False

    def close(self):
        self._closed = True

    def join_thread(self):
        t = cur()
        if t is not None and t.proc in self._s.feeders:
            self._flush(t.proc)

    def cancel_join_thread(self):
        t = cur()
        if t is not None:
            self._cancel.add(t.proc)


class SimSimpleQueue(SimQueue):
    pass


class SimJoinableQueue(SimQueue):
    def task_done(self):
        pass

    def join(self):
        pass


def core_fault(sim, p):
    """Fault point for the feeder of process p (it is about to write)."""
    inj = sim.injector
    if inj is not None and hasattr(inj, 'feeder'):
        inj.feeder(p)


# -- pipe -----------------------------------------------------------------------

class _Conn:
    """One end of a pipe.  rx/tx are shared lists of [bytes, fraction written]."""
    def __init__(self, rx, tx, readable=True, writable=True):
        self._rx, self._tx = rx, tx
        self.readable, self.writable = readable, writable
        self._holders = set()
        self._reading = 0
        self.peer = None

    def __deepcopy__(self, memo):
        return self

    def holders(self):
        return [p for p in self._holders if not p.done and not p.killed]

    def _mine(self, what):
        if cur().proc not in self._holders:
            raise OSError('handle is closed')
        if not (self.readable if what == 'r' else self.writable):
            raise OSError('connection is ' + ('write' if what == 'r' else 'read') + '-only')

    @property
    def closed(self):
        t = cur()
        return t is not None and t.proc not in self._holders

    def _put(self, data):
        op('mpq', 'pipe send')
        t = cur()
        self._mine('w')
        size = sum(len(m['data']) for m in self._tx)
        if not self.peer.holders():
            raise BrokenPipeError(32, 'Broken pipe')
        msg = dict(data=data, done=False, writer=t.proc)
        self._tx.append(msg)
        t.sim.count('mp_bytes', len(data))
        if size + len(data) > capacity(t.sim):
            t.sim.count('mp_full_pipes')
            # the writer blocks half-way until somebody reads
            t.wait(lambda: (self._tx[0] is msg and self.peer._reading > 0)
                   or not self.peer.holders(), 'pipe send (full)')
            if not self.peer.holders():
                raise BrokenPipeError(32, 'Broken pipe')
        msg['done'] = True

    def send(self, obj):
        self._put(pickle.dumps(obj, pickle.HIGHEST_PROTOCOL))

    def send_bytes(self, buf):
        self._put(b'B' + bytes(buf))

    def _eof(self):
        return not self.peer.holders()

    def _broken(self):
        return bool(self._rx) and not self._rx[0]['done'] and self._rx[0]['writer'].killed

    def _some(self):
        return bool(self._rx) or self._eof()

    def _take(self):
        op('mpq', 'pipe recv')
        t = cur()
        self._mine('r')
        self._reading += 1
        try:
            t.wait(lambda: (self._rx and self._rx[0]['done']) or (not self._rx and self._eof())
                   or (self._broken() and self._eof()), 'pipe recv')
        finally:
            self._reading -= 1
        if not self._rx:
            raise EOFError
        if not self._rx[0]['done']:
            raise OSError('got end of file during message')
        return self._rx.pop(0)['data']

    def recv(self):
        return pickle.loads(self._take())

    def recv_bytes(self, maxlength=None):
        return self._take()[1:]

    def poll(self, timeout=0.0):
        op('mpq', 'pipe poll')
        return cur().wait(self._some, 'pipe poll', timeout)

    def close(self):
        t = cur()
        if t is not None:
            self._holders.discard(t.proc)

    def fileno(self):
        return 1000 + id(self) % 1000000

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def SimPipe(duplex=True):
    a, b = [], []
    if duplex:
        c1, c2 = _Conn(a, b), _Conn(b, a)
    else:
        c1, c2 = _Conn(a, b, True, False), _Conn(b, a, False, True)
    c1.peer, c2.peer = c2, c1
    p = cur().proc
    for c in (c1, c2):
        c._holders.add(p)
    p.data.setdefault('conns', []).extend([c1, c2])
    return c1, c2


# -- process --------------------------------------------------------------------

class SimProcess:
    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        t = cur()
        self._target, self._args, self._kwargs = target, tuple(args), dict(kwargs or {})
        n = t.proc.data.get('nworkers', 0)
        t.proc.data['nworkers'] = n + 1
        self._index = n
        self.name = name or f'Process-{n + 1}'
        self.daemon = bool(daemon)
        self._proc = None

    def __deepcopy__(self, memo):
        return self

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def start(self):
        if self._proc is not None:
            raise AssertionError('cannot start a process twice')
        op('mp', 'start')
        t = cur()
        sim, parent = t.sim, t.proc
        inj = sim.injector
        if inj is not None and hasattr(inj, 'fork'):
            inj.fork(parent)
        p = core.Proc(sim, f'{parent.name}.w{self._index}', parent=parent)
        for c in parent.data.get('conns', []):
            if parent in c._holders:
                c._holders.add(p)
        p.data['conns'] = list(parent.data.get('conns', []))
        sim.count('mp_processes')
        if type(self).run is SimProcess.run:
            tgt, args, kwargs = self._target, *fork_copy((self._args, self._kwargs))

            def body():
                if tgt:
                    tgt(*args, **kwargs)
        else:
            body = fork_copy(self).run
        if not self.daemon:
            if not parent.data.get('joins'):
                parent.data['joins'] = []
                parent.exit_hooks.append(lambda: _join_all(parent))
            parent.data['joins'].append(p)
        else:
            # terminated when the parent exits, before the others are joined
            parent.exit_hooks.insert(0, lambda: sim.kill(p, 'daemonic process'))
        self._proc = p
        sim.spawn(p.name, body, proc=p)

    def _need(self):
        if self._proc is None:
            raise AssertionError('can only use a started process')
        return self._proc

    def join(self, timeout=None):
        p = self._need()
        op('mp', 'join')
        cur().wait(lambda: p.done, f'join {p.name}', timeout)

    def is_alive(self):
        if self._proc is None:
            return False
        op('mp', 'is_alive')
        return not self._proc.done

    @property
    def exitcode(self):
        if self._proc is None or not self._proc.done:
            if cur() is not None and self._proc is not None:
                op('mp', 'exitcode')
            if self._proc is None or not self._proc.done:
                return None
        return self._proc.exitcode

    @property
    def pid(self):
        return None if self._proc is None else self._proc.pid

    ident = pid

    @property
    def sentinel(self):
        return self._need()

    def terminate(self):
        p = self._need()
        op('mp', 'terminate')
        p.sim.kill(p, 'terminate')
        if not p.done:
            p.exitcode = -15

    def kill(self):
        p = self._need()
        op('mp', 'kill')
        p.sim.kill(p, 'kill')

    def close(self):
        p = self._need()
        if not p.done:
            raise ValueError('Cannot close a process while it is still running')


def _join_all(parent):
    t = cur()
    for p in parent.data['joins']:
        t.wait(lambda: p.done, f'exit waits for {p.name}')


def sim_wait(object_list, timeout=None):
    """multiprocessing.connection.wait for sentinels and pipe connections."""
    op('mp', 'wait')
    objs = list(object_list)

    def ready():
        return [o for o in objs
                if (o.done if isinstance(o, core.Proc) else o._some())]
    cur().wait(ready, 'wait', timeout)
    return ready()


def active_children():
    t = cur()
    return [c for c in t.proc.children if not c.done]


class _Ctx:
    Process, Queue, SimpleQueue, Pipe = SimProcess, SimQueue, SimSimpleQueue, staticmethod(SimPipe)
    JoinableQueue = SimJoinableQueue

    @staticmethod
    def RawArray(*a):
        return sim_rawarray(*a)

    @staticmethod
    def cpu_count():
        return CPU_COUNT

    @staticmethod
    def get_start_method(allow_none=False):
        return 'fork'


CPU_COUNT = 16


def sim_rawarray(typecode_or_type, size_or_initializer):
    """Shared memory: one ctypes array that fork_copy does not copy."""
    import multiprocessing.sharedctypes as sc
    T = sc.typecode_to_type.get(typecode_or_type, typecode_or_type)
    if isinstance(size_or_initializer, int):
        return (T * size_or_initializer)()
    return (T * len(size_or_initializer))(*size_or_initializer)


def install():
    """Replace the multiprocessing entry points inside simulated tasks."""
    import multiprocessing as mp
    import multiprocessing.connection as mpc

    def switch(real, sim):
        if isinstance(real, type):
            class Switch(real):
                pass

        def f(*a, **k):
            return (sim if cur() is not None else real)(*a, **k)
        f.__name__ = getattr(real, '__name__', 'f')
        return f
    mp.Queue = switch(mp.Queue, SimQueue)
    mp.SimpleQueue = switch(mp.SimpleQueue, SimSimpleQueue)
    mp.JoinableQueue = switch(mp.JoinableQueue, SimJoinableQueue)
    mp.Pipe = switch(mp.Pipe, SimPipe)
    mp.RawArray = switch(mp.RawArray, sim_rawarray)
    mp.active_children = switch(mp.active_children, active_children)
    mp.cpu_count = switch(mp.cpu_count, lambda: CPU_COUNT)
    mp.get_context = switch(mp.get_context, lambda method=None: _Ctx)
    mp.connection.wait = mpc.wait = switch(mpc.wait, sim_wait)

    def forbidden(what):
        def f(*a, **k):
            raise HarnessError(f'multiprocessing.{what} is not simulated')
        return f
    for nm in ('Pool', 'Manager'):
        setattr(mp, nm, switch(getattr(mp, nm), forbidden(nm)))

    real = mp.Process

    class ProcessMeta(type(real)):
        def __call__(cls, *a, **k):
            if cur() is not None and cls is Process:
                return SimProcess(*a, **k)
            return super().__call__(*a, **k)

    class Process(real, metaclass=ProcessMeta):
        pass
    mp.Process = Process
