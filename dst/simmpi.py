"""Simulated MPI: the communicator API redrock uses (mpi4py lower-case API).

Objects are really pickled.  Whether a send completes at once (buffered) or
only when its receive is posted is a scheduler decision, as is when each
message arrives (messages between one pair of ranks on one communicator never
overtake each other, as MPI guarantees; everything else may).  Collectives are
checked for matching kind and root across ranks.
"""
import pickle
import sys
import types

import numpy as np

from . import core
from .core import cur, op, SimKill, HarnessError

ANY_SOURCE = -1
ANY_TAG = -1


class Job:
    """One MPI job."""
    def __init__(self, sim, size, name='job', sync_bias=None):
        self.sim = sim
        self.size = size
        self.name = name
        self.procs = []
        self.aborted = None
        self.mismatch = None
        self.nctx = 0
        self.channels = []       # all Msg not received, for the leftover check
        self.posted = {}         # (ctx, dst) -> list of Recv
        self.arrived = {}        # (ctx, dst) -> list of Msg
        self.inflight = {}       # (ctx, src, dst) -> list of Msg
        self.colls = {}          # (ctx, seq) -> Coll
        self.ctx_groups = {}
        self.counters = {}
        # probability that a send is buffered, and that a collective lets ranks leave early
        r = sim.rng.random() if sim.replay is None else 0.0
        self.p_eager = (1.0, 0.5, 0.0)[int(r * 3)] if sync_bias is None else sync_bias

    def world(self, rank):
        if 0 not in self.ctx_groups:
            self.ctx_groups[0] = list(range(self.size))
            self.nctx = 1
        return SimComm(self, 0, list(range(self.size)), rank)

    def launch(self, fn, args=(), prefix='rank'):
        """Start one process per rank running fn(comm, *args)."""
        for r in range(self.size):
            p = core.Proc(self.sim, f'{prefix}{r}', job=self)
            p.data['rank'] = r
            self.procs.append(p)
        for r, p in enumerate(self.procs):
            p.data['comm_world'] = self.world(r)
            p.exit_hooks.append(lambda p=p: self._finalize(p))
            p.end_hooks.append(lambda p=p: self._lost(p))
            self.sim.spawn(p.name, fn, (p.data['comm_world'],) + tuple(args), proc=p)
        return self.procs

    def _finalize(self, p):
        # MPI_Finalize at interpreter exit: collective, so it may wait for the others
        p.data['finalized'] = True
        t = cur()
        t.wait(lambda: all(q.data.get('finalized') or q.killed or q.done for q in self.procs),
               'MPI_Finalize')

    def _lost(self, p):
        # the launcher ends a job of which one process was killed
        if p.killed and p.kill_reason == 'injected kill' and self.aborted is None:
            self.abort(9, p)

    def abort(self, code, by):
        if self.aborted is None:
            self.aborted = (code, by)
            self.sim.count('mpi_abort')
        # the abort reaches the other ranks after an arbitrary delay
        for q in self.procs:
            if q is not by and not q.done and not q.killed:
                self.sim.add_event(lambda q=q: not q.done and not q.killed,
                                   lambda q=q: self._kill_tree(q, 'MPI abort'),
                                   f'abort reaches {q.name}')
        self._kill_tree(by, 'MPI abort')

    def _kill_tree(self, q, why):
        for c in q.children:
            self._kill_tree(c, why)
        self.sim.kill(q, why)

    def bad(self, what):
        if self.mismatch is None:
            self.mismatch = what
            self.sim.violations.append(('mpi', what))
        for q in self.procs:
            self._kill_tree(q, 'MPI misuse')
        raise SimKill()

    def leftovers(self):
        out = []
        for k, v in self.inflight.items():
            out += [f'message {k[1]}->{k[2]} never received' for m in v]
        for k, v in self.arrived.items():
            out += [f'message {m.src}->{k[1]} never received' for m in v]
        return out


class Msg:
    __slots__ = ('src', 'dst', 'tag', 'data', 'matched', 'eager')

    def __init__(self, src, dst, tag, data, eager):
        self.src, self.dst, self.tag, self.data = src, dst, tag, data
        self.matched = False
        self.eager = eager


class Recv:
    def __init__(self, source, tag):
        self.source, self.tag = source, tag
        self.msg = None

    def accepts(self, m):
        return self.source in (ANY_SOURCE, m.src) and self.tag in (ANY_TAG, m.tag)


class Coll:
    def __init__(self, kind, root):
        self.kind, self.root = kind, root
        self.data = {}
        self.out = None


class Request:
    def __init__(self, done, result=lambda: None, label='wait'):
        self._done, self._result, self._label = done, result, label

    def wait(self, status=None):
        op('mpi', self._label)
        t = cur()
        t.wait(self._done, self._label)
        return self._result()

    Wait = wait

    def test(self, status=None):
        op('mpi', 'test')
        if self._done():
            return True, self._result()
        return False, None

    @staticmethod
    def waitall(reqs, statuses=None):
        return [r.wait() for r in reqs]

    Waitall = waitall

    def Free(self):
        pass

    def cancel(self):
        pass


class Status:
    def __init__(self):
        self.source = self.tag = 0

    def Get_source(self):
        return self.source

    def Get_tag(self):
        return self.tag


class SimComm:
    def __init__(self, job, ctx, group, rank):
        self._job, self._ctx, self._group, self._rank = job, ctx, group, rank

    # identity
    @property
    def rank(self):
        return self._rank

    @property
    def size(self):
        return len(self._group)

    def Get_rank(self):
        return self._rank

    def Get_size(self):
        return len(self._group)

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise TypeError('cannot pickle an MPI communicator')

    def _check(self, r, what):
        if not isinstance(r, (int,)) and not hasattr(r, '__index__'):
            raise TypeError(f'{what} must be an integer')
        r = int(r)
        if not 0 <= r < self.size:
            raise RuntimeError(f'MPI_ERR_RANK: invalid rank {r}')
        return r

    # point to point
    def _match(self, key):
        posted = self._job.posted.get(key, [])
        arr = self._job.arrived.get(key, [])
        for rq in list(posted):
            cand = []
            seen = set()
            for m in arr:
                if rq.accepts(m) and m.src not in seen:
                    seen.add(m.src)
                    cand.append(m)
            if cand:
                m = cand[self._job.sim.choose(len(cand), 'anysrc')]
                arr.remove(m)
                posted.remove(rq)
                rq.msg = m
                m.matched = True

    def _post(self, obj, dest, tag, force_sync=False, force_eager=False):
        job, sim = self._job, self._job.sim
        dest = self._check(dest, 'dest')
        data = pickle.dumps(obj, pickle.HIGHEST_PROTOCOL)
        sim.count('mpi_messages')
        sim.count('mpi_bytes', len(data))
        if force_eager:
            eager = True
        elif force_sync:
            eager = False
        else:
            eager = sim.choose(2, 'eager', w0=job.p_eager) == 0
        sim.count('send_buffered' if eager else 'send_synchronous')
        m = Msg(self._rank, dest, tag, data, eager)
        key = (self._ctx, self._rank, dest)
        q = job.inflight.setdefault(key, [])
        q.append(m)

        def fire():
            q.remove(m)
            k = (self._ctx, dest)
            job.arrived.setdefault(k, []).append(m)
            self._match(k)
        sim.add_event(lambda: q[0] is m, fire, f'deliver {self._rank}->{dest}')
        return m

    def send(self, obj, dest, tag=0):
        op('mpi', f'send->{dest}')
        m = self._post(obj, dest, tag)
        if not m.eager:
            cur().wait(lambda: m.matched, f'send->{dest}')

    def ssend(self, obj, dest, tag=0):
        op('mpi', f'ssend->{dest}')
        m = self._post(obj, dest, tag, force_sync=True)
        cur().wait(lambda: m.matched, f'ssend->{dest}')

    def bsend(self, obj, dest, tag=0):
        op('mpi', f'bsend->{dest}')
        self._post(obj, dest, tag, force_eager=True)

    def isend(self, obj, dest, tag=0):
        op('mpi', f'isend->{dest}')
        m = self._post(obj, dest, tag)
        return Request(lambda: m.matched or m.eager, label=f'wait isend->{dest}')

    issend = isend

    def irecv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG):
        op('mpi', f'irecv<-{source}')
        rq = self._postrecv(source, tag)
        return Request(lambda: rq.msg is not None, lambda: pickle.loads(rq.msg.data),
                       label=f'wait irecv<-{source}')

    def _postrecv(self, source, tag):
        if source != ANY_SOURCE:
            source = self._check(source, 'source')
        rq = Recv(source, tag)
        k = (self._ctx, self._rank)
        self._job.posted.setdefault(k, []).append(rq)
        self._match(k)
        return rq

    def recv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        op('mpi', f'recv<-{source}')
        rq = self._postrecv(source, tag)
        cur().wait(lambda: rq.msg is not None, f'recv<-{source}')
        if status is not None:
            status.source, status.tag = rq.msg.src, rq.msg.tag
        return pickle.loads(rq.msg.data)

    def sendrecv(self, sendobj, dest, sendtag=0, recvbuf=None, source=ANY_SOURCE,
                 recvtag=ANY_TAG, status=None):
        op('mpi', f'sendrecv->{dest}<-{source}')
        rq = self._postrecv(source, recvtag)
        m = self._post(sendobj, dest, sendtag)
        cur().wait(lambda: rq.msg is not None and (m.eager or m.matched),
                   f'sendrecv->{dest}<-{source}')
        return pickle.loads(rq.msg.data)

    def iprobe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        op('mpi', 'iprobe')
        rq = Recv(source, tag)
        for m in self._job.arrived.get((self._ctx, self._rank), []):
            if rq.accepts(m):
                if status is not None:
                    status.source, status.tag = m.src, m.tag
                return True
        return False

    def probe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        op('mpi', 'probe')
        rq = Recv(source, tag)
        arr = self._job.arrived.setdefault((self._ctx, self._rank), [])
        cur().wait(lambda: any(rq.accepts(m) for m in arr), 'probe')
        for m in arr:
            if rq.accepts(m):
                if status is not None:
                    status.source, status.tag = m.src, m.tag
                return True

    # collectives
    def _enter(self, kind, root=None, contrib=None):
        job = self._job
        op('mpi', kind)
        k = (self._ctx, self._rank)
        seq = job.counters.get(k, 0)
        job.counters[k] = seq + 1
        c = job.colls.get((self._ctx, seq))
        if c is None:
            c = job.colls[(self._ctx, seq)] = Coll(kind, root)
        elif (c.kind, c.root) != (kind, root):
            job.bad(f'mismatched collective: rank {self._rank} calls {kind}'
                    f'{"" if root is None else f"(root={root})"} while another rank is in '
                    f'{c.kind}{"" if c.root is None else f"(root={c.root})"} (collective #{seq})')
        c.data[self._rank] = contrib
        job.sim.count('mpi_collectives')
        return c

    def _dump(self, obj):
        d = pickle.dumps(obj, pickle.HIGHEST_PROTOCOL)
        self._job.sim.count('mpi_bytes', len(d))
        return d

    def _all(self, c, kind):
        n = self.size
        cur().wait(lambda: len(c.data) == n, kind)

    def _maybe_sync(self, c, kind):
        if self._job.sim.choose(2, 'collsync', w0=self._job.p_eager) == 1:
            self._all(c, kind)
        else:
            cur().step(kind)

    def barrier(self):
        self._all(self._enter('barrier'), 'barrier')

    Barrier = barrier

    def bcast(self, obj=None, root=0):
        root = self._check(root, 'root')
        c = self._enter('bcast', root, self._dump(obj) if self._rank == root else None)
        if self._rank == root:
            self._maybe_sync(c, 'bcast')
            return obj
        cur().wait(lambda: root in c.data, 'bcast')
        return pickle.loads(c.data[root])

    def gather(self, sendobj, root=0):
        root = self._check(root, 'root')
        c = self._enter('gather', root, self._dump(sendobj))
        if self._rank == root:
            self._all(c, 'gather')
            return [pickle.loads(c.data[r]) for r in range(self.size)]
        self._maybe_sync(c, 'gather')
        return None

    def scatter(self, sendobj=None, root=0):
        root = self._check(root, 'root')
        contrib = None
        if self._rank == root:
            if len(sendobj) != self.size:
                raise ValueError(f'expecting {self.size} items, got {len(sendobj)}')
            contrib = [self._dump(x) for x in sendobj]
        c = self._enter('scatter', root, contrib)
        if self._rank == root:
            self._maybe_sync(c, 'scatter')
        else:
            cur().wait(lambda: root in c.data, 'scatter')
        return pickle.loads(c.data[root][self._rank])

    def allgather(self, sendobj):
        c = self._enter('allgather', None, self._dump(sendobj))
        self._all(c, 'allgather')
        return [pickle.loads(c.data[r]) for r in range(self.size)]

    def alltoall(self, sendobj):
        c = self._enter('alltoall', None, [self._dump(x) for x in sendobj])
        self._all(c, 'alltoall')
        return [pickle.loads(c.data[r][self._rank]) for r in range(self.size)]

    @staticmethod
    def _op(op_, vals):
        out = vals[0]
        for v in vals[1:]:
            out = op_(out, v)
        return out

    def allreduce(self, sendobj, op=None):
        c = self._enter('allreduce', None, self._dump(sendobj))
        self._all(c, 'allreduce')
        return self._op(op or SUM, [pickle.loads(c.data[r]) for r in range(self.size)])

    def reduce(self, sendobj, op=None, root=0):
        root = self._check(root, 'root')
        c = self._enter('reduce', root, self._dump(sendobj))
        if self._rank == root:
            self._all(c, 'reduce')
            return self._op(op or SUM, [pickle.loads(c.data[r]) for r in range(self.size)])
        self._maybe_sync(c, 'reduce')
        return None

    def Split(self, color=0, key=0):
        c = self._enter('split', None, (color, key))
        self._all(c, 'split')
        job = self._job
        if c.out is None:
            c.out = {}
            cols = sorted({v[0] for v in c.data.values() if v[0] is not None and v[0] >= 0},
                          key=int)
            for col in cols:
                mem = sorted((r for r in c.data if c.data[r][0] == col),
                             key=lambda r: (c.data[r][1], r))
                ctx = job.nctx
                job.nctx += 1
                for i, r in enumerate(mem):
                    c.out[r] = (ctx, [self._group[x] for x in mem], i)
        if self._rank not in c.out:
            return None
        ctx, grp, i = c.out[self._rank]
        return SimComm(job, ctx, grp, i)

    # buffers: arrays of numpy, as in mpi4py optionally in a list with a datatype

    @staticmethod
    def _buf(x):
        return np.asarray(x[0] if isinstance(x, (list, tuple)) else x)

    @staticmethod
    def _fill(buf, data):
        out = SimComm._buf(buf)
        data = np.asarray(data)
        if data.size > out.size or data.dtype != out.dtype:
            raise RuntimeError('MPI_ERR_TRUNCATE: message truncated')
        out.flat[:data.size] = data.ravel()

    def Bcast(self, buf, root=0):
        root = self._check(root, 'root')
        c = self._enter('Bcast', root, self._dump(self._buf(buf)) if self._rank == root else None)
        if self._rank == root:
            return self._maybe_sync(c, 'Bcast')
        cur().wait(lambda: root in c.data, 'Bcast')
        self._fill(buf, pickle.loads(c.data[root]))

    def Gather(self, sendbuf, recvbuf, root=0):
        root = self._check(root, 'root')
        c = self._enter('Gather', root, self._dump(self._buf(sendbuf)))
        if self._rank != root:
            return self._maybe_sync(c, 'Gather')
        self._all(c, 'Gather')
        self._fill(recvbuf, np.concatenate([pickle.loads(c.data[r]).ravel() for r in range(self.size)]))

    def Allgather(self, sendbuf, recvbuf):
        c = self._enter('Allgather', None, self._dump(self._buf(sendbuf)))
        self._all(c, 'Allgather')
        self._fill(recvbuf, np.concatenate([pickle.loads(c.data[r]).ravel() for r in range(self.size)]))

    def Allreduce(self, sendbuf, recvbuf, op=None):
        c = self._enter('Allreduce', None, self._dump(self._buf(sendbuf)))
        self._all(c, 'Allreduce')
        self._fill(recvbuf, self._op(op or SUM, [pickle.loads(c.data[r]) for r in range(self.size)]))

    def Reduce(self, sendbuf, recvbuf, op=None, root=0):
        root = self._check(root, 'root')
        c = self._enter('Reduce', root, self._dump(self._buf(sendbuf)))
        if self._rank != root:
            return self._maybe_sync(c, 'Reduce')
        self._all(c, 'Reduce')
        self._fill(recvbuf, self._op(op or SUM, [pickle.loads(c.data[r]) for r in range(self.size)]))

    def Send(self, buf, dest, tag=0):
        self.send(self._buf(buf), dest, tag)

    def Isend(self, buf, dest, tag=0):
        return self.isend(self._buf(buf), dest, tag)

    def Recv(self, buf, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        self._fill(buf, self.recv(None, source, tag, status))

    def Dup(self):
        return self.Split(0, self._rank)

    def Free(self):
        pass

    def Abort(self, errorcode=0):
        t = cur()
        t.check_killed()
        t.sim.note(f'ABORT by {t.proc.name}')
        self._job.abort(errorcode, t.proc)
        raise SimKill()


def SUM(a, b):
    return a + b


def MAX(a, b):
    return max(a, b) if np.ndim(a) == 0 else np.maximum(a, b)


def MIN(a, b):
    return min(a, b) if np.ndim(a) == 0 else np.minimum(a, b)


def LOR(a, b):
    return np.logical_or(a, b) if np.ndim(a) else bool(a or b)


def LAND(a, b):
    return np.logical_and(a, b) if np.ndim(a) else bool(a and b)


class _World:
    """COMM_WORLD of the process that uses it."""
    def _c(self):
        t = cur()
        if t is None:
            raise HarnessError('COMM_WORLD used outside the simulation')
        p = t.proc
        while p is not None and 'comm_world' not in p.data:
            p = p.parent
        if p is None:
            raise HarnessError('COMM_WORLD used outside an MPI job')
        return p.data['comm_world']

    def __getattr__(self, name):
        return getattr(self._c(), name)


def install_mpi4py():
    """Make 'from mpi4py import MPI' work with the simulated library."""
    pkg = types.ModuleType('mpi4py')
    mod = types.ModuleType('mpi4py.MPI')
    mod.COMM_WORLD = _World()
    mod.ANY_SOURCE, mod.ANY_TAG = ANY_SOURCE, ANY_TAG
    mod.SUM, mod.MAX, mod.MIN, mod.LOR, mod.LAND = SUM, MAX, MIN, LOR, LAND
    mod.Request, mod.Status = Request, Status
    mod.Comm = mod.Intracomm = SimComm
    mod.UNDEFINED = -32766
    pkg.MPI = mod
    pkg.__path__ = ['mpi4py']
    pkg.__version__ = mod.__version__ = '4.0.0'
    sys.modules['mpi4py'] = pkg
    sys.modules['mpi4py.MPI'] = mod
