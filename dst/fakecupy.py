"""A simulated GPU behind the `cupy` interface.

Arrays live in a separate type: operators that mix them with numpy arrays fail and there is no
implicit conversion to numpy, as with the real library.  Array functions run numpy underneath.
Kernels are the CUDA sources of redrock, compiled for the CPU; the order in which the threads of a
launch run is a choice of the scheduler, as is the thread order inside each block.  Allocations and
launches are yield points where faults (out of memory) can be injected.  Memory starts out as
garbage, and the garbage is a fixed pattern so that uninitialised reads are repeatable and visible.
"""
import ctypes
import hashlib
import os
import re
import subprocess
import sys
import types

import numpy as np

from . import core
from .core import cur

GARBAGE = 0xC7


class OutOfMemoryError(MemoryError):
    pass


PROC = '/proc/driver/nvidia/gpus'


def _op(kind, n=0):
    """A device operation: where the scheduler and the fault injector come in."""
    t = cur()
    if t is None:
        return
    s = t.sim
    q = t.proc.parent
    if q is not None and q.ops.get('gpu'):      # forked after the device was initialised
        raise RuntimeError('cudaErrorInitializationError: initialization error')
    s.stats['gpu ' + kind] = s.stats.get('gpu ' + kind, 0) + 1
    core.op('gpu', kind)


def _un(x, strict=True):
    """Device array -> numpy; other arrays are not accepted when strict."""
    if isinstance(x, ndarray):
        return x._a
    if strict and isinstance(x, np.ndarray):
        raise TypeError(f'Unsupported type {type(x)}')
    if isinstance(x, (list, tuple)):
        return type(x)(_un(y, strict) for y in x)
    if isinstance(x, dict):
        return {k: _un(v, strict) for k, v in x.items()}
    return x


def _wrap(x):
    if isinstance(x, np.ndarray) or isinstance(x, np.generic):
        return ndarray(np.asarray(x))
    if isinstance(x, tuple):
        return tuple(_wrap(y) for y in x)
    if isinstance(x, list):
        return [_wrap(y) for y in x]
    return x


class ndarray(np.lib.mixins.NDArrayOperatorsMixin):
    __array_priority__ = 100

    def __init__(self, a, *args, **kw):
        if isinstance(a, np.ndarray):
            self._a = a
        else:
            self._a = _empty(a, *args, **kw)

    # numpy protocols
    def __array__(self, *a, **k):
        raise TypeError('Implicit conversion to a NumPy array is not allowed. '
                        'Please use `.get()` to construct a NumPy array explicitly.')

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        ins = [_un(x) for x in inputs]
        out = kw.pop('out', None)
        kw = {k: _un(v) for k, v in kw.items()}
        with np.errstate(all='ignore'):
            if out is not None:
                res = getattr(ufunc, method)(*ins, out=tuple(_un(o) for o in out), **kw)
                return out[0] if len(out) == 1 else out
            res = getattr(ufunc, method)(*ins, **kw)
        return _wrap(res)

    def __array_function__(self, func, typs, args, kw):
        with np.errstate(all='ignore'):
            return _wrap(_call(func, _un(args), _un(kw)))

    def __matmul__(self, o):
        return self.__array_ufunc__(np.matmul, '__call__', self, o)

    # attributes
    shape = property(lambda s: s._a.shape, lambda s, v: setattr(s._a, 'shape', v))
    dtype = property(lambda s: s._a.dtype)
    ndim = property(lambda s: s._a.ndim)
    size = property(lambda s: s._a.size)
    nbytes = property(lambda s: s._a.nbytes)
    itemsize = property(lambda s: s._a.itemsize)
    strides = property(lambda s: s._a.strides)
    flags = property(lambda s: s._a.flags)
    T = property(lambda s: ndarray(s._a.T))
    device = property(lambda s: Device())

    def get(self, *a, **k):
        _op('copy to host')
        return np.array(self._a, order='K')

    def __len__(self):
        return len(self._a)

    def __bool__(self):
        return bool(self._a)

    def __float__(self):
        return float(self._a)

    def __int__(self):
        return int(self._a)

    def __index__(self):
        return self._a.__index__()

    def __iter__(self):
        return (ndarray(np.asarray(x)) for x in self._a)

    def __format__(self, f):
        return format(self._a[()] if self._a.ndim == 0 else self._a, f)

    def __repr__(self):
        return repr(self._a)

    def __getitem__(self, k):
        return _wrap(self._a[_idx(k)])

    def __setitem__(self, k, v):
        if isinstance(v, np.ndarray) and v.ndim > 0:
            raise TypeError(f'Unsupported type {type(v)}')
        self._a[_idx(k)] = _un(v)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def __reduce__(self):               # copies through messages
        return (_restore, (np.array(self._a),))


def _restore(a):
    return ndarray(a)


def _idx(k):
    """Indices may be numpy arrays."""
    if isinstance(k, tuple):
        return tuple(_un(x, False) for x in k)
    return _un(k, False)


def _method(name):
    def f(self, *a, **k):
        out = k.pop('out', None)
        with np.errstate(all='ignore'):
            if out is not None:
                out._a[...] = getattr(self._a, name)(*_un(a), **_un(k))
                return out
            return _wrap(getattr(self._a, name)(*_un(a), **_un(k)))
    f.__name__ = name
    return f


for _n in ('reshape', 'transpose', 'swapaxes', 'sum', 'min', 'max', 'mean', 'dot', 'astype', 'copy',
           'all', 'any', 'ravel', 'flatten', 'squeeze', 'argmin', 'argmax', 'argsort', 'cumsum',
           'prod', 'std', 'var', 'clip', 'repeat', 'take', 'conj', 'nonzero', 'round', 'view',
           'diagonal', 'trace'):
    setattr(ndarray, _n, _method(_n))
for _n in ('item', 'tolist', 'fill', 'sort'):
    setattr(ndarray, _n, (lambda n: lambda self, *a, **k: getattr(self._a, n)(*_un(a), **_un(k)))(_n))


def _call(func, args, kw):
    r = func(*args, **kw)
    if func in (np.concatenate, np.append, np.hstack, np.vstack, np.stack, np.tile) and \
            isinstance(r, np.ndarray):
        r = np.ascontiguousarray(r)     # the real ones make C-ordered arrays
    return r


def _empty(shape, dtype=float, order='C', **kw):
    a = np.empty(_un(shape), dtype=dtype, order=order)
    if a.size:
        a.view(np.uint8).reshape(-1)[:] = GARBAGE if a.flags.c_contiguous else 0
    return a


# -- kernels -------------------------------------------------------------------------------

PRELUDE = r'''
#include <math.h>
#include <stdio.h>
#include <float.h>
#define __global__
#define __device__ static
#define __host__
#define __forceinline__ inline
#define __restrict__
#define __ldg(p) (*(p))
struct dim3_ { unsigned int x, y, z; };
static dim3_ threadIdx, blockIdx, blockDim, gridDim;
template <class T> static inline T atomicAdd(T* p, T v) { T o = *p; *p = o + v; return o; }
static long gcd_(long a, long b) { while (b) { long t = a % b; a = b; b = t; } return a; }
static long step_(unsigned long s, long n) {
    long k = n > 1 ? 1 + (long)(s % (unsigned long)(n)) : 1;
    while (gcd_(k, n) != 1) k++;
    return k;
}
#define RUN_(CALL) \
    blockDim.x = b[0]; blockDim.y = b[1]; blockDim.z = b[2]; \
    gridDim.x = g[0]; gridDim.y = g[1]; gridDim.z = g[2]; \
    long nb = (long)g[0] * g[1] * g[2], nt = (long)b[0] * b[1] * b[2]; \
    long kb = step_(seed >> 16, nb), kt = step_(seed, nt); \
    long ob = nb ? (long)((seed >> 7) % nb) : 0, ot = nt ? (long)((seed >> 23) % nt) : 0; \
    for (long i_ = 0; i_ < nb; i_++) { \
        long bi = (ob + i_ * kb) % nb; \
        blockIdx.x = bi % g[0]; blockIdx.y = (bi / g[0]) % g[1]; blockIdx.z = bi / ((long)g[0] * g[1]); \
        for (long j_ = 0; j_ < nt; j_++) { \
            long ti = (ot + j_ * kt) % nt; \
            threadIdx.x = ti % b[0]; threadIdx.y = (ti / b[0]) % b[1]; threadIdx.z = ti / ((long)b[0] * b[1]); \
            CALL; \
        } \
    }
'''

_libs = {}


def _compile(code):
    if code not in _libs:
        t = cur()
        core._tls.task = None       # the compiler is not part of the simulation
        try:
            _libs[code] = _build(code)
        finally:
            core._tls.task = t
    return _libs[code]


def _build(code):
    sig = {}
    nocom = re.sub(r'//[^\n]*|/\*.*?\*/', '', code, flags=re.S)
    for m in re.finditer(r'__global__\s+void\s+(\w+)\s*\(([^)]*)\)', nocom):
        ps = []
        for p in m.group(2).split(','):
            p = re.sub(r'\b(__restrict__|const)\b', '', p).strip()
            if '*' in p:
                ps.append('*')
            else:
                ps.append(' '.join(p.split()[:-1]))
        sig[m.group(1)] = ps
    src = PRELUDE + code + '\nextern "C" {\n'
    for n, ps in sig.items():
        cp = ', '.join(('void* p%d' if p == '*' else p + ' p%d') % i for i, p in enumerate(ps))
        types_ = re.search(r'__global__\s+void\s+%s\s*\(([^)]*)\)' % n, nocom).group(1).split(',')
        call = ', '.join(f'({re.sub("__restrict__", "", " ".join(t.strip().rsplit(" ", 1)[:-1]))}'
                         f'{"*" if "*" in t.strip().rsplit(" ", 1)[-1] else ""})p{i}'
                         for i, t in enumerate(types_))
        src += (f'void launch_{n}(const unsigned* g, const unsigned* b, unsigned long seed, {cp})'
                f' {{ RUN_({n}({call})) }}\n')
    src += '}\n'
    from . import runner
    h = hashlib.sha256(src.encode()).hexdigest()[:20]
    d = runner.scratch_base()
    so = os.path.join(d, h + '.so')
    if not os.path.exists(so):
        c = os.path.join(d, f'{h}.{os.getpid()}.cc')
        o = os.path.join(d, f'{h}.{os.getpid()}.so')
        with open(c, 'w') as f:
            f.write(src)
        r = subprocess.run(['g++', '-O2', '-w', '-shared', '-fPIC', '-ffp-contract=off', '-o', o, c],
                           capture_output=True, text=True)
        os.unlink(c)
        if r.returncode:
            raise RuntimeError('kernel does not compile: ' + r.stderr[-1500:])
        os.replace(o, so)
    return ctypes.CDLL(so), sig


CT = {'int': ctypes.c_int, 'unsigned int': ctypes.c_uint, 'long': ctypes.c_long,
      'long long': ctypes.c_longlong, 'double': ctypes.c_double, 'float': ctypes.c_float,
      'size_t': ctypes.c_size_t, 'bool': ctypes.c_bool, 'unsigned': ctypes.c_uint,
      'int32_t': ctypes.c_int32, 'int64_t': ctypes.c_int64}


class RawKernel:
    def __init__(self, code, name, *a, **k):
        self.lib, self.sig = _compile(code)
        self.name = name
        if name not in self.sig:
            raise RuntimeError(f'CUDA_ERROR_NOT_FOUND: named symbol not found: {name}')

    def __call__(self, grid, block, args, **kw):
        if int(np.prod(block)) > 1024 or min(min(map(int, grid)), min(map(int, block))) < 1:
            raise RuntimeError('CUDA_ERROR_INVALID_VALUE: invalid argument')
        t = cur()
        _op('kernel ' + self.name)
        seed = t.sim.choose(1 << 30, 'gpu order') if t is not None else 0
        ps = self.sig[self.name]
        if len(args) != len(ps):
            raise RuntimeError(f'kernel {self.name}: {len(args)} arguments instead of {len(ps)}')
        ca = []
        for p, x in zip(ps, args):
            if p == '*':
                if not isinstance(x, ndarray):
                    raise TypeError(f'Unsupported type {type(x)}')
                ca.append(ctypes.c_void_p(x._a.ctypes.data))    # strides are not looked at
            else:
                if isinstance(x, ndarray):
                    raise TypeError(f'kernel {self.name}: device array for a scalar')
                ca.append(CT[p](x.item() if hasattr(x, 'item') else x))
        g = (ctypes.c_uint * 3)(*(list(map(int, grid)) + [1] * (3 - len(grid))))
        b = (ctypes.c_uint * 3)(*(list(map(int, block)) + [1] * (3 - len(block))))
        getattr(self.lib, 'launch_' + self.name)(g, b, ctypes.c_ulong(seed * 2654435761 % (1 << 50)),
                                                 *ca)


class RawModule:
    def __init__(self, code=None, **kw):
        self.code = code

    def get_function(self, name):
        return RawKernel(self.code, name)


# -- the module ------------------------------------------------------------------------------

class Device:
    def __init__(self, i=0):
        self.id = 0

    @property
    def mem_info(self):
        return (STATE['free'], 40 * 1024 ** 3)

    def use(self):
        pass

    def synchronize(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


STATE = {'free': 30 * 1024 ** 3, 'count': 1, 'available': True}


def _pci(n):
    """In MPI jobs every process sees one device; which one depends on its rank."""
    t = cur()
    r = t.proc.data.get('rank', 0) if t is not None else 0
    return f'0000:{1 + r % max(1, STATE["count"]):02X}:00.0'


def _count():
    t = cur()
    if t is not None and t.proc.job is not None:
        return 1
    return STATE['count']


def _solve(a, b):
    """No error for singular matrices."""
    a, b = _un(a), _un(b)
    if a.ndim < 2 or b.ndim < 1:
        raise ValueError('solve')
    if b.ndim == a.ndim - 1 and a.ndim > 2:
        raise ValueError('solve: use b[..., None]')     # as in numpy 2
    try:
        return ndarray(np.linalg.solve(a, b))
    except np.linalg.LinAlgError:
        pass
    out = np.full(np.broadcast_shapes(a.shape[:-2], b.shape[:-2]) + b.shape[-2:], np.nan)
    for i in np.ndindex(out.shape[:-2]):
        try:
            out[i] = np.linalg.solve(a[i], b[i])
        except np.linalg.LinAlgError:
            pass
    return ndarray(out)


def _asarray(a, dtype=None, order=None, **kw):
    if isinstance(a, ndarray):
        if dtype is None or a.dtype == np.dtype(dtype):
            return a
        return ndarray(a._a.astype(dtype))
    x = np.array(_un(a, False), dtype=dtype, order='C' if order is None else order)
    if isinstance(a, np.ndarray) and order is None:
        x = np.array(a, dtype=dtype, order='K')
    if x.dtype.kind not in 'fiubc':
        raise ValueError(f'Unsupported dtype {x.dtype}')
    _op('allocate', x.nbytes)
    return ndarray(x)


def _array(a, dtype=None, copy=True, order='K', **kw):
    return _asarray(ndarray(a._a.copy()) if isinstance(a, ndarray) and copy else a, dtype)


def _func(f):
    def g(*a, **k):
        with np.errstate(all='ignore'):
            return _wrap(_call(f, _un(a, False), _un(k, False)))
    g.__name__ = getattr(f, '__name__', 'f')
    return g


def _alloc(f):
    def g(*a, **k):
        x = f(*_un(a, False), **_un(k, False))
        _op('allocate', x.nbytes)
        return ndarray(x)
    return g


def make():
    m = types.ModuleType('cupy')
    m.__file__ = __file__
    for n in dir(np):
        if n.startswith('_') or n in ('ndarray', 'array', 'asarray', 'linalg', 'testing', 'lib',
                                      'ma', 'core', 'random', 'fft', 'ctypeslib', 'compat', 'rec',
                                      'char', 'polynomial', 'strings', 'f2py', 'typing', 'save',
                                      'load', 'matrix', 'bmat', 'vectorize', 'memmap'):
            continue
        v = getattr(np, n)
        if isinstance(v, type) or not callable(v):
            setattr(m, n, v)
        elif n == 'isscalar':
            m.isscalar = np.isscalar
        else:
            setattr(m, n, _func(v))
    m.ndarray = ndarray
    m.asarray, m.array = _asarray, _array
    m.asnumpy = lambda a, **k: a.get() if isinstance(a, ndarray) else np.asarray(a)
    m.ascontiguousarray = lambda a, dtype=None: ndarray(np.ascontiguousarray(_un(a, False), dtype))
    m.empty = _alloc(_empty)
    m.zeros, m.ones, m.full = _alloc(np.zeros), _alloc(np.ones), _alloc(np.full)
    m.empty_like = lambda a, dtype=None, shape=None, **k: ndarray(
        _empty(_un(a, False).shape if shape is None else shape, dtype or a.dtype))
    m.get_array_module = lambda *a: m if any(isinstance(x, ndarray) for x in a) else np
    m.is_available = lambda: STATE['available']
    m.RawKernel, m.RawModule = RawKernel, RawModule
    m.linalg = types.ModuleType('cupy.linalg')
    for n in ('norm', 'inv', 'det', 'svd', 'qr', 'eigh', 'lstsq', 'pinv', 'cholesky'):
        setattr(m.linalg, n, _func(getattr(np.linalg, n)))
    m.linalg.solve = _solve
    m.cuda = types.ModuleType('cupy.cuda')
    m.cuda.Device = Device
    m.cuda.is_available = m.is_available
    m.cuda.memory = types.SimpleNamespace(OutOfMemoryError=OutOfMemoryError)
    m.cuda.runtime = types.ModuleType('cupy.cuda.runtime')
    m.cuda.runtime.getDeviceCount = _count
    m.cuda.runtime.getDevice = lambda: 0
    m.cuda.runtime.setDevice = lambda i: None
    m.cuda.runtime.deviceGetPCIBusId = _pci
    m.cuda.runtime.deviceSynchronize = lambda: None
    stream = types.SimpleNamespace(synchronize=lambda: None)
    m.cuda.Stream = types.SimpleNamespace(null=stream)
    m.cuda.stream = types.SimpleNamespace(get_current_stream=lambda: stream)
    pool = types.SimpleNamespace(free_all_blocks=lambda *a: None, used_bytes=lambda: 0,
                                 total_bytes=lambda: 0)
    m.get_default_memory_pool = lambda: pool
    m.get_default_pinned_memory_pool = lambda: pool
    m.fuse = lambda *a, **k: (lambda f: f) if not a or not callable(a[0]) else a[0]
    return m


class installed:
    """Context: a process image in which cupy can be imported."""
    def __init__(self, gpus=1, free=30 * 1024 ** 3, available=True, proc=False):
        self.state = dict(free=free, count=gpus, available=available)
        self.proc = proc            # the driver lists its devices below /proc

    def __enter__(self):
        from redrock import igm, zscan
        self.m = make()
        self.names = {'cupy': self.m, 'cupy.linalg': self.m.linalg, 'cupy.cuda': self.m.cuda,
                      'cupy.cuda.runtime': self.m.cuda.runtime}
        self.old = {k: sys.modules.get(k) for k in self.names}
        sys.modules.update(self.names)
        self.save = [(mod, n, getattr(mod, n, None), hasattr(mod, n))
                     for mod, n in ((igm, 'cp'), (zscan, 'cp'), (zscan, 'cp_memcheck'), (igm, 'IGM'))]
        igm.cp = self.m
        igm.IGM = None
        STATE.update(self.state)
        self.os = os.access, os.listdir
        if self.proc:
            acc, lst, n = os.access, os.listdir, self.state['count']

            def access(p, *a, **k):
                return True if str(p).rstrip('/') == PROC else acc(p, *a, **k)

            def listdir(p='.'):
                if str(p).rstrip('/') == PROC:
                    return [f'0000:{i + 1:02X}:00.0' for i in range(n)]
                return lst(p)
            os.access, os.listdir = access, listdir
        return self.m

    def __exit__(self, *a):
        os.access, os.listdir = self.os
        for k, v in self.old.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
        for mod, n, v, had in self.save:
            if had:
                setattr(mod, n, v)
            elif hasattr(mod, n):
                delattr(mod, n)
        return False
