"""zfind on in-memory targets in any layout, and comparison of results."""
import contextlib
import io
import math
import os

import numpy as np

from . import simmpi, workloads as W
from .core import cur


# -- options -----------------------------------------------------------------------

def gen_opts(r, priors=0.25, arch=0.15):
    o = dict(nminima=int(r.choice([1, 2, 3, 3, 5])))
    if r.random() < priors:
        o['priors'] = str(r.choice(['gaussian', 'lorentzien', 'tophat']))
        o['pkey'] = int(r.integers(1, 10**6))
    if r.random() < arch:
        o['arch'] = str(r.choice(['nolegendre', 'legendre', 'percamera', 'nearest']))
        o['akey'] = int(r.integers(1, 10**6))
    if r.random() < 0.2:
        o['npts'] = int(r.choice([5, 9, 21]))
    return o


def fix_case(case):
    """Archetypes with per-camera terms need coadded spectra."""
    if case['opts'].get('arch') in ('percamera', 'nearest'):
        case['targets']['coadd'] = True
        case['targets'].update(named=True, grids={})
    return case


def prepare(case, d):
    """Write the files an options dict needs; returns keyword arguments for zfind."""
    fix_case(case)
    from redrock.archetypes import All_archetypes
    o = case['opts']
    kw = dict(nminima=o['nminima'], zminfit_npoints=o.get('npts', 15))
    ids = W.ids_for(case['targets']['ids'], case['targets']['n'], case['targets']['key'])
    if o.get('priors'):
        p = os.path.join(d, 'priors.fits')
        n = len(ids) - (1 if o['pkey'] % 3 == 0 and len(ids) > 1 else 0)
        func = o['priors']
        if func == 'tophat' and not any(W.TYPES[t['t']][0] == 'GALAXY' for t in case['templates']):
            func = 'gaussian'    # a top hat that excludes every redshift is a user error
        W.write_priors(p, ids[:n], o['pkey'], func)
        kw['priors'] = p
    if o.get('arch'):
        types = sorted({W.TYPES[s['t']][0] for s in case['templates']})
        if o['akey'] % 4 == 0 and len(types) > 1:
            types = types[:1]
        a = os.path.join(d, 'arch')
        W.write_archetypes(a, types, o['akey'])
        with W.quiet():
            kw['archetypes'] = All_archetypes(archetypes_dir=a).archetypes
        ncam = len(case['targets']['bands'])
        kw['ncamera'] = ncam
        if o['arch'] == 'nolegendre':
            kw.update(deg_legendre=0, per_camera=False, prior_sigma=None)
        elif o['arch'] == 'legendre':
            kw.update(deg_legendre=2, per_camera=False, prior_sigma=0.1)
        elif o['arch'] == 'percamera':
            kw.update(deg_legendre=2, per_camera=True, prior_sigma=0.1)
        else:
            kw.update(deg_legendre=2, per_camera=True, prior_sigma=0.1, n_nearest=2)
    return kw


# -- running ------------------------------------------------------------------------

def fit(targets, templates, comm=None, mp=1, kw=None, root_only=False, dist=None):
    """What a driver does: distribute targets, rebin templates, zfind."""
    from redrock.targets import DistTargetsCopy
    from redrock.templates import DistTemplate
    from redrock.zfind import zfind
    if dist is None:
        dist = DistTargetsCopy(targets, comm=comm, root=0)
    dwave = dist.wavegrids()
    dt = [DistTemplate(t, dwave, mp_procs=mp, comm=comm) for t in templates]
    return zfind(dist, dt, mp_procs=mp, **(kw or {}))


def serial(targets, templates, kw=None):
    with W.quiet():
        return fit(targets, templates, None, 1, kw)


class Outcome:
    """Result of one simulated run."""
    def __init__(self):
        self.sim = self.job = None
        self.hang = None
        self.exc = None
        self.result = None
        self.aborted = None
        self.bad = None
        self.left = []
        self.killed = []
        self.out = ''

    @property
    def ok(self):
        return self.hang is None and self.exc is None and self.aborted is None \
            and self.bad is None and not self.killed

    @property
    def status(self):
        """exit status as the launcher or shell reports it"""
        if self.aborted is not None:
            return self.aborted[0]
        if self.exc or self.killed:
            return max([1] + [x or 0 for x in self.exitcodes])
        return max([x or 0 for x in self.exitcodes])

    def describe(self):
        if self.hang:
            e = f' after {self.exc[0]}: {self.exc[1][:200]}' if self.exc else ''
            return f'hang ({self.hang["kind"]}): ' + '; '.join(self.hang['waiting'][:6]) + e
        if self.bad:
            return self.bad
        if self.exc:
            return f'{self.exc[0]}: {self.exc[1][:200]}'
        if self.aborted is not None:
            return 'job aborted: ' + self.out[-300:]
        if self.killed:
            return 'killed ' + ','.join(self.killed)
        return 'ok'


def run_body(ctx, name, layout, body, also=(), **simkw):
    """body(comm, mp) in the given layout; layout = ['serial'], ['mp', n] or ['mpi', n].

    also: (name, function) of further processes, which get the simulation.
    """
    sim = ctx.sim(name, **simkw)
    o = Outcome()
    o.sim = sim
    if layout[0] == 'mpi':
        job = o.job = simmpi.Job(sim, layout[1])
        job.launch(lambda comm: body(comm, 1))
        procs = job.procs
    else:
        n = layout[1] if layout[0] == 'mp' else 1
        procs = [sim.spawn('main', lambda: body(None, n))]
    o.others = [sim.spawn(nm, lambda fn=fn: fn(sim)) for nm, fn in also]
    ctx.run(sim)
    finish(o, procs)
    return o


def finish(o, procs):
    sim, job = o.sim, o.job
    o.hang = sim.hang
    for p in procs:
        if p.exc and o.exc is None:
            o.exc = p.exc
        if p.killed and p.kill_reason not in ('teardown', 'MPI abort', 'MPI misuse'):
            o.killed.append(p.name)
    o.result = procs[0].result
    o.results = [p.result for p in procs]
    o.out = ''.join(p.out.getvalue() for p in procs)
    o.exitcodes = [p.exitcode for p in procs]
    o.procs = procs
    if job is not None:
        o.aborted = job.aborted
        o.bad = job.mismatch
        if o.hang is None and job.aborted is None and job.mismatch is None \
                and o.exc is None and not o.killed:
            o.left = job.leftovers()


# -- comparison ---------------------------------------------------------------------

RTOL = 2e-7


def close(a, b, rtol=RTOL, atol=0.0):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind in 'fc' or b.dtype.kind in 'fc':
        a = a.astype(float)
        b = b.astype(float)
        na, nb = np.isnan(a), np.isnan(b)
        if not np.array_equal(na, nb):
            return False
        fin = ~na
        with np.errstate(all='ignore'):
            return bool(np.all((a[fin] == b[fin]) |
                               (np.abs(a[fin] - b[fin]) <=
                                atol + rtol * np.maximum(np.abs(a[fin]), np.abs(b[fin])))))
    if a.dtype.kind in 'US' and b.dtype.kind in 'US':
        return bool(np.all(a.astype(str) == b.astype(str)))
    return bool(np.array_equal(a, b))


def tocols(table):
    """Table -> dict of plain arrays; coeff columns with trailing zero columns cut."""
    out = {}
    for c in table.colnames:
        a = np.array(table[c])
        out[c] = a
    return out


def pad(a, b):
    """Same number of columns, padding with zeros."""
    a = a.reshape(len(a), int(np.prod(a.shape[1:])))
    b = b.reshape(len(b), int(np.prod(b.shape[1:])))
    n = max(a.shape[1], b.shape[1])

    def p(x):
        return np.concatenate([x, np.zeros((x.shape[0], n - x.shape[1]), dtype=x.dtype)], axis=1)
    return p(a), p(b)


def diff_rows(a, b, rtol=RTOL, coeff_pad=False, skip=()):
    """Difference between two dicts of columns, or None."""
    ka, kb = set(a) - set(skip), set(b) - set(skip)
    if ka != kb:
        return f'columns differ: {sorted(ka ^ kb)}'
    for k in ['targetid', 'spectype', 'subtype'] + sorted(ka - {'targetid', 'spectype', 'subtype'}):
        if k not in a or k in skip:
            continue
        x, y = a[k], b[k]
        if len(x) != len(y):
            return f'{len(x)} rows instead of {len(y)}'
        if coeff_pad and 'coeff' in k.lower() and k.lower() != 'ncoeff':
            x, y = pad(x, y)
        if x.shape != y.shape:
            return f'{k}: shape {x.shape} instead of {y.shape}'
        at = 0.0
        if k == 'deltachi2':
            c = np.abs(np.asarray(b['chi2'], dtype=float))
            at = rtol * float(np.max(c[np.isfinite(c) & (c < 1e30)], initial=1.0)) * 10
        elif k == 'zerr':
            at, rt = 1e-9, 1e-3
        elif 'coeff' in k and k != 'ncoeff':
            m = np.abs(np.asarray(y, dtype=float))
            at = 1e-5 * float(np.max(m[np.isfinite(m)], initial=0.0))
        elif k in ('z', 'zz'):
            at = 1e-8
        rt = 1e-3 if k == 'zerr' else rtol
        if not close(x, y, rt, at):
            for i in range(len(x)):
                if not close(x[i], y[i], rt, at):
                    tid = a.get('targetid', a.get('TARGETID'))
                    return (f'{k} of row {i} (target {tid[i] if tid is not None else "?"}): '
                            f'{x[i]!r} instead of {y[i]!r}')
    return None


def diff_scan(a, b, ids=None, rtol=RTOL, keys=('redshifts', 'zchi2', 'penalty', 'zcoeff')):
    """Difference between two scan dictionaries, or None."""
    if a is None:
        return 'no scan returned'
    ia = [t for t in a] if ids is None else list(ids)
    ib = [t for t in b] if ids is None else list(ids)
    if sorted(map(str, ia)) != sorted(map(str, ib)):
        return f'scan covers targets {sorted(map(str, ia))} instead of {sorted(map(str, ib))}'
    for t in ib:
        if t not in a:
            return f'no scan for target {t}'
        if set(a[t]) != set(b[t]):
            return f'scan of target {t} covers {sorted(a[t])} instead of {sorted(b[t])}'
        for ft in b[t]:
            for k in keys:
                if k not in a[t][ft]:
                    return f'scan of target {t} {ft} lacks {k}'
                x, y = np.asarray(a[t][ft][k]), np.asarray(b[t][ft][k])
                at = 0.0
                if k == 'zcoeff':
                    m = np.abs(np.asarray(y, dtype=float))
                    at = 1e-5 * float(np.max(m[np.isfinite(m)], initial=0.0))
                if x.shape != y.shape:
                    return f'{k} of target {t} {ft}: shape {x.shape} instead of {y.shape}'
                if not close(x, y, rtol, at):
                    i = [i for i in range(len(y)) if not close(x[i], y[i], rtol, at)][0]
                    return f'{k} of target {t} {ft} at redshift {i}: {x[i]!r} instead of {y[i]!r}'
    return None


def reference(case, kw, cache=None):
    """Each target alone, serially; returns (scan, {id: columns})."""
    spec = case['targets']
    ids = W.ids_for(spec['ids'], spec['n'], spec['key'])
    templates = W.make_templates(case['templates'])
    scan, rows = {}, {}
    for i in range(spec['n']):
        s, z = serial(W.make_targets(spec, only=[i]), templates, kw)
        scan.update(s)
        rows[ids[i]] = tocols(z)
    return ids, scan, rows


def stack(rows, ids):
    """Expected table: the per-target rows in the given target order."""
    keys = list(rows[ids[0]])
    out = {}
    for k in keys:
        xs = [rows[t][k] for t in ids]
        if 'coeff' in k.lower() and k.lower() != 'ncoeff':
            n = max(int(np.prod(x.shape[1:])) for x in xs)
            xs = [pad(x, np.zeros((0, n)))[0] for x in xs]
        out[k] = np.concatenate(xs)
    return out


def check_result(ctx, o, what, ids, scan, rows, kinds=('run failed', 'scan differs', 'table differs'),
                 rtol=RTOL):
    """Compare the outcome of a run with the reference."""
    if not o.ok:
        ctx.bad(kinds[0], f'{what}: {o.describe()}')
        return False
    res = o.result
    if not isinstance(res, tuple) or res[0] is None or res[1] is None:
        ctx.bad(kinds[0], f'{what}: rank 0 returned {type(res).__name__}')
        return False
    d = diff_scan(res[0], scan, rtol=rtol)
    if d:
        ctx.bad(kinds[1], f'{what}: {d}')
        return False
    d = diff_rows(tocols(res[1]), stack(rows, ids), rtol=rtol, coeff_pad=True)
    if d:
        ctx.bad(kinds[2], f'{what}: {d}')
        return False
    ctx.note(('ok', what))
    return True


def gen_layout(r, ntargets, nzmin=None):
    x = r.random()
    if x < 0.08:
        return ['serial']
    big = int(min(max(ntargets + r.integers(1, 4), 2), 24))
    n = int(r.choice([2, 2, 3, 4, 5, 7, 9, big]))
    if r.random() < 0.08:
        n = int(r.choice([11, 12, 13, 16, 19, 24]))      # two-digit ranks
    if x < 0.40:
        return ['mp', n]
    if x < 0.5:
        n = 1
    return ['mpi', n]


def gen_benign(r, layout, p=0.6):
    """Faults that a run has to survive: stalled ranks/workers and clock jumps."""
    out = []
    if r.random() > p:
        return out
    for _ in range(int(r.integers(1, 4))):
        if layout[0] == 'mpi':
            proc, op = f'rank{int(r.integers(layout[1]))}', 'mpi'
        elif layout[0] == 'mp':
            proc = 'main' if r.random() < 0.3 else f'main.w{int(r.integers(layout[1] * 3))}'
            op = str(r.choice(['mp', '*']))
        else:
            proc, op = 'main', '*'
        if r.random() < 0.3:
            out.append(dict(proc=proc, op='clock', n=int(r.integers(1, 12)), act='clock',
                            dt=float(r.choice([-86400.0, -3600.0, -1.0, 3600.0, 1e6]))))
        else:
            out.append(dict(proc=proc, op=op, n=int(1 + r.exponential(12.0)), act='stall',
                            dt=float(r.choice([1.0, 400.0, 20000.0]))))
    return out


def drop_faults(case, key='faults'):
    """Shrink candidates: fewer faults of a dict or list of lists."""
    f = case.get(key) or []
    for k in range(len(f)):
        if f[k] and isinstance(f[k], list):
            yield dict(case, **{key: f[:k] + [[]] + f[k + 1:]})
            for j in range(len(f[k])):
                if len(f[k]) > 1:
                    yield dict(case, **{key: f[:k] + [f[k][:j] + f[k][j + 1:]] + f[k + 1:]})
        elif isinstance(f[k], dict):
            yield dict(case, **{key: f[:k] + f[k + 1:]})


def chi2_independent(target, template, dwave, iz):
    """chi2 at one redshift by a dense least-squares fit, or None if degenerate."""
    return chi2_arrays([(s.wavehash, s.wave, s.flux, s.ivar, s.R) for s in target.spectra],
                       template, dwave, iz)


def scan_check(ctx, what, h, data, templates, key):
    """Sampled chi2 of the saved scans against least-squares fits to the data {id: [spectra]}."""
    r = W.rs(key, 6)
    ids = [int(x) for x in h['targetids']]
    dwave = {b: w for lst in data.values() for b, w, *_ in lst}
    for t in templates:
        if t.solve_matrices_algorithm != 'PCA':
            continue
        got = h[f'zscan/{t.full_type}/zchi2']
        if got.shape != (len(ids), len(t.redshifts)):
            ctx.bad('scan', f'{what}: {t.full_type} has shape {got.shape} for {len(ids)} targets and '
                            f'{len(t.redshifts)} redshifts')
            return
        for i in r.permutation(len(ids))[:2]:
            iz = int(r.integers(len(t.redshifts)))
            lst = data[ids[i]]
            x = chi2_arrays(lst, t, dwave, iz)
            if x is None:
                continue
            ctx.probes['scans compared with the data'] += 1
            tol = 1e-4 * x + 1e-5 * sum(np.sum(iv * f ** 2) for _, _, f, iv, _ in lst)
            if not abs(x - got[i][iz]) <= tol:
                ctx.bad('scan', f'{what}: target {ids[i]} {t.full_type} redshift {iz}: chi2 {got[i][iz]}, '
                                f'least squares {x}')
                return


def chi2_arrays(spectra, template, dwave, iz):
    from redrock.templates import DistTemplate
    dt = DistTemplate(template, dwave)
    A, y = [], []
    for hs, _, flux, ivar, R in spectra:
        T = np.asarray(dt.local.data[hs][iz])
        sq = np.sqrt(ivar)
        A.append((R @ T) * sq[:, None])
        y.append(flux * sq)
    A, y = np.concatenate(A), np.concatenate(y)
    if not np.any(y):
        return None
    sv = np.linalg.svd(A, compute_uv=False)
    if sv[-1] < 1e-5 * sv[0]:
        return None
    c = np.linalg.lstsq(A, y, rcond=None)[0]
    return float(np.sum((y - A @ c) ** 2))
