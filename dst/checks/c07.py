"""C07: a run that reports success has written complete and consistent outputs."""
import os

import numpy as np

from .. import dengine as E, desifiles as D, workloads as W, writers as V, zengine as Z
from . import c01, c13

ID = 'C07'
N = {'quick': 270, 'thorough': 20000}
POINTS = 3
RULE = ('either a writer with seeded contents, read back in full and through the readers of redrock '
        'with seeded selections, or a seeded rrdesi or rrboss run (serial, workers or ranks) whose '
        'outputs are compared with what zfind returned, with each other and through the readers; '
        'then again with seeded faults in the file operations of the outputs; non-trivial: a fault '
        'took place')
REAL = ['redrock.external.desi', 'redrock.external.boss', 'redrock.results', 'redrock.zfind',
        'redrock.zscan', 'redrock.targets', 'redrock.templates', 'astropy.io.fits', 'h5py / HDF5']
STUB = ['MPI library', 'multiprocessing process/queue/pipe transport', 'clock',
        'file system calls (real files below a scratch directory)']
ERRS = ['ENOSPC', 'EIO', 'EDQUOT', 'EACCES']
OPS = ('fs:create', 'fs:write', 'fs:truncate', 'fs:close', 'fs:rename', 'fs:remove', 'fs:mkdir')


def gen(rng, i, tier):
    r = np.random.default_rng(rng.getrandbits(60))
    x = r.random()
    c = dict(mode='write' if x < 0.4 else 'desi' if x < 0.87 else 'boss', batch=0)
    if c['mode'] == 'write':
        c['new'] = V.gen(r, 'details' if r.random() < 0.6 else None)
        c['sel'] = [float(v) for v in r.random(3)]
    elif c['mode'] == 'desi':
        c.update(E.gen_case(r, nmax=6, arch=0.3, priors=0.2))
        c['scan'] = bool(r.random() < 0.15 and not c['opts'].get('priors'))
    else:
        c.update(boss=D.gen_boss(r), templates=W.gen_templates(r, n=1, nzmax=13),
                 opts=E.gen_boss_opts(r))
    for t in c.get('templates', ()):
        t['nz'] = min(t['nz'], 13)
    c['old'] = bool(r.random() < 0.5)
    c['dir'] = bool(r.random() < 0.15)          # the directory of the outputs does not exist yet
    c['layout'] = ['serial'] if c['mode'] == 'write' or r.random() < 0.4 else \
        Z.gen_layout(r, 4)
    if c['layout'][0] != 'serial':
        c['layout'][1] = min(c['layout'][1], 6)
    c['points'] = [dict(act=str(r.choice(['errno', 'errno', 'sticky', 'short'])), frac=float(r.random()),
                        err=str(r.choice(ERRS))) for _ in range(POINTS)]
    for p in c['points']:
        if r.random() < 0.3:
            p['frac'] = 1 - 0.1 * p['frac']
    return c


def resolve(pt, o, where):
    """A fault in the operations on files below `where` of the process that writes."""
    inj = o.sim.injector
    name = 'rank0' if 'rank0' in inj.marks else 'main'
    ms = [m for m in inj.marks.get(name, ()) if m[0] in OPS and where in m[3]]
    if pt['act'] == 'short':
        ms = [m for m in ms if m[0] == 'fs:write']
    if not ms:
        return None
    k = min(len(ms) - 1, int(pt['frac'] * len(ms)))
    act = 'short' if pt['act'] == 'short' else f'{pt["act"]}:{pt["err"]}'
    return dict(proc=name, op=ms[k][0], n=[m[0] for m in ms[:k + 1]].count(ms[k][0]), act=act, path=where)


class Recorder:
    """What zfind returned in the process that writes the outputs."""

    def __init__(self):
        self.got = []

    def __enter__(self):
        import copy

        from redrock import zfind as zf
        from redrock.external import boss, desi
        real = zf.zfind

        def zfind(*a, **k):
            out = real(*a, **k)
            if isinstance(out, tuple) and len(out) == 2 and out[0] is not None and out[1] is not None:
                self.got.append((copy.deepcopy(out[0]), out[1].copy()))
            return out
        self.at = [(m, m.zfind) for m in (zf, boss, desi) if getattr(m, 'zfind', None) is real]
        for m, _ in self.at:
            m.zfind = zfind
        return self

    def __exit__(self, *a):
        for m, f in self.at:
            m.zfind = f


def run(case, ctx):
    if case['mode'] == 'write':
        return run_writer(case, ctx)
    d = ctx.scratch()
    desi = case['mode'] == 'desi'
    argv = E.prepare(case, d) if desi else E.boss_prepare(case, d)
    if case.get('scan'):
        p = os.path.join(d, 'scan.h5')
        with W.quiet():
            E.desi_body(argv + ['--details', p])(None, 1)
        argv += ['--chi2-scan', p]
    base = ctx.scratch()
    mk = E.desi_body if desi else E.boss_body
    what = E.describe(case) if desi else f'rrboss {case["boss"]} opts={case["opts"]}'
    what = f'{case["layout"]} {what}'
    ctx.sample = what

    def place(k):
        dd = os.path.join(base, f'outputs{k}', *(['x', 'y'] if case['dir'] and desi else []))
        if not (case['dir'] and desi):
            os.makedirs(dd)
        oa, paths = (E.outargs if desi else E.boss_outargs)(case, dd)
        if case['old'] and os.path.isdir(dd):
            for p in paths.values():
                with open(p, 'wb') as f:
                    f.write(b'earlier ' + os.path.basename(p).encode())
        return oa, paths, f'outputs{k}/'
    oa, paths, where = place(0)
    with Recorder() as rec:
        o = Z.run_body(ctx, 'pilot', case['layout'], mk(argv + oa), count_calls=True)
    if not o.ok:
        ctx.bad('run failed', f'no fault ({what}): {o.describe()}')
        return
    ref = {}
    for k, p in paths.items():
        ref[k] = E.try_load(p)
        if ref[k] is None or isinstance(ref[k], str):
            ctx.bad('output missing', f'no fault ({what}): {k}: {ref[k] or "missing"}')
            return
    left = [f for f in E.stray(os.path.dirname(next(iter(paths.values()))), paths)]
    if left:
        ctx.bad('output missing', f'no fault ({what}): files left behind: {left}')
    consistent(ctx, case, what, ref, paths)
    if ctx.viol:
        return
    if len(rec.got) == 1:
        recorded(ctx, case, what, ref, *rec.got[0])
        ctx.probes['compared with zfind'] += 1
    h5 = [k for k in paths if paths[k].endswith('.h5')]
    for k in h5:
        read_back(ctx, what, paths[k], ref[k]['h5'][1], [0.3, 0.6, 0.9])
    if ctx.viol:
        return
    for k, pt in enumerate(case['points']):
        f = resolve(pt, o, where)
        if f is None:
            continue
        oa, paths, w2 = place(k + 1)
        f['path'] = w2
        q = Z.run_body(ctx, f'f{k}', case['layout'], mk(argv + oa), faults=[f])
        outcome(ctx, f'{f["act"]} at {f["op"]} {f["n"]} ({what})', q, f, k,
                lambda w: E.check_outputs(ctx, w, paths, ref, 'failure not reported'))
        if ctx.viol:
            return


def outcome(ctx, w, q, f, k, complete):
    fired = bool(q.sim.injector.fired)
    ctx.nontrivial |= fired
    if q.hang:
        ctx.bad('hang', f'{w}: {q.describe()}')
    elif q.ok:
        ctx.note((k, 'ok'))
        ctx.probes['success despite the fault'] += fired and f['act'] != 'short'
        if fired and f['act'] != 'short':
            ctx.probes[f'{f["op"]} error survived'] += 1
        complete(w)
    else:
        ctx.note((k, 'failed'))
        ctx.probes['failure reported'] += 1
        if f['act'] == 'short' or not fired:
            ctx.bad('run failed', f'{w}: {q.describe()}')
        elif not q.status:
            ctx.bad('failure not reported', f'{w}: {q.describe()}: exit codes {q.exitcodes}')


# -- one writer ---------------------------------------------------------------------------------

def run_writer(case, ctx):
    v = V.Version(case['new'])
    base = ctx.scratch()
    kind = case['new']['kind']
    what = f'writer {case["new"]}'
    ctx.sample = what

    def place(k):
        d = os.path.join(base, f'outputs{k}')
        if not case['dir'] or kind == 'zbest':
            os.makedirs(d)
        p = os.path.join(d, 'out' + V.EXT[kind])
        if case['old'] and os.path.isdir(d):
            with open(p, 'wb') as f:
                f.write(b'earlier')
        return p

    def check(p):
        got = V.identify(p, [v])
        return None if got == 0 else got
    p = place(0)
    o = Z.run_body(ctx, 'pilot', ['serial'], lambda comm, mp: v.write(p), count_calls=True)
    if not o.ok:
        ctx.bad('run failed', f'no fault ({what}): {o.describe()}')
        return
    got = check(p)
    if got:
        ctx.bad('wrong content', f'no fault ({what}): {got}')
        return
    if kind == 'details':
        read_back(ctx, what, p, E.load(p)['h5'][1], case['sel'], v)
        if ctx.viol:
            return
    for k, pt in enumerate(case['points']):
        f = resolve(pt, o, 'outputs0/')
        if f is None:
            continue
        q_ = place(k + 1)
        f['path'] = f'outputs{k + 1}/'
        q = Z.run_body(ctx, f'f{k}', ['serial'], lambda comm, mp: v.write(q_), faults=[f])

        def complete(w):
            got = check(q_)
            if got:
                ctx.bad('failure not reported', f'{w}: {got}')
        outcome(ctx, f'{f["act"]} at {f["op"]} {f["n"]} ({what})', q, f, k, complete)
        if ctx.viol:
            return


# -- the readers of redrock ------------------------------------------------------------------------

def read_back(ctx, what, path, h, sel, v=None):
    """read_zscan, read_zfit and read_zscan_redrock against the stored arrays."""
    import redrock.results as R
    ids = [int(x) for x in h['targetids']]
    n = len(ids)
    r = W.rs(72, int(sel[0] * 1e6))
    some = [ids[int(k)] for k in r.permutation(n)[:1 + int(sel[1] * n)]]
    picks = [None, some, np.array(some), ids[int(sel[2] * n)]]
    cols = sorted({k.split('/')[3] for k in h if k.startswith(f'zfit/{ids[0]}/zfit/')})
    fts = sorted({k.split('/')[1] for k in h if k.startswith('zscan/')})
    try:
        for k, pick in enumerate(picks):
            kw = {} if pick is None else {'select_targetids': pick}
            up = (k + int(sel[0] * 10)) % 2 == 1
            want = ids if pick is None else [pick] if np.isscalar(pick) else [int(x) for x in pick]
            w = f'{what}: read_zscan of {want}'
            zs, zf = R.read_zscan(path, upper=up, **kw)
            table_matches(ctx, w, h, zf, want, cols, up)
            zs2 = R.read_zscan(path, nozfit=True, **kw)
            for z, full in ((zs, True), (zs2, False)):
                scan_matches(ctx, w, h, z, [t for t in ids if t in want], ids, fts)
                if full and not ctx.viol:
                    parts(ctx, w, h, z, want, up)
            table_matches(ctx, f'{what}: read_zfit of {want}', h, R.read_zfit(path, upper=not up, **kw), want,
                          cols, not up)
            if ctx.viol:
                return
        scan_matches(ctx, f'{what}: read_zscan_redrock', h, R.read_zscan_redrock(path), ids, ids, fts)
    except Exception as e:      # noqa
        ctx.bad('unreadable', f'{what}: {type(e).__name__}: {e}')


def flat(a):
    a = np.atleast_1d(a)
    if a.dtype.kind == 'S':
        a = np.char.decode(a, 'ascii')
    return np.char.rstrip(a) if a.dtype.kind == 'U' else a


def table_matches(ctx, what, h, t, want, cols, up):
    have = sorted(t.colnames)
    if have != sorted(c.upper() if up else c for c in cols):
        ctx.bad('reader', f'{what}: columns {have} instead of {cols}')
        return
    for c in cols:
        exp = np.concatenate([np.atleast_1d(h[f'zfit/{i}/zfit/{c}']) for i in want])
        got = np.asarray(t[c.upper() if up else c])
        if got.shape != exp.shape or not np.array_equal(flat(got), flat(exp)):
            ctx.bad('reader', f'{what}: column {c} differs')
            return


def scan_matches(ctx, what, h, z, want, ids, fts):
    if sorted(int(x) for x in z) != sorted(want):
        ctx.bad('reader', f'{what}: targets {sorted(z)} instead of {sorted(want)}')
        return
    for t in want:
        i = ids.index(t)
        if not set(fts) <= set(z[t]):
            ctx.bad('reader', f'{what}: templates {sorted(z[t])} instead of {fts}')
            return
        for ft in fts:
            for k in ('zchi2', 'penalty', 'zcoeff', 'redshifts'):
                exp = h[f'zscan/{ft}/{k}']
                if not np.array_equal(z[t][ft][k], exp if k == 'redshifts' else exp[i]):
                    ctx.bad('reader', f'{what}: {k} of target {t} {ft} differs')
                    return


def parts(ctx, what, h, z, want, up):
    """The fits of one target and template."""
    for t in want:
        p = f'zfit/{t}/zfit/'
        typ = list(zip(flat(h[p + 'spectype']), flat(h[p + 'subtype'])))
        zz = np.atleast_1d(h[p + 'z'])
        for ft in z[t]:
            a = (ft.split(':::') + [''])[:2]
            exp = sorted(zz[[tuple(a) == tuple(map(str, x)) for x in typ]])
            got = z[t][ft].get('zfit')
            got = [] if got is None else sorted(got['Z' if up else 'z'])
            if list(exp) != list(got):
                ctx.bad('reader', f'{what}: fits of target {t} {ft} at {got} instead of {exp}')
                return


# -- outputs of one run -----------------------------------------------------------------------------

def consistent(ctx, case, what, out, paths):
    """Catalog, models and details agree; header names the templates."""
    cats = {}
    for k, c in out.items():
        for part in c:
            if part.endswith((':REDSHIFTS', ':ZBEST')):
                cats[k] = c[part][1]
    names = sorted(cats)
    for k in names[1:]:
        a, b = cats[names[0]], cats[k]
        if set(a) != set(b):
            ctx.bad('inconsistent', f'{what}: {names[0]} and {k} differ in columns {sorted(set(a) ^ set(b))}')
            return
        for c in a:
            if not np.array_equal(a[c], b[c]):
                ctx.bad('inconsistent', f'{what}: {names[0]} and {k} differ in {c}')
                return
    h = next((c['h5'][1] for c in out.values() if 'h5' in c), None)
    if h is not None:
        ids = [int(x) for x in h['targetids']]
        rows = {}
        for t in ids:
            p = f'zfit/{t}/zfit/'
            if p + 'znum' not in h:
                ctx.bad('inconsistent', f'{what}: no fits of target {t}')
                return
            k = np.flatnonzero(h[p + 'znum'] == 0)
            if len(k) != 1 or sorted(h[p + 'znum']) != list(range(len(h[p + 'znum']))):
                ctx.bad('inconsistent', f'{what}: fits of target {t} are numbered {h[p + "znum"]}')
                return
            if not np.all(h[p + 'targetid'] == t):
                ctx.bad('inconsistent', f'{what}: fits of target {t} carry ids {h[p + "targetid"]}')
                return
            rows[t] = {x[len(p):].lower(): h[x][k[0]] for x in h if x.startswith(p)}
        best = {x[6:]: v for x, v in h.items() if x.startswith('zbest/')}
        tabs = [('zbest in the details', best, 'targetid')]
        tabs += [(k, cats[k], 'TARGETID') for k in names]
        for nm, t, key in tabs:
            if [int(x) for x in t[key]] != ids:
                ctx.bad('inconsistent', f'{what}: {nm} has targets {list(t[key])}, details {ids}')
                return
            for c in t:
                if np.asarray(t[c]).size == 0:
                    continue
                for i, tid in enumerate(ids):
                    e = rows[tid].get(c.lower())
                    if e is None:
                        ctx.bad('inconsistent', f'{what}: column {c} of {nm} is not in the details')
                        return
                    if not same(t[c][i], e, c):
                        ctx.bad('inconsistent', f'{what}: {c} of target {tid} is {t[c][i]!r} in {nm}, '
                                                f'{e!r} in the details')
                        return
        for f in {x.split('/')[1] for x in h if x.startswith('zscan/')}:
            for k in ('zchi2', 'penalty', 'zcoeff'):
                if len(h.get(f'zscan/{f}/{k}', ())) != len(ids):
                    ctx.bad('inconsistent', f'{what}: scan {k} of {f} lacks targets')
                    return
    full = {}
    for t in W.make_templates(case['templates']):
        full[t.full_type] = str(t._version)
    for k in names:
        hd = next(iter(out[k].values()))[0]
        got = {}
        for n in range(100):
            if f'TEMNAM{n:02d}' in hd:
                got[hd[f'TEMNAM{n:02d}']] = str(hd.get(f'TEMVER{n:02d}'))
        if set(got) != set(full):
            ctx.bad('inconsistent', f'{what}: header of {k} names templates {sorted(got)} instead of {sorted(full)}')
            return


def same(a, b, col):
    """Equal, up to single precision unless it is the redshift."""
    a, b = np.asarray(a), np.asarray(b)
    if a.dtype.kind in 'SU':
        return str(flat(a)[0]) == str(flat(b)[0])
    if a.dtype.kind == 'f' and col.lower() != 'z':
        return a.shape == b.shape and np.array_equal(a.astype('f4'), b.astype('f4'), equal_nan=True)
    return np.array_equal(a, b)


def recorded(ctx, case, what, out, scan, zfit):
    """The files hold what zfind returned, but for the bits rrdesi adds."""
    h = next((c['h5'][1] for c in out.values() if 'h5' in c), None)
    if h is None:
        return
    ids = [int(x) for x in h['targetids']]
    if sorted(int(x) for x in scan) != sorted(ids):
        ctx.bad('results', f'{what}: details hold targets {ids}, computed were {sorted(scan)}')
        return
    nodata = set()
    if case['mode'] == 'desi':
        tid = D.ids(case['files'])
        per, order = E.selected(case)
        nodata = {int(tid[t]) for t, b in zip(order, c13.bits_of(case['files'], order, per)) if b & c13.NODATA}
    key = next(iter(scan))
    fts = sorted(scan[key])
    if fts != sorted({x.split('/')[1] for x in h if x.startswith('zscan/')}):
        ctx.bad('results', f'{what}: scans of other templates than {fts}')
        return
    for i, t in enumerate(ids):
        for ft in fts:
            for k in ('zchi2', 'penalty', 'zcoeff', 'redshifts'):
                e = np.asarray(scan[t][ft][k])
                g = h[f'zscan/{ft}/{k}']
                if not np.array_equal(g if k == 'redshifts' else g[i],
                                      e if k == 'redshifts' else e.astype('f4'), equal_nan=True):
                    ctx.bad('results', f'{what}: {k} of target {t} {ft} differs from the scan')
                    return
        rows = zfit[zfit['targetid'] == t]
        p = f'zfit/{t}/zfit/'
        for c in rows.colnames:
            e = np.asarray(rows[c])
            if 0 in e.shape[1:]:
                continue
            g = h.get(p + c)
            if g is None or g.shape != e.shape:
                ctx.bad('results', f'{what}: column {c} of target {t} missing or of another shape')
                return
            if c == 'zwarn':
                ok = np.array_equal(e & g, e)
            elif t in nodata and c in ('spectype', 'subtype', 'coeff', 'z', 'fitmethod'):
                ok = True
            else:
                ok = all(same(a, b, c) for a, b in zip(g, e))
            if not ok:
                ctx.bad('results', f'{what}: {c} of target {t} is {g.tolist()}, computed was {e.tolist()}')
                return


def shrink(case):
    P = case['points']
    for k in range(len(P)):
        yield dict(case, points=[P[k]] if len(P) > 1 else [])
    if case['old']:
        yield dict(case, old=False)
    if case['dir']:
        yield dict(case, dir=False)
    if case['mode'] == 'write':
        n = case['new']
        for k, v in (('n', 1), ('n', 2), ('arch', False), ('leg', 0), ('bands', 'b'), ('prio', False),
                     ('ids', 'plain'), ('sub', 'own'), ('nz', 3)):
            if n[k] != v and not (k == 'n' and n['n'] < v):
                yield dict(case, new=dict(n, **{k: v}))
        return
    if case['layout'] != ['serial']:
        yield dict(case, layout=['serial'])
    if case.get('scan'):
        yield dict(case, scan=False)
    if case['mode'] == 'desi':
        yield from E.shrink(case)
    else:
        b = case['boss']
        if b['n'] > 1:
            yield dict(case, boss=dict(b, n=b['n'] - 1))
        for k in ('ntargets', 'targetids', 'allspec', 'nminima', 'usemask', 'priors'):
            if case['opts'].get(k):
                yield dict(case, opts={a: b for a, b in case['opts'].items() if a != k})
