"""C02: every selected target's data reaches exactly one rank, complete and unmixed."""
import copy

import numpy as np
import scipy.sparse

from .. import dengine as E, desifiles as D, workloads as W, zengine as Z
from . import c01

ID = 'C02'
N = {'quick': 900, 'thorough': 40000}
RULE = ('seeded input files (rows of a target spread over files, bands and masks missing from some '
        'files, invalid pixels), selection options and rank count; the loaders under a seeded '
        'schedule with stalls; non-trivial: two or more ranks and two or more targets')
REAL = ['redrock.external.desi (DistTargetsDESI)', 'redrock.external.boss (read_spectra)',
        'redrock.targets', 'redrock.utils (distribute_work)']
STUB = ['MPI library', 'clock', 'file system calls (real files below a scratch directory)']


def gen(rng, i, tier):
    r = np.random.default_rng(rng.getrandbits(60))
    kind = str(r.choice(['desi'] * 13 + ['boss', 'boss', 'bossrun', 'bossrun', 'copy', 'copy', 'copy']))
    c = dict(kind=kind, batch=int(r.choice([0, 1, 2, 3])))
    if kind == 'desi':
        x = E.gen_case(r, nmax=[8, 14, (30, 90)][int(np.searchsorted([0.8, 0.96], r.random()))], multi=0.6, few=True)
        c['files'], c['templates'] = x['files'], []
        c['opts'] = {k: x['opts'][k] for k in ('targetids', 'mintarget', 'ntargets', 'allspec',
                                               'cosmics', 'negflux') if k in x['opts']}
        c['opts']['outs'] = ['details']
        c['rcsr'] = bool(r.random() < 0.5)
        n = c['files']['n']
    elif kind == 'boss':
        c.update(boss=D.gen_boss(r, 7), opts=E.gen_boss_opts(r), templates=[])
        n = c['boss']['n']
    elif kind == 'bossrun':
        c.update(boss=D.gen_boss(r, 5), opts=E.gen_boss_opts(r, priors=0),
                 templates=W.gen_templates(r, n=int(r.choice([1, 2])), nzmax=9))
        c['opts'].pop('akey', None)
        c['opts']['outs'] = ['output']
        n = c['boss']['n']
    else:
        c.update(targets=W.gen_targets(r, 11 if r.random() < 0.95 else (30, 90)), templates=[],
                 opts=dict(root=int(r.integers(0, 4))))
        n = c['targets']['n']
    m = min(n, 17)
    c['ranks'] = int(r.choice([1, 2, 2, 3, 3, 4, 5, 7, m, m + 1, m + 3, 12]))
    c['faults'] = Z.gen_benign(r, ['mpi', c['ranks']])
    return c


# -- what has to arrive --------------------------------------------------------------------

def resolution(data):
    nd = data.shape[0]
    off = nd // 2 - np.arange(nd)
    return scipy.sparse.dia_matrix((data, off), shape=(data.shape[1],) * 2).toarray()


def expect_desi(case):
    """targets {id: [(band, wave, flux, ivar, R)]}, order of ids."""
    sp, o = case['files'], case['opts']
    per, order = E.selected(case)
    tid = D.ids(sp)
    out = {}
    nsig = abs(o.get('negflux', 5))
    for t in order:
        lst = []
        for f, desc in enumerate(sp['files']):
            if t not in per[f]:
                continue
            for b in desc['bands']:
                for i, x in enumerate(desc['rows']):
                    if x == t:
                        w, fl, iv, res = D.read_row(sp, f, i, b, nsig)
                        lst.append((b, w, fl, iv, resolution(res)))
        out[tid[t]] = lst
    return out, [tid[t] for t in order]


def coadd(lst):
    """Inverse variance weighted mean of the spectra of each band, in order of appearance."""
    out = []
    for b in dict.fromkeys(x[0] for x in lst):
        s = [x for x in lst if x[0] == b]
        iv = np.array([x[3] for x in s])
        fl = np.array([x[2] for x in s])
        w = iv.sum(0)
        bad = w == 0
        flux = np.where(bad, fl.mean(0), (iv * fl).sum(0) / np.where(bad, 1, w))
        # column j of the resolution belongs to pixel j
        R = sum(x[4] * x[3][None, :] for x in s) / np.where(bad, 1, w)[None, :]
        w = np.where(R.sum(axis=1) < minres(), 0, w)
        out.append((b, s[0][1], flux, w, R))
    return out


def minres():
    from redrock import constants
    return constants.min_resolution_integral


def spectra_of(t, rcsr=False):
    out = []
    for s in t.spectra:
        R = s.R.toarray()
        c = None if s._Rcsr is None and not rcsr else s.Rcsr.toarray()
        out.append((s.band if s.band is not None else s.wavehash, np.array(s.wave),
                    np.array(s.flux), np.array(s.ivar), R, c))
    return out


# -- run --------------------------------------------------------------------------------------

def run_boss(case, ctx):
    """The scan of rrboss is that of the spectra its options ask for."""
    from redrock.external.boss import read_spectra
    d, od = ctx.scratch(), ctx.scratch()
    sp, o = case['boss'], case['opts']
    argv = E.boss_prepare(case, d)
    files = argv[1:argv.index('--templates')]
    tid = D.boss_ids(sp)
    kw = dict(coadd=not o.get('allspec'), use_andmask=o.get('usemask', False), use_frames=bool(sp.get('frames')))
    with W.quiet():
        one = read_spectra(list(files), **dict(kw, coadd=False))[0]
        ref = read_spectra(list(files), **kw)[0]
    ids = [tid[i] for i in E.boss_selected(case)]
    one = [t for t in one if t.id in ids]
    boss_raw(ctx, case, one)
    data = {t.id: [(s.wavehash, s.wave, s.flux, s.ivar, s.R) for s in t.spectra] for t in ref}
    oa, paths = E.boss_outargs(case, od)
    r = Z.run_body(ctx, 'run', ['mpi', case['ranks']] if case['ranks'] > 1 else ['serial'],
                   E.boss_body(argv + oa), faults=case['faults'])
    what = f'rrboss on {case["ranks"]} ranks ({sp} {o})'
    ctx.sample, ctx.nontrivial = what, case['ranks'] > 1 and len(ids) > 1
    ctx.probes['bossrun'] += 1
    if not r.ok:
        ctx.bad('run failed', f'{what}: {r.describe()}')
        return
    h = E.load_h5(paths['output'])['h5'][1]
    got = sorted(int(x) for x in h['targetids'])
    want = sorted(ids) if not o.get('ntargets') else None
    if want is None:
        n = min(o['ntargets'], sp['n'])
        if len(got) != min(n, len(ids)) or set(got) - set(ids):
            ctx.bad('selection', f'{what}: results of {got}')
            return
    elif got != want:
        ctx.bad('selection', f'{what}: results of {got} instead of {want}')
        return
    Z.scan_check(ctx, what, h, data, W.make_templates(case['templates']), sp['key'])


def run(case, ctx):
    if case['kind'] == 'bossrun':
        run_boss(case, ctx)
        return
    d = ctx.scratch()
    n = case['ranks']
    o = case['opts']
    order = None
    approx = False
    if case['kind'] == 'desi':
        from redrock.external.desi import DistTargetsDESI
        files = D.write(case['files'], d)
        tid = D.ids(case['files'])
        want, order = expect_desi(case)
        kw = dict(coadd=not o.get('allspec'), cache_Rcsr=case['rcsr'],
                  cosmics_nsig=o.get('cosmics', 0), negflux_nsig=o.get('negflux', 5),
                  first_target=o.get('mintarget'), n_target=o.get('ntargets'))
        if o.get('targetids') is not None:
            kw['targetids'] = [tid[t] for t in o['targetids']]
        approx = not o.get('allspec')
        if approx and o.get('cosmics'):
            want = library_coadd(want, o['cosmics'])
        elif approx:
            want = {k: coadd(v) for k, v in want.items()}

        def load(comm):
            t = DistTargetsDESI(list(files), comm=comm, **kw)
            return t, (t.fibermap, t.exp_fibermap, t.tsnr2)
        what = E.describe(case)
    elif case['kind'] == 'boss':
        from redrock.external.boss import read_spectra
        from redrock.targets import DistTargetsCopy
        files = D.write_boss(case['boss'], d)
        tid = D.boss_ids(case['boss'])
        kw = dict(coadd=not o.get('allspec'), use_andmask=o.get('usemask', False), cache_Rcsr=True,
                  use_frames=bool(case['boss'].get('frames')))
        if o.get('targetids') is not None:
            kw['targetids'] = [tid[i] for i in E.boss_selected(case)]
        with W.quiet():
            one = read_spectra(list(files), **dict(kw, coadd=False))[0]
            ref = read_spectra(list(files), **kw)[0]
        sel = E.boss_selected(case)
        order = sorted(tid[i] for i in sel)
        boss_raw(ctx, case, one)
        want = {t.id: [x[:5] for x in spectra_of(t)] for t in ref}
        if not o.get('allspec'):
            for t in one:
                dd = diff_spectra(want.get(t.id, []), coadd([x[:5] for x in spectra_of(t)]), 1e-4)
                if dd:
                    ctx.bad('data', f'{case["boss"]} {o}: coadd of target {t.id}: {dd}')

        def load(comm):
            return DistTargetsCopy(read_spectra(list(files), **kw)[0], comm=comm), None
        what = f'{case["boss"]} {o}'
    else:
        from redrock.targets import DistTargetsCopy
        ref = W.make_targets(case['targets'])
        want = {t.id: [x[:5] for x in spectra_of(t)] for t in ref}
        order = [t.id for t in ref]
        root = o['root'] % n

        def load(comm):
            mine = W.make_targets(case['targets']) if comm.rank == root else \
                (None if comm.rank % 2 else [])
            return DistTargetsCopy(mine, comm=comm, root=root), None
        what = f'{case["targets"]["n"]} targets {case["targets"]["ids"]} copied from rank {root}'

    def body(comm, mp):
        t, extra = load(comm)
        # read the data before the collective call: it must be complete by now
        mine = [(x.id, spectra_of(x), dict(x.meta)) for x in t.local()]
        dw = {k: np.array(v) for k, v in t.wavegrids().items()}
        mine2 = [(x.id, spectra_of(x), dict(x.meta)) for x in t.local()]
        return (list(t.local_target_ids()), list(t.all_target_ids), mine, dw,
                None if extra is None else [copy.deepcopy(x) for x in extra], mine2)

    o_ = Z.run_body(ctx, 'load', ['mpi', n], body, faults=case['faults'])
    what = f'{case["kind"]} on {n} ranks ({what})'
    ctx.sample = what
    ctx.nontrivial = n > 1 and len(order) > 1
    ctx.probes[case['kind']] += 1
    ctx.probes['ranks > targets'] += n > len(order)
    if not o_.ok:
        ctx.bad('run failed', f'{what}: {o_.describe()}')
        return
    judge(ctx, what, o_.results, want, order, approx)


def judge(ctx, what, results, want, order, approx):
    if sorted(want) != sorted(order):
        ctx.bad('selection', f'{what}: read {sorted(want)} instead of {sorted(order)}')
        return
    owners = {}
    grids = {}
    for r, (ids, allids, mine, dw, extra, mine2) in enumerate(results):
        if allids != list(order):
            ctx.bad('target list', f'{what}: rank {r} has {allids} instead of {list(order)}')
            return
        if [m[0] for m in mine] != ids:
            ctx.bad('local ids', f'{what}: rank {r} names {ids} and holds {[m[0] for m in mine]}')
            return
        for i in ids:
            owners.setdefault(i, []).append(r)
        if list(dw) != list(results[0][3]) or any(not np.array_equal(dw[k], results[0][3][k]) for k in dw):
            ctx.bad('wavelength grids', f'{what}: ranks 0 and {r} disagree')
            return
        grids = dw
        if extra is not None:
            for k, (a, b) in enumerate(zip(extra, results[0][4])):
                nm = ('fibermap', 'exp_fibermap', 'scores')[k]
                if a.colnames != b.colnames or any(
                        E.diff_array(c, np.array(a[c]), np.array(b[c]), True) for c in a.colnames):
                    ctx.bad('tables', f'{what}: ranks 0 and {r} disagree on the {nm}')
                    return
        for (i, s, _), (j, s2, _) in zip(mine, mine2):
            dd = diff_spectra([x[:5] for x in s2], [x[:5] for x in s], False)
            if i != j or dd:
                ctx.bad('changed', f'{what}: rank {r} target {i}: {dd}')
                return
    miss = [i for i in order if i not in owners]
    if miss or set(owners) - set(order):
        ctx.bad('lost', f'{what}: targets {miss} on no rank; not selected: {sorted(set(owners) - set(order))}')
        return
    twice = {i: o for i, o in owners.items() if len(o) > 1}
    if twice:
        ctx.bad('duplicated', f'{what}: {twice}')
        return
    wg = {}
    for r, x in enumerate(results):
        for i, s, _ in x[2]:
            dd = diff_spectra([y[:5] for y in s], want[i], approx)
            if dd:
                ctx.bad('data', f'{what}: rank {r} target {i}: {dd}')
                return
            for y in s:
                if y[5] is not None and not np.array_equal(y[4], y[5]):
                    ctx.bad('data', f'{what}: rank {r} target {i}: CSR resolution differs')
                    return
    for i in order:
        for y in want[i]:
            wg[y[0]] = y[1]
    if set(grids) != set(wg) or any(not np.array_equal(grids[k], wg[k]) for k in wg):
        if all(isinstance(k, str) for k in wg):
            ctx.bad('wavelength grids', f'{what}: grids {sorted(grids)} instead of {sorted(wg)}')


def diff_spectra(got, want, approx):
    if len(got) != len(want):
        return f'{len(got)} spectra {[x[0] for x in got]} instead of {len(want)} {[x[0] for x in want]}'
    for k, (a, b) in enumerate(zip(got, want)):
        if a[0] != b[0]:
            return f'spectrum {k} is {a[0]!r} instead of {b[0]!r}'
        for nm, x, y in zip(('wave', 'flux', 'ivar', 'resolution'), a[1:], b[1:]):
            rt = 1e-9 if approx is True else approx
            ok = Z.close(x, y, rt, 1e-3 * rt) if approx else \
                np.array_equal(np.asarray(x), np.asarray(y), equal_nan=True)
            if not ok:
                return f'{nm} of spectrum {k} ({a[0]}): {E.first(np.asarray(x), np.asarray(y), 1e-9, 1e-12)}'
    return None


def library_coadd(want, nsig):
    """With cosmic rejection the coadd is the library's own, of the stored spectra."""
    from redrock.targets import Spectrum, Target
    out = {}
    for i, lst in want.items():
        sp = []
        for b, w, fl, iv, R in lst:
            s = Spectrum(w, fl.copy(), iv.copy(), None, None, band=b)
            s.R = dia(R)
            sp.append(s)
        t = Target(i, sp)
        t.compute_coadd(False, cosmics_nsig=nsig)
        out[i] = [x[:5] for x in spectra_of(t)]
    return out


def dia(R):
    n = D.NDIAG
    off = n // 2 - np.arange(n)
    data = np.zeros((n, R.shape[0]))
    for k, o in enumerate(off):
        d = np.diagonal(R, o)
        if o >= 0:
            data[k, o:] = d
        else:
            data[k, :o] = d
    return scipy.sparse.dia_matrix((data, off), shape=R.shape)


def boss_raw(ctx, case, ref):
    """The serial reader against the stored rows: flux and weights of the cropped range."""
    from astropy.io import fits
    sp, o = case['boss'], case['opts']
    tid = D.boss_ids(sp)
    for t in ref:
        k = tid.index(t.id)
        one = []
        for p, f in enumerate(boss_files(ctx, case)):
            if sp.get('frames'):
                fib = D.boss_fibers(sp)[D.boss_rows(sp, p).index(k)]
                for cam, name in D.boss_exposures(sp, p):
                    if (cam[1] == '2') != (fib > 500):
                        continue
                    with fits.open(f'{ctx.dirs[0]}/spCFrame-{name}.fits', memmap=False) as hx:
                        i = list(hx[5].data['FIBERID']).index(fib)
                        la = 10 ** hx[3].data[i]
                        lim = (3500., 6000.) if cam[0] == 'b' else (5500., 10000.)
                        a, b = [abs(la - x).argmin() for x in lim]
                        v = hx[1].data[i].astype(float)
                        if o.get('usemask'):
                            v = v * (hx[2].data[i] == 0)
                        one.append((hx[0].data[i, a:b].astype(float), v[a:b], la[a:b]))
                continue
            with fits.open(f, memmap=False) as hx:
                i = D.boss_rows(sp, p).index(k)
                c0, c1 = hx[0].header['COEFF0'], hx[0].header['COEFF1']
                la = 10 ** (c0 + c1 * np.arange(hx[0].data.shape[1]))
                a, b = abs(la - 3500.).argmin(), abs(la - 10000.).argmin()
                v = hx[1].data[i].astype(float)
                if o.get('usemask'):
                    v = v * (hx[2].data[i] == 0)
                one.append((hx[0].data[i, a:b].astype(float), v[a:b], la[a:b]))
        # pixels whose resolution loses light at the edges have no weight
        ok = len(t.spectra) == len(one)
        for s, x in zip(t.spectra, one):
            g = np.asarray(s.ivar) > 0
            ok = ok and Z.close(s.flux, x[0], 1e-6) and Z.close(s.ivar[g], x[1][g], 1e-6) and \
                Z.close(s.wave, x[2], 1e-6) and g[8:-8].sum() >= (x[1][8:-8] > 0).sum()
        if not ok:
            ctx.bad('data', f'{sp} {o}: target {t.id} as read differs from the stored rows')
            return


def boss_files(ctx, case):
    import glob
    import os
    sp = case['boss']
    return [glob.glob(os.path.join(ctx.dirs[0], f'spPlate-{sp["plate"] + p}-*.fits'))[0]
            for p in range(2 if sp['multi'] else 1)]


def shrink(case):
    yield from Z.drop_faults(case)
    for n in (1, 2, 3, case['ranks'] // 2, case['ranks'] - 1):
        if 0 < n < case['ranks']:
            yield dict(case, ranks=n)
    if case['kind'] == 'desi':
        yield from E.shrink(case)
    elif case['kind'] == 'copy':
        yield from c01.shrink_workload(case)
    else:
        for k in list(case['opts']):
            if k != 'outs':
                yield dict(case, opts={a: b for a, b in case['opts'].items() if a != k})
        for n in (1, 2, case['boss']['n'] - 1):
            if 0 < n < case['boss']['n']:
                yield dict(case, boss=dict(case['boss'], n=n))
    if case.get('batch'):
        yield dict(case, batch=0)
