"""C09: reusing a saved chi2 scan works the same in every layout."""
import copy
import os

import numpy as np

from .. import dengine as E, desifiles as D, workloads as W, zengine as Z
from . import c01

ID = 'C09'
N = {'quick': 330, 'thorough': 15000}
RULE = ('seeded workload: a scan is saved by a serial run over all targets, then reused for all '
        'or some of the targets serially and in seeded parallel layouts under seeded schedules '
        'with stalls; non-trivial: a parallel layout with more than one process and more than '
        'one target')
REAL = ['redrock.zfind', 'redrock.results', 'redrock.fitz', 'redrock.targets',
        'redrock.templates', 'redrock.archetypes', 'redrock.priors', 'redrock.external.desi',
        'redrock.external.boss']
STUB = ['MPI library', 'multiprocessing process/queue/pipe transport', 'clock',
        'file system calls (real files below a scratch directory)']


def gen(rng, i, tier):
    r = np.random.default_rng(rng.getrandbits(60))
    kind = str(r.choice(['zfind'] * 6 + ['desi', 'desi', 'boss']))
    c = dict(kind=kind, batch=int(r.choice([0, 1, 2, 3])))
    if kind == 'zfind':
        c.update(targets=W.gen_targets(r, 7), templates=W.gen_templates(r), opts=Z.gen_opts(r))
        if c['targets']['ids'] == 'str':      # a details file needs integer ids
            c['targets']['ids'] = 'rand'
        n = c['targets']['n']
        k = n if r.random() < 0.4 else int(r.integers(1, n + 1))
        c['subset'] = [int(x) for x in r.permutation(n)[:k]]
        c['layouts'] = [Z.gen_layout(r, k) for _ in range(2)]
    elif kind == 'desi':
        c.update(E.gen_case(r, nmax=5, priors=0))
        c['opts']['outs'] = ['details', 'outfile']
        if len(c['files']['files']) > 1 and ('ntargets' in c['opts'] or 'mintarget' in c['opts']):
            # a range per file would select other spectra of a target, not only other targets
            c['opts'].pop('mintarget', None)
            c['opts'].pop('ntargets', None)
            c['opts']['targetids'] = [int(x) for x in r.permutation(c['files']['n'])[:2]]
        c['layouts'] = [Z.gen_layout(r, c['files']['n'])]
    else:
        c.update(boss=D.gen_boss(r), templates=W.gen_templates(r), opts=E.gen_boss_opts(r, 0))
        c['opts']['outs'] = ['output', 'zbest']
        c['layouts'] = [Z.gen_layout(r, c['boss']['n'])]
    c['faults'] = [Z.gen_benign(r, x) for x in c['layouts']]
    return c


def robust(scan, chi2):
    """No near ties that single precision could decide differently."""
    for ft in scan:
        x = np.asarray(scan[ft]['zchi2'], float) + np.asarray(scan[ft]['penalty'], float)
        x = x[np.isfinite(x)]
        if len(x) == 0:
            return False
        eps = 2e-6 * max(1.0, float(np.max(np.abs(x))))
        s = np.sort(x)
        if np.any(np.diff(s) < eps):
            return False
    c = np.sort(np.asarray(chi2, float))
    return not np.any(np.diff(c) < 2e-6 * max(1.0, float(np.max(np.abs(c), initial=0))))


def run(case, ctx):
    par = [x for x in case['layouts'] if x[0] != 'serial' and x[1] > 1]
    if case['kind'] == 'zfind':
        run_zfind(case, ctx, bool(par))
    else:
        run_files(case, ctx, bool(par))


def run_zfind(case, ctx, par):
    from redrock.results import write_zscan
    d = ctx.scratch()
    kw = Z.prepare(case, d)
    kw0 = {k: v for k, v in kw.items() if k != 'priors'}
    spec = case['targets']
    ids, scan, rows = Z.reference(case, kw)
    templates = W.make_templates(case['templates'])
    s0, z0 = Z.serial(W.make_targets(spec), templates, kw0)
    path = os.path.join(d, 'scan.h5')
    with W.quiet():
        write_zscan(path, s0, z0)
    before = open(path, 'rb').read()
    sub = case['subset']

    def targets():
        t = W.make_targets(spec)
        return [t[i] for i in sub]
    subids = [ids[i] for i in sub]
    kwr = dict(kw, chi2_scan=path)
    bs, bz = Z.serial(targets(), templates, kwr)
    base = Z.tocols(bz)
    # two templates of one type may end at the same archetype and redshift: an exact tie, which
    # is decided by the order of the templates (a file has them in alphabetical order)
    types = [W.TYPES[t['t']][0] for t in case['templates']]
    tie = bool(case['opts'].get('arch')) and len(set(types)) < len(types)
    # agreement with the run that computed the scan
    for t in subids:
        m = base['targetid'] == t
        if tie or not robust(scan[t], rows[t]['chi2']):
            ctx.probes['target with near ties'] += 1
            continue
        got = {k: v[m] for k, v in base.items()}
        df = Z.diff_rows(got, rows[t], coeff_pad=True, rtol=1e-6)
        if df:
            ctx.bad('reuse differs from original', f'serial reuse: {df}')
            return
    ref = {t: {k: v[base['targetid'] == t] for k, v in base.items()} for t in subids}
    for t in subids:
        d1 = Z.diff_scan({t: bs[t]}, {t: scan[t]}, rtol=1e-6)
        if d1 and all(np.all(np.isfinite(scan[t][ft]['zchi2'].astype('f4'))) for ft in scan[t]):
            ctx.bad('reuse differs from original', f'serial reuse: {d1}')
            return
    for li, layout in enumerate(case['layouts']):
        def body(comm, mp):
            tg = targets() if comm is None or comm.rank == 0 else []
            return Z.fit(tg, copy.deepcopy(templates), comm, mp, kwr)
        o = Z.run_body(ctx, f'l{li}', layout, body, faults=case['faults'][li])
        Z.check_result(ctx, o, f'reuse in layout {layout}', subids, bs, ref)
    if open(path, 'rb').read() != before:
        ctx.bad('saved scan changed', 'the file with the saved scan was modified')
    ctx.probes['scan covers more targets'] += len(sub) < spec['n']
    ctx.nontrivial = par and len(sub) > 1
    ctx.sample = f'{spec["n"]} targets, reuse for {sub}, opts={case["opts"]} {case["layouts"]}'


def run_files(case, ctx, par):
    d, d0, od = ctx.scratch(), ctx.scratch(), ctx.scratch()
    desi = case['kind'] == 'desi'
    sel = ('targetids', 'mintarget', 'ntargets')
    full = dict(case, opts={k: v for k, v in case['opts'].items() if k not in sel})
    prep = E.prepare if desi else E.boss_prepare
    outs = E.outargs if desi else E.boss_outargs
    body = E.desi_body if desi else E.boss_body
    argv = prep(case, d)
    # the scan covers all targets
    scan = os.path.join(d, 'scan.h5')
    with W.quiet():
        body(prep(full, d) + ['--details' if desi else '--output', scan])(None, 1)
    before = open(scan, 'rb').read()
    refs = []
    for nm, extra in (('orig', []), ('reuse', ['--chi2-scan', scan])):
        p = os.path.join(d0, nm)
        os.makedirs(p)
        oa, paths = outs(case, p)
        with W.quiet():
            body(argv + extra + oa)(None, 1)
        refs.append({k: E.load(x) for k, x in paths.items()})
    agree(ctx, case, refs)
    if ctx.viol:
        return
    for li, layout in enumerate(case['layouts']):
        p = os.path.join(od, str(li))
        os.makedirs(p)
        oa, paths = outs(case, p)
        o = Z.run_body(ctx, f'l{li}', layout, body(argv + ['--chi2-scan', scan] + oa),
                       faults=case['faults'][li])
        what = f'{case["kind"]} reuse in layout {layout}'
        if not o.ok:
            ctx.bad('run failed', f'{what}: {o.describe()}')
            return
        E.check_outputs(ctx, what, paths, refs[1], 'reuse differs between layouts')
    if open(scan, 'rb').read() != before:
        ctx.bad('saved scan changed', 'the file with the saved scan was modified')
    n = case['files' if desi else 'boss']['n']
    ctx.probes['scan covers more targets'] += any(case['opts'].get(k) is not None for k in sel)
    ctx.nontrivial = par and n > 1
    ctx.probes[case['kind']] += 1
    ctx.sample = f'{case["kind"]} {case["opts"]} {case["layouts"]}'


def agree(ctx, case, refs):
    """Details of the run with the saved scan and of the original, target by target."""
    k = 'details' if case['kind'] == 'desi' else 'output'
    a, b = refs[1][k]['h5'][1], refs[0][k]['h5'][1]
    if not np.array_equal(a['targetids'], b['targetids']):
        ctx.bad('reuse differs from original', f'targets {a["targetids"]} instead of {b["targetids"]}')
        return
    for x in b:
        if x.startswith('zscan/'):
            df = E.diff_array(x, a[x], b[x]) if x in a else f'{x} is missing'
            if df:
                ctx.bad('reuse differs from original', df)
                return
    fts = sorted({x.split('/zchi2')[0] for x in b if x.endswith('/zchi2') and x.startswith('zscan/')})
    types = [W.TYPES[t['t']][0] for t in case['templates']]
    if case['opts'].get('arch') and len(set(types)) < len(types):
        return
    for i, t in enumerate(b['targetids']):
        sc = {ft: {q: b[f'{ft}/{q}'][i] for q in ('zchi2', 'penalty')} for ft in fts}
        if not robust(sc, b[f'zfit/{t}/zfit/chi2']):
            continue
        ctx.probes['file targets compared'] += 1
        for x in b:
            if x.startswith(f'zfit/{t}/'):
                df = E.diff_array(x, a[x], b[x])
                if df:
                    ctx.bad('reuse differs from original', df)
                    return


def shrink(case):
    yield from Z.drop_faults(case)
    yield from c01.shrink_layouts(case)
    if case['kind'] == 'zfind':
        if len(case['subset']) > 1:
            for k in range(len(case['subset'])):
                yield dict(case, subset=case['subset'][:k] + case['subset'][k + 1:])
        n = case['targets']['n']
        for c in c01.shrink_workload(case):
            m = c['targets']['n']
            yield dict(c, subset=[x for x in case['subset'] if x < m] or [0]) if m != n else c
    elif case['kind'] == 'desi':
        yield from E.shrink(case)
    if case.get('batch'):
        yield dict(case, batch=0)
