"""C01: results do not depend on how the work is parallelised."""
import numpy as np

from .. import workloads as W, zengine as Z

ID = 'C01'
N = {'quick': 420, 'thorough': 20000}
RULE = ('seeded workload (targets, templates, options) run in 3 seeded layouts under seeded '
        'schedules with stalled processes and clock jumps; non-trivial: more than one target, at least one parallel layout with more '
        'than one process')
REAL = ['redrock.targets', 'redrock.templates', 'redrock.zscan', 'redrock.zfind', 'redrock.fitz',
        'redrock.archetypes', 'redrock.priors', 'redrock.rebin', 'redrock.igm']
STUB = ['MPI library', 'multiprocessing process/queue/pipe transport', 'clock']


def gen(rng, i, tier):
    r = np.random.default_rng(rng.getrandbits(60))
    big = tier == 'thorough' and r.random() < 0.2
    c = dict(targets=W.gen_targets(r, 12 if big else 7), templates=W.gen_templates(r),
             opts=Z.gen_opts(r))
    if c['opts'].get('priors') and c['targets']['ids'] in ('str',):
        c['targets']['ids'] = 'rand'
    nl = 3
    x = r.random()
    if x < 0.03:            # the few large cases: many targets, or many redshifts
        c.update(targets=W.gen_targets(r, (20, 70)), templates=W.gen_templates(r, n=1, nzmax=13))
        c['targets'].update(nspec=[1 + (k % 7 == 3) for k in range(c['targets']['n'])])
        for t in c['templates']:
            t['nz'] = min(t['nz'], 13)
        nl = 2
    elif x < 0.06:
        c.update(targets=W.gen_targets(r, 3), templates=W.gen_templates(r, n=1))
        c['templates'][0]['nz'] = int(r.choice([130, 257, 400]))
        nl = 2
    if c['opts'].get('priors') and c['targets']['ids'] in ('str',):
        c['targets']['ids'] = 'rand'
    c['layouts'] = [Z.gen_layout(r, c['targets']['n']) for _ in range(nl)]
    c['faults'] = [Z.gen_benign(r, x) for x in c['layouts']]
    c['indep'] = bool(r.random() < 0.3)
    c['rootonly'] = bool(r.random() < 0.3)
    c['batch'] = int(r.choice([0, 1, 2, 3]))
    return c


def run(case, ctx):
    d = ctx.scratch()
    kw = Z.prepare(case, d)
    spec = case['targets']
    ids, scan, rows = Z.reference(case, kw)
    templates = W.make_templates(case['templates'])
    if case.get('indep'):
        independent(ctx, case, ids, scan, templates)
    par = 0
    for li, layout in enumerate(case['layouts']):
        if layout[0] != 'serial' and layout[1] > 1:
            par += 1

        def body(comm, mp):
            from redrock.targets import DistTargetsCopy
            import copy
            tg = W.make_targets(spec) if comm is None or comm.rank == 0 or \
                not case.get('rootonly') else []
            return Z.fit(tg, copy.deepcopy(templates), comm, mp, kw)
        o = Z.run_body(ctx, f'l{li}', layout, body, faults=case['faults'][li])
        Z.check_result(ctx, o, f'layout {layout}', ids, scan, rows)
        if layout[0] == 'mpi':
            ctx.probes['ranks > targets'] += layout[1] > spec['n']
            ctx.probes['ranks > redshifts'] += any(layout[1] > t['nz'] for t in case['templates'])
            for x in o.results[1:]:
                if o.ok and (x[0] is not None or x[1] is not None):
                    ctx.bad('non-root result', f'layout {layout}: a rank other than 0 returned data')
        elif layout[0] == 'mp':
            ctx.probes['workers > targets'] += layout[1] > spec['n']
        ctx.probes['unequal spectra'] += len(set(spec['nspec'])) > 1
    ctx.nontrivial = par > 0 and spec['n'] > 1
    ctx.sample = (f'{spec["n"]} targets nspec={spec["nspec"]} ids={spec["ids"]} '
                  f'templates={[(W.TYPES[t["t"]], t["nb"], t["nz"], t["m"]) for t in case["templates"]]} '
                  f'opts={case["opts"]} layouts={case["layouts"]}')


def independent(ctx, case, ids, scan, templates):
    r = W.rs(case['targets']['key'], 5)
    tg = W.make_targets(case['targets'])
    for t in templates:
        i = int(r.integers(len(tg)))
        dwave = {s.wavehash: s.wave for s in tg[i].spectra}
        iz = int(r.integers(len(t.redshifts)))
        x = Z.chi2_independent(tg[i], t, dwave, iz)
        if x is None or t.solve_matrices_algorithm != 'PCA' or case['opts'].get('priors'):
            continue
        got = float(scan[ids[i]][t.full_type]['zchi2'][iz])
        ctx.probes['independent chi2 compared'] += 1
        if abs(x - got) > 1e-5 * max(abs(x), 1.0):
            ctx.bad('chi2 wrong', f'target {ids[i]} {t.full_type} redshift {iz}: chi2 {got}, '
                                  f'independent least squares {x}')


def shrink(case):
    yield from Z.drop_faults(case)
    yield from shrink_layouts(case)
    yield from shrink_workload(case)


def shrink_layouts(case):
    L = case['layouts']
    if len(L) > 1:
        for k, x in enumerate(L):
            if 'faults' in case:
                yield dict(case, layouts=[x], faults=[case['faults'][k]])
            else:
                yield dict(case, layouts=[x])
    for i, x in enumerate(L):
        if len(x) > 1 and x[1] > 2:
            for n in (2, x[1] // 2, x[1] - 1):
                if 1 < n < x[1]:
                    yield dict(case, layouts=L[:i] + [[x[0], n]] + L[i + 1:])


def shrink_workload(case):
    t = case['targets']
    if len(case['templates']) > 1:
        for k in range(len(case['templates'])):
            yield dict(case, templates=case['templates'][:k] + case['templates'][k + 1:])
    if t['n'] > 1:
        for n in sorted({1, 2, t['n'] // 2, t['n'] - 1}):
            if n < t['n']:
                yield dict(case, targets=dict(t, n=n, nspec=t['nspec'][:n], kinds=t['kinds'][:n]))
        for k in range(t['n'] - 1):
            ns = t['nspec'][:k] + t['nspec'][k + 1:]
            ks = t['kinds'][:k] + t['kinds'][k + 1:]
            yield dict(case, targets=dict(t, n=t['n'] - 1, nspec=ns, kinds=ks))
    o = case['opts']
    for k in ('priors', 'arch', 'npts'):
        if k in o:
            yield dict(case, opts={a: b for a, b in o.items() if a != k})
    if any(x != 1 for x in t['nspec']):
        yield dict(case, targets=dict(t, nspec=[1] * t['n']))
        for k, x in enumerate(t['nspec']):
            if x > 1:
                yield dict(case, targets=dict(t, nspec=t['nspec'][:k] + [x - 1] + t['nspec'][k + 1:]))
    if any(x != 'ok' for x in t['kinds']):
        yield dict(case, targets=dict(t, kinds=['ok'] * t['n']))
        for k, x in enumerate(t['kinds']):
            if x != 'ok':
                yield dict(case, targets=dict(t, kinds=t['kinds'][:k] + ['ok'] + t['kinds'][k + 1:]))
    if len(t['bands']) > 1:
        yield dict(case, targets=dict(t, bands='b'))
    if t['ids'] != 'seq':
        yield dict(case, targets=dict(t, ids='seq'))
    for k in ('meta', 'coadd', 'rcsr'):
        if t.get(k):
            yield dict(case, targets=dict(t, **{k: False}))
    for k, x in enumerate(case['templates']):
        if x['nb'] > 1:
            yield dict(case, templates=case['templates'][:k] + [dict(x, nb=1)] + case['templates'][k + 1:])
        if x['nz'] > 6:
            yield dict(case, templates=case['templates'][:k] + [dict(x, nz=6)] + case['templates'][k + 1:])
