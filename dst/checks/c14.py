"""C14: redshift slices circulate completely and repeatably among ranks."""
import time

import numpy as np

from .. import workloads as W, zengine as Z

ID = 'C14'
N = {'quick': 900, 'thorough': 60000}
RULE = ('seeded templates, wavelength grids and rank count, several full rounds of cycle() for '
        'each template under a seeded schedule with ranks pausing between steps; non-trivial: '
        'two or more ranks')
REAL = ['redrock.templates (DistTemplate, ReDistTemplate, load_dist_templates)', 'redrock.rebin',
        'redrock.igm', 'redrock.utils']
STUB = ['MPI library', 'clock']


def gen(rng, i, tier):
    r = np.random.default_rng(rng.getrandbits(60))
    c = dict(templates=W.gen_templates(r), bands=str(r.choice(['b', 'br', 'rz', 'brz'])),
             npix=int(r.choice([20, 30, 45])), rounds=int(r.choice([1, 2, 2, 3, 4])),
             via=str(r.choice(['ctor', 'ctor', 'load'])), pause=bool(r.random() < 0.5),
             order=str(r.choice(['nested', 'nested', 'mixed'])))
    nzs = [t['nz'] for t in c['templates']]
    pick = [1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 11, 13, 16] + [z for z in nzs] + [max(nzs) + 2]
    n = int(r.choice(pick))
    if n > 16 and r.random() < 0.7:
        n = int(r.integers(2, 17))
    c['ranks'] = n
    if n > 16:
        c['rounds'] = 1
    c['faults'] = Z.gen_benign(r, ['mpi', n])
    if r.random() < 0.04:
        c['templates'] = c['templates'][:1]
        c['templates'][0]['nz'] = int(r.choice([130, 257, 400]))
    if r.random() < 0.15:
        c['tiny'] = int(r.integers(1, 4))        # a template with 1-3 redshifts
        c['templates'][0]['nz'] = c['tiny']
    return c


def grids(case):
    from redrock.targets import Spectrum
    out = {}
    for b in case['bands']:
        w = W.grid(b, case['npix'] + ord(b) % 3)
        n = len(w)
        s = Spectrum(w, np.ones(n), np.ones(n), W.dia(n, 1.0), None)
        out[s.wavehash] = w
    return out


def run(case, ctx):
    from redrock.templates import DistTemplate, load_dist_templates
    import copy
    import os
    dwave = grids(case)
    templates = W.make_templates(case['templates'])
    d = ctx.scratch()
    if case['via'] == 'load':
        W.write_template_dir(os.path.join(d, 't'), case['templates'])
    with W.quiet():
        if case['via'] == 'load':
            ref = load_dist_templates(dwave, os.path.join(d, 't'))
        else:
            ref = [DistTemplate(t, dwave) for t in templates]
    refd = [(np.array(t.local.redshifts),
             {k: np.array(v) for k, v in t.local.data.items()}) for t in ref]
    names = [t.template.full_type for t in ref]
    independent(ctx, ref, dwave)
    n = case['ranks']
    obs = {}          # rank -> list of (template, index, redshifts, data, done)

    def grab(rank, k, dt, done):
        p = dt.local
        obs.setdefault((rank, k), []).append(
            (p.index, np.array(p.redshifts), {h: np.array(v) for h, v in p.data.items()}, done))

    def body(comm, mp):
        import random
        rnd = random.Random(f'{case["seed"]}-{comm.rank}')
        if case['via'] == 'load':
            dts = load_dist_templates(dwave, os.path.join(d, 't'), comm=comm)
        else:
            dts = [DistTemplate(copy.deepcopy(t), dwave, comm=comm) for t in templates]
        for k, dt in enumerate(dts):
            grab(comm.rank, k, dt, None)
        steps = comm.size * case['rounds']

        def one(k):
            if case['pause'] and rnd.random() < 0.3:
                time.sleep(rnd.choice([0.1, 5.0, 300.0]))
            done = dts[k].cycle()
            grab(comm.rank, k, dts[k], done)
        if case['order'] == 'nested':
            for k in range(len(dts)):
                for _ in range(steps):
                    one(k)
        else:
            for _ in range(steps):
                for k in range(len(dts)):
                    one(k)
        return [dt.template.full_type for dt in dts]
    o = Z.run_body(ctx, 'ring', ['mpi', n], body, faults=case['faults'])
    what = f'{n} ranks, {case["rounds"]} rounds'
    if not o.ok:
        ctx.bad('run failed', f'{what}: {o.describe()}')
        return
    if o.left:
        ctx.bad('message left', f'{what}: {o.left[0]}')
        return
    for r in o.results:
        if r != names:
            ctx.bad('templates differ', f'{what}: a rank has templates {r} instead of {names}')
            return
    for k, name in enumerate(names):
        check(ctx, case, f'{what}: {name}', n, [obs[(r, k)] for r in range(n)], refd[k])
        if ctx.viol:
            return
        ctx.probes['ranks > redshifts'] += n > len(refd[k][0])
    ctx.nontrivial = n > 1
    ctx.sample = f'{what} via={case["via"]} order={case["order"]} {names} ' \
                 f'nz={[len(x[0]) for x in refd]}'


def check(ctx, case, what, n, seq, ref):
    z, data = ref
    own = [s[0] for s in seq]
    got = np.concatenate([x[1] for x in own]) if own else np.zeros(0)
    # slices are ordered by the index that identifies them; they must tile the range
    if sorted(x[0] for x in own) != list(range(n)):
        ctx.bad('slice identity', f'{what}: slice indices {[x[0] for x in own]}')
        return
    if len(got) != len(z) or not np.array_equal(np.sort(got), np.sort(z)):
        ctx.bad('slices do not tile', f'{what}: the slices hold {len(got)} redshifts, the template '
                                      f'has {len(z)}')
        return
    where = {float(x): i for i, x in enumerate(z)}
    for r, x in enumerate(own):
        ii = [where[float(v)] for v in x[1]]
        for h in data:
            if len(ii) == 0:
                if h in x[2] and len(x[2][h]) != 0:
                    ctx.bad('slice contents', f'{what}: rank {r} holds data for no redshift')
                    return
                continue
            if h not in x[2] or np.shape(x[2][h]) != np.shape(data[h][ii]) or \
                    not Z.close(x[2][h], data[h][ii], 1e-10, 1e-12):
                ctx.bad('slice contents', f'{what}: slice of rank {r} is not the template computed '
                                          f'for its redshifts')
                return
    byid = {x[0]: x for x in own}
    for r in range(n):
        for rd in range(case['rounds']):
            steps = seq[r][1 + rd * n:1 + (rd + 1) * n]
            ids = [s[0] for s in steps]
            if sorted(ids) != list(range(n)):
                ctx.bad('round incomplete', f'{what}: in round {rd + 1} rank {r} held slices {ids}')
                return
            dn = [s[3] for s in steps]
            if [bool(x) for x in dn] != [False] * (n - 1) + [True]:
                ctx.bad('end of round', f'{what}: in round {rd + 1} rank {r} was told '
                                        f'"finished" {dn}')
                return
            if ids[-1] != own[r][0]:
                ctx.bad('own slice not back', f'{what}: after round {rd + 1} rank {r} holds slice '
                                              f'{ids[-1]}')
                return
            for s in steps:
                o = byid[s[0]]
                if not np.array_equal(s[1], o[1]) or set(s[2]) != set(o[2]) or \
                        any(not np.array_equal(s[2][h], o[2][h]) for h in o[2]):
                    ctx.bad('slice changed', f'{what}: slice {s[0]} changed on its way to rank {r}')
                    return


def independent(ctx, ref, dwave):
    """The template computed for a redshift: redshifted, resampled, IGM-attenuated."""
    from redrock.rebin import trapz_rebin
    from redrock.igm import transmission_Lyman
    for dt in ref:
        t = dt.template
        for iz in {0, len(t.redshifts) // 2, len(t.redshifts) - 1}:
            z = float(t.redshifts[iz])
            for h, w in dwave.items():
                T = transmission_Lyman(z, w, model=t.igm_model)
                for b in range(t.nbasis):
                    x = trapz_rebin(np.asarray(t.wave) * (1 + z), np.asarray(t.flux[b]), w)
                    x = np.asarray(x)
                    if T is not None:
                        x = x * T
                    g = np.asarray(dt.local.data[h])[iz, :, b]
                    if not Z.close(g, x, 1e-8, 1e-10 * float(np.max(np.abs(x)) + 1e-30)):
                        ctx.bad('template data wrong', f'{t.full_type} at z={z}: not the redshifted '
                                                       f'template')
                        return


def shrink(case):
    yield from Z.drop_faults(case)
    for n in (1, 2, 3, case['ranks'] // 2, case['ranks'] - 1):
        if 0 < n < case['ranks']:
            yield dict(case, ranks=n)
    if case['rounds'] > 1:
        yield dict(case, rounds=1)
        yield dict(case, rounds=case['rounds'] - 1)
    if len(case['templates']) > 1:
        for k in range(len(case['templates'])):
            yield dict(case, templates=case['templates'][:k] + case['templates'][k + 1:])
    if len(case['bands']) > 1:
        yield dict(case, bands=case['bands'][0])
    if case['pause']:
        yield dict(case, pause=False)
    if case['via'] == 'load':
        yield dict(case, via='ctor')
    if case['order'] != 'nested':
        yield dict(case, order='nested')
    for k, x in enumerate(case['templates']):
        for nz in (2, 3, 6):
            if x['nz'] > nz:
                yield dict(case, templates=case['templates'][:k] + [dict(x, nz=nz)]
                           + case['templates'][k + 1:])
