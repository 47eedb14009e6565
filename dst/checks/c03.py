"""C03: an MPI run always finishes; matching collectives, no message left over."""
import copy
import os

import numpy as np

from .. import dengine as E, desifiles as D, workloads as W, zengine as Z
from . import c01

ID = 'C03'
N = {'quick': 420, 'thorough': 20000}
RULE = ('seeded input files, options and rank count; rrdesi, rrboss or zfind under a seeded '
        'schedule that also decides for every send whether it is buffered or waits for its '
        'receiver, how long each message travels and which ranks stall; non-trivial: two or more '
        'ranks')
REAL = ['redrock.external.desi', 'redrock.external.boss', 'redrock.targets', 'redrock.templates',
        'redrock.zscan', 'redrock.zfind', 'redrock.results', 'redrock.utils', 'redrock.archetypes']
STUB = ['MPI library', 'clock', 'file system calls (real files below a scratch directory)']


def gen_ranks(r, ntargets, templates):
    x = r.random()
    if x < 0.55:
        return int(r.choice([2, 2, 3, 3, 4, 5, 6, 7]))
    if x < 0.75:
        return int(ntargets + r.integers(0, 4))
    if x < 0.85:
        return int(min(t['nz'] for t in templates) + r.integers(0, 3))
    return int(r.integers(1, 14))


def gen(rng, i, tier):
    r = np.random.default_rng(rng.getrandbits(60))
    kind = str(r.choice(['desi', 'desi', 'desi', 'boss', 'zfind', 'zfind']))
    c = dict(kind=kind, batch=int(r.choice([0, 1, 1, 2, 3, 4])))
    if kind == 'desi':
        c.update(E.gen_case(r, nmax=6))
        for t in c['templates']:
            t['nz'] = min(t['nz'], int(r.choice([4, 6, 9, 13])))
        c['scan'] = bool(r.random() < 0.2 and not c['opts'].get('priors'))
        n = c['files']['n']
    elif kind == 'boss':
        c.update(boss=D.gen_boss(r), templates=W.gen_templates(r, nzmax=13),
                 opts=E.gen_boss_opts(r))
        n = c['boss']['n']
    else:
        c.update(targets=W.gen_targets(r, 9), templates=W.gen_templates(r, nzmax=13),
                 opts=Z.gen_opts(r))
        if c['opts'].get('priors') and c['targets']['ids'] == 'str':
            c['targets']['ids'] = 'rand'
        n = c['targets']['n']
    c['ranks'] = max(1, gen_ranks(r, n, c['templates']))
    c['faults'] = Z.gen_benign(r, ['mpi', c['ranks']])
    return c


def run(case, ctx):
    d = ctx.scratch()
    od = ctx.scratch()
    n = case['ranks']
    if case['kind'] == 'desi':
        argv = E.prepare(case, d)
        if case.get('scan'):
            p = os.path.join(d, 'scan.h5')
            with W.quiet():
                E.desi_body(argv + ['--details', p])(None, 1)
            argv += ['--chi2-scan', p]
        oa, paths = E.outargs(case, od)
        body = E.desi_body(argv + oa)
        what = E.describe(case)
    elif case['kind'] == 'boss':
        argv = E.boss_prepare(case, d)
        oa, paths = E.boss_outargs(case, od)
        body = E.boss_body(argv + oa)
        what = f'{case["boss"]} {case["opts"]}'
    else:
        kw = Z.prepare(case, d)
        templates = W.make_templates(case['templates'])
        paths = {}

        def body(comm, mp):
            tg = W.make_targets(case['targets']) if comm.rank == 0 else []
            return Z.fit(tg, copy.deepcopy(templates), comm, mp, kw)
        what = f'{case["targets"]["n"]} targets {case["opts"]}'
    o = Z.run_body(ctx, 'run', ['mpi', n], body, faults=case['faults'])
    what = f'{case["kind"]} on {n} ranks ({what})'
    ctx.sample = what
    ctx.nontrivial = n > 1
    ctx.probes[case['kind']] += 1
    if o.hang:
        ctx.bad('hang', f'{what}: {o.describe()}')
    elif o.bad:
        ctx.bad('mismatched collective', f'{what}: {o.bad}')
    elif not o.ok:
        ctx.bad('run failed', f'{what}: {o.describe()}')
    elif o.left:
        ctx.bad('message left', f'{what}: {o.left[0]}')
    elif any(o.exitcodes):
        ctx.bad('run failed', f'{what}: exit codes {o.exitcodes}')
    else:
        for k, p in paths.items():
            if not os.path.exists(p):
                ctx.bad('no output', f'{what}: {k} was not written')
        ctx.probes['ranks > redshifts'] += any(n > t['nz'] for t in case['templates'])


def shrink(case):
    yield from Z.drop_faults(case)
    for n in (1, 2, 3, case['ranks'] // 2, case['ranks'] - 1):
        if 0 < n < case['ranks']:
            yield dict(case, ranks=n)
    if case['kind'] == 'desi':
        if case.get('scan'):
            yield dict(case, scan=False)
        yield from E.shrink(case)
    elif case['kind'] == 'zfind':
        yield from c01.shrink_workload(case)
    else:
        for k in list(case['opts']):
            if k != 'outs':
                yield dict(case, opts={a: b for a, b in case['opts'].items() if a != k})
        if len(case['opts']['outs']) > 1:
            for k in case['opts']['outs']:
                yield dict(case, opts=dict(case['opts'], outs=[k]))
        if len(case['templates']) > 1:
            for k in range(len(case['templates'])):
                yield dict(case, templates=case['templates'][:k] + case['templates'][k + 1:])
        for n in (1, 2, case['boss']['n'] - 1):
            if 0 < n < case['boss']['n']:
                yield dict(case, boss=dict(case['boss'], n=n))
    if case.get('batch'):
        yield dict(case, batch=0)
