"""C15: a target's result does not depend on the other targets in the run."""
import copy
import os

import numpy as np

from .. import dengine as E, desifiles as D, workloads as W, zengine as Z
from . import c01

ID = 'C15'
N = {'quick': 420, 'thorough': 20000}
RULE = ('seeded targets; each alone serially, then seeded selections of them together, in seeded '
        'order and with other identifiers, in seeded layouts and schedules with stalls; '
        'non-trivial: a run of two or more targets')
REAL = ['redrock.targets', 'redrock.templates', 'redrock.zscan', 'redrock.zfind', 'redrock.fitz',
        'redrock.archetypes', 'redrock.priors', 'redrock.external.desi']
STUB = ['MPI library', 'multiprocessing process/queue/pipe transport', 'clock',
        'file system calls (real files below a scratch directory)']


def gen(rng, i, tier):
    r = np.random.default_rng(rng.getrandbits(60))
    if r.random() < 0.2:
        c = dict(kind='desi', batch=int(r.choice([0, 1, 2])))
        c.update(E.gen_case(r, nmax=5, select=0, priors=0.2))
        c['opts']['outs'] = ['details', 'outfile']
        c['layouts'] = [Z.gen_layout(r, c['files']['n'])]
        c['pick'] = [int(x) for x in r.permutation(c['files']['n'])[:2]]
        c['faults'] = [Z.gen_benign(r, c['layouts'][0])]
        return c
    c = dict(kind='zfind', targets=W.gen_targets(r, 8 if r.random() > 0.03 else (20, 60)), templates=W.gen_templates(r),
             opts=Z.gen_opts(r), batch=int(r.choice([0, 1, 2, 3])))
    t = c['targets']
    if c['opts'].get('priors') and t['ids'] == 'str':
        t['ids'] = 'rand'
    if r.random() < 0.5:                 # more targets without data than usual
        for k in r.permutation(t['n'])[:max(1, t['n'] // 2)]:
            t['kinds'][int(k)] = str(r.choice(['zero', 'zero', 'few', 'noise']))
    c['runs'] = []
    for _ in range(3):
        n = t['n']
        k = n if r.random() < 0.4 else int(r.integers(1, n + 1))
        sub = [int(x) for x in r.permutation(n)[:k]]
        ids = t['ids'] if r.random() < 0.3 else \
            str(r.choice(['rand', 'seq', 'rev', 'big', 'neg'] +
                         ([] if c['opts'].get('priors') else ['str'])))
        lay = Z.gen_layout(r, k)
        c['runs'].append(dict(sub=sub, ids=ids, idkey=int(r.integers(1, 10**6)), layout=lay,
                              faults=Z.gen_benign(r, lay, 0.3)))
    return c


def run(case, ctx):
    (run_desi if case['kind'] == 'desi' else run_zfind)(case, ctx)


def run_zfind(case, ctx):
    from redrock.zwarning import ZWarningMask as ZW
    d = ctx.scratch()
    kw = Z.prepare(case, d)
    spec = case['targets']
    ids, scan, rows = Z.reference(case, kw)
    templates = W.make_templates(case['templates'])
    for i in range(spec['n']):
        if spec['kinds'][i] == 'zero':
            ctx.probes['target without data'] += 1
            if not np.all(rows[ids[i]]['zwarn'] & ZW.NODATA):
                ctx.bad('no warning', f'target without valid data has zwarn '
                                      f'{rows[ids[i]]["zwarn"].tolist()}')
    for ri, x in enumerate(case['runs']):
        new = W.ids_for(x['ids'], spec['n'], x['idkey'])
        k2 = dict(kw)
        if kw.get('priors'):
            # the same priors under the new identifiers
            p = os.path.join(d, f'priors{ri}.fits')
            o = case['opts']
            n = len(new) - (1 if o['pkey'] % 3 == 0 and len(new) > 1 else 0)
            func = o['priors']
            if func == 'tophat' and not any(W.TYPES[t['t']][0] == 'GALAXY'
                                            for t in case['templates']):
                func = 'gaussian'
            W.write_priors(p, new[:n], o['pkey'], func)
            k2['priors'] = p

        def targets():
            t = W.make_targets(spec)
            out = []
            for i in x['sub']:
                t[i].id = new[i]
                out.append(t[i])
            return out

        def body(comm, mp):
            tg = targets() if comm is None or comm.rank == 0 else []
            return Z.fit(tg, copy.deepcopy(templates), comm, mp, k2)
        o = Z.run_body(ctx, f'r{ri}', x['layout'], body, faults=x['faults'])
        exp_scan, exp_rows = {}, {}
        for i in x['sub']:
            exp_scan[new[i]] = scan[ids[i]]
            q = {k: np.array(v) for k, v in rows[ids[i]].items()}
            q['targetid'] = np.array([new[i]] * len(q['targetid']))
            exp_rows[new[i]] = q
        Z.check_result(ctx, o, f'targets {x["sub"]} together in layout {x["layout"]}',
                       [new[i] for i in x['sub']], exp_scan, exp_rows)
        ctx.nontrivial |= len(x['sub']) > 1
    ctx.sample = f'{spec["n"]} targets {spec["kinds"]} runs=' + \
        str([(x['sub'], x['ids'], x['layout']) for x in case['runs']]) + f' opts={case["opts"]}'


def run_desi(case, ctx):
    d, d0, od = ctx.scratch(), ctx.scratch(), ctx.scratch()
    argv = E.prepare(case, d)
    tid = D.ids(case['files'])
    oa, paths = E.outargs(case, od)
    o = Z.run_body(ctx, 'all', case['layouts'][0], E.desi_body(argv + oa),
                   faults=case['faults'][0])
    what = f'{E.describe(case)} in layout {case["layouts"][0]}'
    ctx.sample = what
    ctx.nontrivial = case['files']['n'] > 1
    if not o.ok:
        ctx.bad('run failed', f'{what}: {o.describe()}')
        return
    full = E.load(paths['details'])['h5'][1]
    for i in case['pick']:
        one = dict(case, opts=dict(case['opts'], targetids=[i]))
        p = os.path.join(d0, str(i))
        os.makedirs(p)
        ref = E.reference(one, E.prepare(one, d), p)['details']['h5'][1]
        k = np.flatnonzero(full['targetids'] == tid[i])
        if len(k) != 1:
            ctx.bad('target missing', f'{what}: target {tid[i]} has {len(k)} rows')
            return
        k = int(k[0])
        for x in ref:
            if x.startswith('zscan/') and not x.endswith('redshifts'):
                a, b = full[x][k], ref[x][0]
            elif x.startswith(f'zfit/{tid[i]}/'):
                a, b = full[x], ref[x]
                if 'coeff' in x and a.shape != b.shape:
                    # tables are padded to the widest target
                    a, b = Z.pad(a, b)
            else:
                continue
            df = E.diff_array(x, a, b)
            if df:
                ctx.bad('differs from target alone', f'{what}: target {tid[i]}: {df}')
                return
        ctx.probes['file targets compared'] += 1


def shrink(case):
    if case['kind'] == 'desi':
        yield from Z.drop_faults(case)
        yield from c01.shrink_layouts(case)
        if len(case['pick']) > 1:
            for x in case['pick']:
                yield dict(case, pick=[x])
        for c in E.shrink(case):
            n = c['files']['n']
            yield dict(c, pick=[x for x in case['pick'] if x < n] or [0])
        return
    R = case['runs']
    if len(R) > 1:
        for x in R:
            yield dict(case, runs=[x])
        return
    x = R[0]
    for f in Z.drop_faults(x):
        yield dict(case, runs=[f])
    if len(x['layout']) > 1 and x['layout'][1] > 2:
        for n in (2, x['layout'][1] // 2, x['layout'][1] - 1):
            if 1 < n < x['layout'][1]:
                yield dict(case, runs=[dict(x, layout=[x['layout'][0], n])])
    if x['layout'][0] != 'serial':
        yield dict(case, runs=[dict(x, layout=['serial'])])
    if len(x['sub']) > 1:
        for k in range(len(x['sub'])):
            yield dict(case, runs=[dict(x, sub=x['sub'][:k] + x['sub'][k + 1:])])
    if x['ids'] != 'seq':
        yield dict(case, runs=[dict(x, ids='seq')])
    for c in c01.shrink_workload(case):
        n = c['targets']['n']
        yield dict(c, runs=[dict(x, sub=[i for i in x['sub'] if i < n] or [0])])
