"""C16: GPUs on all or some ranks neither hang nor lose or alter targets."""
import os

import numpy as np

from .. import core, dengine as E, fakecupy, workloads as W, zengine as Z

ID = 'C16'
N = {'quick': 260, 'thorough': 20000}
RULE = ('seeded rrdesi --gpu run, serial or on 1 to 9 ranks, with a seeded number of devices and limit on GPU '
        'processes, on a simulated device (thread order of each kernel launch chosen by the scheduler), '
        'compared with a serial CPU run; some with a device failure or no device; non-trivial: '
        'kernels were run')
REAL = ['redrock.external.desi', 'redrock.targets', 'redrock.templates', 'redrock.zscan',
        'redrock.zfind', 'redrock.fitz', 'redrock.rebin', 'redrock.igm', 'redrock.archetypes',
        'redrock.utils', 'CUDA kernels of redrock.zscan and redrock.rebin (compiled for the CPU)']
STUB = ['cupy (arrays in a separate type on top of numpy)', 'GPU', 'MPI library', 'clock']
ASSUME = ['kernels are launched in stream order; they contain no __syncthreads or shared memory']


def gen(rng, i, tier):
    r = np.random.default_rng(rng.getrandbits(60))
    c = E.gen_case(r, nmax=7, arch=0.25, priors=0.15, model=0.3)
    for t in c['templates']:
        t['nz'] = min(t['nz'], 20)
    c['batch'] = int(r.choice([0, 1, 2]))
    x = r.random()
    if x < 0.12:
        c['layout'] = ['serial']
    elif x < 0.2:
        c['layout'] = ['mp', int(r.choice([2, 3]))]
    else:
        c['layout'] = ['mpi', int(r.choice([1, 2, 2, 3, 3, 4, 5, 6, 9]))]
    n = c['layout'][1] if c['layout'][0] == 'mpi' else 1
    c['gpus'] = int(r.choice([1, 1, 2, 3, 4]))
    c['limit'] = None if r.random() < 0.4 else int(r.integers(1, n + 2))
    c['proc'] = bool(r.random() < 0.5)
    c['free'] = 30 if r.random() < 0.7 else 2
    c['faults'] = Z.gen_benign(r, c['layout'])
    x = r.random()
    if x < 0.1:
        c['broken'] = dict(rank=int(r.integers(n)), frac=float(r.random()),
                           act=str(r.choice(['memory', 'raise'])))
    elif x < 0.14:
        c['missing'] = str(r.choice(['import', 'device']))
    if r.random() < 0.12:
        c['scan'] = True
    if i == 0:
        many(c)
    return c


def many(c):
    """More spectra than the capacity that used to keep targets from ranks without device."""
    f = c['files']
    f.update(n=2, kinds=['ok', 'ok'], status=['ok', 'ok'], coadd=False, mask=False, nomask=[],
             files=[dict(f['files'][0], rows=[0] * 10005 + [1], bands='b', src=None)])
    c['opts'] = dict(outs=['details'], allspec=True)
    c['templates'] = [dict(c['templates'][0], nz=6, nb=2)]
    c.update(layout=['mpi', 2], gpus=1, proc=True, limit=None, faults=[])
    for k in ('broken', 'missing', 'scan'):
        c.pop(k, None)


def gargs(case):
    a = ['--gpu']
    if case['limit'] is not None:
        a += ['--max-gpuprocs', str(case['limit'])]
    return a


def ngpu(case):
    """Ranks that use a device."""
    if case['layout'][0] != 'mpi':
        return 1
    n = case['layout'][1]
    k = case['limit']
    if k is None:
        k = case['gpus'] if case['proc'] else min(case['gpus'], n)
    return min(n, k)


def run(case, ctx):
    d = ctx.scratch()
    argv = E.prepare(case, d)
    if case.get('scan'):
        # from the redshift scan of an earlier run
        p = os.path.join(d, 'scan.h5')
        with W.quiet():
            E.desi_body(argv + ['--details', p])(None, 1)
        argv = argv + ['--chi2-scan', p]
    full = E.reference(dict(case, opts=dict(case['opts'], outs=sorted(
        {'details', *case['opts']['outs']}))), argv, ctx.scratch())
    flat = flat_targets(full['details']['h5'][1])
    ctx.probes['flat targets'] += len(flat)
    ref = {k: trim(full[k], flat) for k in case['opts']['outs']}
    what = describe(case)
    body, dirs = [], []
    for _ in range(2):
        dirs.append(ctx.scratch())
        oa, paths = E.outargs(case, dirs[-1])
        body.append((E.desi_body(argv + gargs(case) + oa), paths))
    ctx.sample = what
    gpu = dict(gpus=case['gpus'], free=case['free'] << 30, proc=case['proc'])
    if case.get('missing'):
        missing(ctx, case, what, body[0], dirs[0], gpu)
        return
    with fakecupy.installed(**gpu):
        o = Z.run_body(ctx, 'gpu', case['layout'], body[0][0], faults=case['faults'])
    kernels = sum(v for k, v in o.sim.stats.items() if k.startswith('gpu kernel'))
    ctx.nontrivial = kernels > 0
    ctx.probes['ranks without device'] += case['layout'][0] == 'mpi' and ngpu(case) < case['layout'][1]
    ctx.probes['more ranks than targets'] += ngpu(case) > case['files']['n']
    ctx.probes['low memory'] += case['free'] < 3
    if not o.ok:
        ctx.bad('run failed', f'{what}: {o.describe()}')
        return
    if o.left:
        ctx.bad('message left', f'{what}: {o.left[0]}')
        return
    if compare(ctx, what, body[0][1], ref, flat, 'GPU result differs'):
        ctx.note('ok')
    x = E.stray(dirs[0], body[0][1])
    if x:
        ctx.bad('stray file', f'{what}: {x}')
    b = case.get('broken')
    if b and not ctx.viol:
        broken(ctx, case, what, body[1], dirs[1], gpu, ref, flat, o)


def flat_targets(h):
    """Targets for which chi2 does not depend on the redshift beyond rounding somewhere.

    Which redshifts are minima is then decided by rounding, which differs between devices.
    """
    ids, bad = h['targetids'], set()
    for n in h:
        if n.startswith('zscan/') and n.endswith('/zchi2'):
            x = h[n] + h[n.replace('zchi2', 'penalty')]
            step = np.abs(np.diff(x.astype(float), axis=1))
            ok = (step > 1e-9 * np.abs(x[:, 1:]) + 1e-7).all(axis=1)
            bad.update(ids[~ok].tolist())
        if n == 'zbest/npixels':
            bad.update(h['zbest/targetid'][h[n] < 10].tolist())
        if n.startswith('zfit/') and n.endswith('/zzchi2') and len(h[n]):
            x = h[n].astype(float)
            if not (np.ptp(x, axis=1) > 1e-4 * np.abs(x).max(axis=1)).all() or (x < 1e-7).any():
                bad.add(int(n.split('/')[1]))
    # fits of several templates of a type that end at the same edge of the redshift range get the
    # same archetype: rounding decides which template is named
    edges = [z for n in h if n.startswith('zscan/') and n.endswith('/redshifts')
             for z in (h[n][0], h[n][-1])]
    for n in h:
        if n.endswith('/zfit/pca_coeff'):
            for z in np.ravel(h[n.replace('pca_coeff', 'zz')][:, [0, -1]]):
                if sum(abs(z - e) < 1e-6 for e in edges) > 1:
                    bad.add(int(n.split('/')[1]))
    return bad


def trim(out, flat):
    """Contents of an output file without the fits of these targets."""
    new, rows = {}, None
    for k, (hd, cols) in out.items():
        cols = dict(cols or {}) if cols is not None else None
        if k == 'h5':
            m = ~np.isin(cols['targetids'], list(flat))
            enough = cols['zbest/npixels'] >= 10    # otherwise the matrices may be singular
            for n in list(cols):
                if n.startswith('zfit/') and int(n.split('/')[1]) in flat:
                    del cols[n]
                elif n.endswith('/zchi2'):
                    x = cols[n][enough]
                    cols[n] = np.where(np.abs(x) < 1e-9, 0, x)
                elif n.endswith('/zcoeff'):
                    cols[n] = cols[n][enough]
            for n in cols:
                if n.startswith('zbest/') and n != 'zbest/targetid':
                    cols[n] = cols[n][m]
        elif k.endswith(':REDSHIFTS'):
            rows = ~np.isin(cols['TARGETID'], list(flat))
            for n in cols:
                if n != 'TARGETID':
                    cols[n] = cols[n][rows]
        elif k.endswith('_MODEL'):
            cols['DATA'] = cols['DATA'][rows]
        new[k] = (hd, cols)
    return new


def compare(ctx, what, paths, ref, flat, kind):
    ok = True
    for k, p in paths.items():
        got = E.try_load(p)
        d = 'missing' if got is None else got if isinstance(got, str) else \
            E.diff(trim(got, flat), ref[k])
        if d:
            ctx.bad(kind, f'{what}: {k}: {d}')
            ok = False
    return ok


def broken(ctx, case, what, body, d, gpu, ref, flat, o):
    """A device operation of one rank fails: the job ends, without misleading outputs."""
    who = [(p.name, p.ops.get('gpu', 0)) for p in o.sim.procs if p.ops.get('gpu', 0)]
    name, cnt = who[case['broken']['rank'] % len(who)]
    f = dict(proc=name, op='gpu', n=1 + int(case['broken']['frac'] * cnt), act=case['broken']['act'])
    with fakecupy.installed(**gpu):
        o = Z.run_body(ctx, 'broken', case['layout'], body[0], faults=[f])
    if not o.sim.injector.fired:
        return
    what = f'{what}, {f["act"]} at device operation {f["n"]} of {cnt} of {name}'
    ctx.probes['device failures'] += 1
    if o.hang:
        ctx.bad('hang after device failure', f'{what}: {o.describe()}')
    elif o.ok:
        # the operation may have been repeated or done elsewhere
        compare(ctx, what, body[1], ref, flat, 'misleading output')
    else:
        for k, p in body[1].items():
            if os.path.exists(p):
                ctx.bad('misleading output', f'{what}: {k} was written although the run failed')


def missing(ctx, case, what, body, d, gpu):
    """No cupy or no device: the run is refused."""
    what += f', without {case["missing"]}'
    if case['missing'] == 'import':
        o = Z.run_body(ctx, 'gpu', case['layout'], body[0])
    else:
        with fakecupy.installed(available=False, **gpu):
            o = Z.run_body(ctx, 'gpu', case['layout'], body[0])
    ctx.nontrivial = True
    ctx.probes['no device'] += 1
    if o.hang:
        ctx.bad('hang without device', f'{what}: {o.describe()}')
    elif not o.status:
        ctx.bad('no device, no error', f'{what}: the run ended successfully')
    elif os.listdir(d):
        ctx.bad('misleading output', f'{what}: {os.listdir(d)} written')


def describe(case):
    return (f'layout={case["layout"]} devices={case["gpus"]} limit={case["limit"]} '
            f'proc={case["proc"]} free={case["free"]}G scan={case.get("scan")} ' + E.describe(case))


def shrink(case):
    yield from Z.drop_faults(case)
    if case.get('broken'):
        yield {k: v for k, v in case.items() if k != 'broken'}
    if case.get('scan'):
        yield {k: v for k, v in case.items() if k != 'scan'}
    L = case['layout']
    if L[0] == 'mpi':
        yield dict(case, layout=['serial'])
        for n in (2, L[1] - 1):
            if 0 < n < L[1]:
                yield dict(case, layout=['mpi', n])
    if case['limit'] is not None:
        yield dict(case, limit=None)
        if case['limit'] > 1:
            yield dict(case, limit=1)
    if case['gpus'] > 1:
        yield dict(case, gpus=1)
    if case['free'] < 3:
        yield dict(case, free=30)
    yield from E.shrink(case)
    for k, x in enumerate(case['templates']):
        for key, v in (('nb', 1), ('nz', 6), ('m', 'PCA')):
            if x[key] != v:
                yield dict(case, templates=case['templates'][:k] + [dict(x, **{key: v})]
                           + case['templates'][k + 1:])
