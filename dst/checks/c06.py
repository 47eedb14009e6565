"""C06: output files are replaced atomically."""
import os

import numpy as np

from .. import dengine as E, workloads as W, writers as V, zengine as Z

ID = 'C06'
N = {'quick': 350, 'thorough': 40000}
POINTS = 8
RULE = ('one writer (DESI catalog, BOSS catalog, models, details) with seeded contents replaces an '
        'earlier file or creates one; run without faults to count its operations, then several '
        'times with a seeded fault (killed at an operation, call or scheduler step, I/O error, full '
        'disk, short write), each followed by a run without faults over what is left; non-trivial: '
        'a fault took place')
REAL = ['redrock.results.write_zscan', 'redrock.external.desi.write_zbest',
        'redrock.external.desi.write_bestmodel', 'redrock.external.boss.write_zbest', 'astropy.io.fits',
        'h5py / HDF5']
STUB = ['file system calls (real files below a scratch directory)', 'clock', 'process id']
ASSUME = ['a crash is the death of the process: what it has written survives']
ERRS = ['ENOSPC', 'EIO', 'EDQUOT', 'EACCES']


def gen(rng, i, tier):
    r = np.random.default_rng(rng.getrandbits(60))
    a = V.gen(r)
    c = dict(new=a, old=V.gen(r, a['kind']) if r.random() < 0.75 else None,
             left=str(r.choice(['none', 'none', 'garbage', 'other'])),
             dir=str(r.choice(['there', 'there', 'missing', 'env', 'cwd'])))
    if c['dir'] == 'missing' and a['kind'] != 'zbest':
        c['old'], c['left'] = None, 'none'
    elif c['dir'] == 'missing':
        c['dir'] = 'there'
    c['clobber'] = bool(a['kind'] == 'details' and r.random() < 0.7)
    c['points'] = [gen_point(r) for _ in range(POINTS)]
    return c


def gen_point(r):
    act = str(r.choice(['kill', 'kill', 'kill', 'errno', 'errno', 'sticky', 'short', 'call', 'step']))
    p = dict(act=act, frac=float(r.random()), err=str(r.choice(ERRS)))
    if r.random() < 0.3:
        p['frac'] = 1 - 0.15 * p['frac']        # around the final rename
    return p


OPS = ('fs:create', 'fs:write', 'fs:truncate', 'fs:close', 'fs:rename', 'fs:remove', 'fs:mkdir', 'fs:fsync',
       'fs:chmod')


def resolve(pt, o):
    """Fault at a fraction of the changing operations of the fault-free run."""
    inj = o.sim.injector
    fs = [m[0] for m in inj.marks.get('main', ())]
    if pt['act'] == 'call':
        return dict(proc='main', op='call', n=1 + int(pt['frac'] * max(1, inj.calls.get('main', 1))), act='kill')
    if pt['act'] == 'step':
        return dict(proc='main', op='step', n=1 + int(pt['frac'] * o.sim.steps), act='kill')
    idx = [k for k, x in enumerate(fs) if x in OPS or (x == 'h5' and pt['act'] == 'kill')]
    if pt['act'] == 'short':
        idx = [k for k, x in enumerate(fs) if x == 'fs:write']
    if not idx:
        return None
    k = idx[min(len(idx) - 1, int(pt['frac'] * len(idx)))]
    act = {'kill': 'kill', 'short': 'short'}.get(pt['act'], f'{pt["act"]}:{pt["err"]}')
    return dict(proc='main', op=fs[k], n=fs[:k + 1].count(fs[k]), act=act)


def run(case, ctx):
    new = V.Version(case['new'])
    old = V.Version(case['old']) if case['old'] else None
    kind = case['new']['kind']
    base = ctx.scratch()
    what0 = f'{kind} n={case["new"]["n"]} old={"n=%d" % case["old"]["n"] if old else None} ' \
            f'clobber={case["clobber"]} dir={case["dir"]} left={case["left"]}'
    ctx.sample = what0

    def place(k):
        d = os.path.join(base, f'p{k}')
        os.makedirs(d)
        sub = os.path.join(d, 'a', 'b') if case['dir'] == 'missing' else d
        path = os.path.join(sub, 'out' + V.EXT[kind])
        if old:
            old.write(path)
        if case['left'] != 'none':
            # what an earlier interrupted run may have left
            for suffix in ('.tmp', ):
                if case['left'] == 'garbage':
                    with open(path + suffix, 'wb') as f:
                        f.write(b'\0garbage' * 50)
                else:
                    v = V.Version(dict(case['new'], key=case['new']['key'] + 1))
                    v.write(os.path.join(d, 'x' + V.EXT[kind]))
                    os.rename(os.path.join(d, 'x' + V.EXT[kind]), path + suffix)
        arg = path
        if case['dir'] == 'env':
            os.environ['DST_OUT'] = d
            arg = '$DST_OUT/' + os.path.basename(path)
        return d, path, arg

    def go(name, arg, **kw):
        def body(comm, mp):
            new.write(arg, **({'clobber': case['clobber']} if kind == 'details' else {}))
        cwd = os.getcwd()
        try:
            if case['dir'] == 'cwd':
                os.chdir(os.path.dirname(arg))
                arg = os.path.basename(arg)
            return Z.run_body(ctx, name, ['serial'], body, **kw)
        finally:
            os.chdir(cwd)
    vs = [new] + ([old] if old else [])
    d, path, arg = place(0)
    o = go('pilot', arg, count_calls=True)
    if not o.ok:
        ctx.bad('write failed', f'{what0}: no fault: {o.describe()}')
        return
    got = V.identify(path, vs)
    if got != 0:
        ctx.bad('wrong content', f'{what0}: no fault: {got if got != 1 else "the old file"}')
        return
    for k, pt in enumerate(case['points']):
        f = resolve(pt, o)
        if f is None:
            continue
        d, path, arg = place(k + 1)
        q = go(f'f{k}', arg, faults=[f])
        fired = q.sim.injector.fired
        w = f'{what0}: {f["act"]} at {f["op"]} {f["n"]}'
        ctx.nontrivial |= bool(fired)
        if q.hang:
            ctx.bad('hang', f'{w}: {q.describe()}')
            return
        if not q.ok and (f['act'] == 'short' or not fired):
            ctx.bad('write failed', f'{w}: {q.describe()}')
            return
        got = V.identify(path, vs)
        if q.ok and got != 0:
            ctx.bad('lost write', f'{w}: no error reported, final name: '
                                  f'{got if got != 1 else "the old file"}')
            return
        if got == 'absent' and (not old or case['clobber']):
            ctx.probes['final name absent'] += 1
        elif got == 1:
            ctx.probes['old file kept'] += 1
        elif got == 0:
            ctx.probes['new file complete'] += 1
        else:
            ctx.bad('damaged file', f'{w}: {got}')
            return
        ctx.note((k, str(got)))
        q = go(f'a{k}', arg)
        if not q.ok:
            ctx.bad('write after failure', f'{w}, then again: {q.describe()}')
            return
        got = V.identify(path, vs)
        if got != 0:
            ctx.bad('write after failure', f'{w}, then again: {got if got != 1 else "the old file"}')
            return


def shrink(case):
    P = case['points']
    for k in range(len(P)):
        if len(P) > 1:
            yield dict(case, points=[P[k]])
    if case['left'] != 'none':
        yield dict(case, left='none')
    if case['dir'] != 'there':
        yield dict(case, dir='there')
    if case['old']:
        yield dict(case, old=None)
        if case['old']['n'] > 1:
            yield dict(case, old=dict(case['old'], n=1))
    if case['new']['n'] > 1:
        yield dict(case, new=dict(case['new'], n=1))
        yield dict(case, new=dict(case['new'], n=2))
    for k, v in (('arch', False), ('leg', 0), ('bands', 'b'), ('prio', False)):
        if case['new'][k] != v:
            yield dict(case, new=dict(case['new'], **{k: v}))
