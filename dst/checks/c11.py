"""C11: the production driver processes every pending file exactly once and can resume."""
import os

import numpy as np

from .. import dengine as E, wengine as X, workloads as W

ID = 'C11'
N = {'quick': 700, 'thorough': 60000}
RULE = ('seeded tree of spectra files, some with outputs already, and a seeded history of wrap-redrock '
        'runs (with or without MPI, commands that fail, ranks or the whole job killed, dry runs, new '
        'files between runs), then a run without faults and one with nothing left to do; non-trivial: '
        'at least one file was pending')
REAL = ['bin/wrap-redrock', 'in 6% of the cases redrock.external.desi and boss as the commands']
STUB = ['MPI library and launcher', 'clock', 'rrdesi and rrboss otherwise',
        'file system calls (real files below a scratch directory)']
ASSUME = ['base names of spectra files are unique and their directories have numeric names']


def setup():
    X.module()


def gen(rng, i, tier):
    r = np.random.default_rng(rng.getrandbits(60))
    t = X.gen_tree(r, 9 if r.random() < 0.1 else 6)
    c = dict(tree=t, runs=[])
    real = r.random() < 0.06
    if real:
        t['files'] = t['files'][:3]
        X.gen_real(r, t)
    n = int(r.choice([0, 1, 1, 2, 3]))
    for k in range(n):
        c['runs'].append(gen_run(r, t, k))
    for f in t['files'][1:]:
        if r.random() < 0.12:
            f['late'] = int(r.integers(1, n + 2))      # n + 1: after the first complete run
    c['runs'].append(dict(gen_run(r, t, n), plan={}, faults=[], final=True))
    if any(f['late'] == n + 1 for f in t['files']):
        c['runs'].append(dict(gen_run(r, t, n + 1), plan={}, faults=[], final=True))
    c['runs'].append(dict(gen_run(r, t, n + 2), plan={}, faults=[], final=True))
    if real:
        for s in c['runs']:
            s['opts'].pop('--archetypes', None)
    return c


def gen_run(r, t, k):
    s = dict(ranks=int(r.choice([0, 1, 2, 3, 4, 6, 9], p=[.2, .1, .2, .2, .1, .1, .1])), opts={}, plan={},
             faults=[])
    if r.random() < 0.2:
        s['opts']['--mp'] = int(r.integers(1, 9))
    if r.random() < 0.2:
        s['opts']['--nminima'] = int(r.integers(1, 6))
    if r.random() < 0.1:
        s['opts']['--archetypes'] = '/none/arch'
    if r.random() < 0.25:
        s['opts']['--maxnodes'] = int(r.choice([1, 2, 5, 300]))
    s['ages'] = int(r.integers(1, 10**6)) if r.random() < 0.5 else 0
    p = float(r.choice([0, 0.2, 0.5]))
    for f in t['files']:
        for a in range(2):
            if r.random() < p:
                s['plan'][f'{f["i"]}.{a}'] = str(r.choice(X.OUTCOMES))
    if r.random() < 0.45:
        for _ in range(int(r.choice([1, 1, 2]))):
            s['faults'].append(dict(
                act=str(r.choice(['kill', 'kill', 'all', 'raise', 'memory', 'scan', 'stall'])),
                sel=float(r.random()), frac=float(r.random()), op=str(r.choice(['*', 'mpi', 'exec', 'fs:']))))
    elif r.random() < 0.1:
        s['opts']['--dryrun' if r.random() < 0.7 else '--plan'] = True
        if '--plan' in s['opts'] and t['kind'] == 'boss':
            s['opts'].pop('--mp', None)
    return s


def resolve(spec, o):
    """Concrete faults for a run like o."""
    inj, out = o.sim.injector, []
    names = [p.name for p in o.procs]
    for f in spec['faults']:
        p = names[int(f['sel'] * len(names))]
        act = f['act']
        if act == 'all':
            out.append(dict(proc='*', op='step', n=1 + int(f['frac'] * o.sim.steps), act='kill', all=True))
        elif act in ('raise', 'memory'):
            # not before the program has got its communicator
            n = inj.calls.get(p, 0)
            if n > 2:
                out.append(dict(proc=p, op='call', n=3 + int(f['frac'] * (n - 2)), act=act))
        else:
            op = 'fs:list' if act == 'scan' else f['op']
            n = sum(v for (q, c), v in inj.counts.items() if q == p and (op == '*' or c.startswith(op)))
            if n:
                out.append(dict(proc=p, op=op, n=1 + int(f['frac'] * n),
                                act='errno:EIO' if act == 'scan' else act, dt=3e4))
    return out


def history(case, ctx, judge, real=None, resolve=resolve):
    """Play the runs of a case; judge(R, k, spec) after each."""
    tree = case['tree']
    d = ctx.scratch()
    fs = X.build(tree, d)
    for k, spec in enumerate(case['runs']):
        for f in fs:
            if f.spec['late'] and f.spec['late'] == k:
                X.place(tree, f)
        if spec.get('ages'):
            X.set_ages(fs, spec['ages'])
            ctx.probes['runs with jumbled modification times'] += 1
        faults = []
        if spec['faults']:
            # the same run without faults, on a copy, to count its operations
            d2 = ctx.scratch()
            copytree(d, d2)
            o = X.run_driver(ctx, f'pilot{k}', tree, d2, X.paths(tree, d2), spec, k)
            faults = resolve(spec, o.o)
        R = X.run_driver(ctx, f'run{k}', tree, d, fs, spec, k, faults=faults, real=real)
        R.k, R.spec, R.fs, R.d, R.tree = k, spec, fs, d, tree
        ctx.probes['runs'] += 1
        ctx.probes['pending files'] += len(R.pending)
        ctx.probes['runs with faults'] += bool(R.fired)
        ctx.probes['runs with failed commands'] += any(not x['ok'] for x in R.cmd.launches)
        ctx.probes['runs with nothing to do'] += not R.pending
        ctx.nontrivial |= bool(R.pending)
        judge(R)
        if ctx.viol:
            return


def copytree(a, b):
    import shutil
    shutil.copytree(a, b, dirs_exist_ok=True, symlinks=True)
    p = os.path.join(b, 'redux', 'a1')
    if os.path.islink(p):
        os.remove(p)
        os.symlink(os.path.join(b, 'elsewhere'), p)


def run(case, ctx):
    ctx.sample = f'{case["tree"]["kind"]} {len(case["tree"]["files"])} files, ' + \
        ', '.join(f'{s["ranks"]} ranks {s["plan"]} {len(s["faults"])} faults' for s in case['runs'])
    tree = case['tree']
    if not tree.get('templates'):
        return history(case, ctx, lambda R: judge(R, ctx))
    ctx.probes['cases with the real commands'] += 1
    os.environ['RR_TEMPLATE_DIR'] = W.write_template_dir(os.path.join(ctx.scratch(), 'tpl'), tree['templates'])
    try:
        history(case, ctx, lambda R: judge(R, ctx), real=X.real_commands)
    finally:
        del os.environ['RR_TEMPLATE_DIR']


def judge(R, ctx):
    o, w = R.o, R.what
    if o.hang:
        return ctx.bad('hang', f'{w}: {o.describe()}')
    if o.bad:
        return ctx.bad('mismatch', f'{w}: {o.describe()}')
    for b in R.cmd.bad:
        return ctx.bad('wrong command', f'{w}: {b}')
    pend = {f.i for f in R.pending}
    for i, ls in R.launched.items():
        if i not in pend:
            return ctx.bad('not pending', f'{w}: file {i}, which has both outputs, was processed')
        if len({x['proc'] for x in ls}) > 1:
            return ctx.bad('several ranks', f'{w}: file {i} processed by {sorted({x["proc"] for x in ls})}')
    dry = '--dryrun' in R.spec['opts'] or '--plan' in R.spec['opts']
    if dry and (R.launched or R.before != R.after):
        return ctx.bad('dry run', f'{w}: {sorted(R.launched)} launched, {changed(R)} changed')
    ok = allowed(R)
    for p in changed(R):
        if not any(p == q or p.startswith(q + '.') for q in ok):
            return ctx.bad('other file changed', f'{w}: {os.path.relpath(p, R.d)}')
    if R.fired and not all(f['act'] == 'stall' for f in R.fired):
        return
    if not X.clean(o):
        return ctx.bad('run failed', f'{w}: {o.describe()} exit codes {o.exitcodes}: {o.out[-600:]}')
    if dry:
        return
    if set(R.launched) != pend:
        return ctx.bad('not processed', f'{w}: files {sorted(pend - set(R.launched))} were not processed')
    if R.spec.get('final'):
        if R.left:
            return ctx.bad('not complete', f'{w}: files {[f.i for f in R.left]} still lack outputs')
        for i, ls in R.launched.items():
            f = next(f for f in R.fs if f.i == i)
            if f.spec.get('real'):
                ref = X.real_reference(R.tree, f, ctx.scratch(), R.spec['opts'])
                for p, x in zip((f.zb, f.det), ref):
                    df = E.diff(E.load(p), x)
                    if df:
                        return ctx.bad('wrong output', f'{w}: {os.path.basename(p)}: {df}')
                continue
            for p in (f.zb, f.det):
                if R.after[os.path.realpath(p)].decode() != ls[-1]['token']:
                    return ctx.bad('not complete', f'{w}: {os.path.basename(p)} is not from this run')


def changed(R):
    return sorted(p for p in set(R.before) | set(R.after) if R.before.get(p) != R.after.get(p))


def allowed(R):
    """Files that may change: outputs and logs of the pending ones."""
    return [os.path.realpath(p) for f in R.pending for p in (f.zb, f.det, f.log)]


def shrink(case):
    t = case['tree']
    for k in range(len(case['runs'])):
        if len(case['runs']) > 1:
            yield dict(case, runs=case['runs'][:k] + case['runs'][k + 1:])
    for k in range(len(t['files'])):
        if len(t['files']) > 1:
            yield dict(case, tree=dict(t, files=[f for f in t['files'][:k] + t['files'][k + 1:]]))
    for k, s in enumerate(case['runs']):
        def sub(**kw):
            return dict(case, runs=case['runs'][:k] + [dict(s, **kw)] + case['runs'][k + 1:])
        for j in range(len(s['faults'])):
            yield sub(faults=s['faults'][:j] + s['faults'][j + 1:])
        for a in s['plan']:
            yield sub(plan={b: v for b, v in s['plan'].items() if b != a})
        for a in s['opts']:
            yield sub(opts={b: v for b, v in s['opts'].items() if b != a})
        if s.get('ages'):
            yield sub(ages=0)
        if s['ranks'] > 1:
            yield sub(ranks=s['ranks'] - 1)
    for k, f in enumerate(t['files']):
        def fsub(**kw):
            g = {a: b for a, b in f.items() if a != 'twin'}
            return dict(case, tree=dict(t, files=t['files'][:k] + [dict(g, **kw)] + t['files'][k + 1:]))
        if f['logs']:
            yield fsub(logs=[])
        if f['depth']:
            yield fsub(depth=0)
        if f['have'] != 'none':
            yield fsub(have='none')
        if f['late']:
            yield fsub(late=0)
        if f['nt'] > 1:
            yield fsub(nt=1)
    for a, v in (('outdir', False), ('link', False), ('prefix', None), ('newdir', False)):
        if t[a]:
            yield dict(case, tree=dict(t, **{a: v}))
