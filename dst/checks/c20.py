"""C20: runs of rrdesi and rrboss in one process (or on one communicator) do not affect each other."""
import os
import pickle
import traceback

import numpy as np

from .. import core, dengine as E, desifiles as D, workloads as W, zengine as Z

ID = 'C20'
N = {'quick': 200, 'thorough': 12000}
RULE = ('two seeded sets of inputs and options (rrdesi or rrboss) at the same paths, and a seeded '
        'sequence of 2 to 7 runs of them in one process, with worker processes, or on the ranks of one '
        'communicator, under seeded schedules; outputs in one or several directories; serial and mp: '
        'some runs made to fail (I/O error, killed worker, unusable argument) in between; non-trivial: '
        'at least two runs')
REAL = ['redrock.external.desi', 'redrock.external.boss', 'redrock.targets', 'redrock.templates',
        'redrock.zscan', 'redrock.zfind', 'redrock.results', 'redrock.utils', 'redrock.archetypes',
        'redrock.priors']
STUB = ['MPI library', 'multiprocessing process/queue/pipe transport', 'clock',
        'file system calls (real files below a scratch directory)']


def gen_one(r, other=None):
    boss = r.random() < 0.25
    if boss:
        c = dict(kind='boss', boss=D.gen_boss(r), templates=W.gen_templates(r, n=1, nzmax=13),
                 opts=E.gen_boss_opts(r))
    else:
        c = dict(kind='desi', **E.gen_case(r, nmax=5))
        for t in c['templates']:
            t['nz'] = min(t['nz'], 13)
        if other is not None and other['kind'] == 'desi' and r.random() < 0.5:
            # the same targets and types of templates, other contents
            c['files'] = dict(other['files'], key=other['files']['key'] + 1) if r.random() < 0.5 \
                else other['files']
            c['templates'] = [dict(t, k=t['k'] + 1) for t in other['templates']]
            c['opts'] = {k: v for k, v in c['opts'].items()
                         if k not in ('targetids', 'mintarget', 'ntargets', 'zscan', 'afile')}
    return c


def gen(rng, i, tier):
    r = np.random.default_rng(rng.getrandbits(60))
    a = gen_one(r)
    c = dict(sets=[a, gen_one(r, a)], batch=int(r.choice([0, 0, 1, 2, 3])))
    c['layout'] = [['serial'], ['mp', 2], ['mp', 4], ['mpi', 1], ['mpi', 2], ['mpi', 3], ['mpi', 3],
                   ['mpi', 4], ['mpi', 7], ['serial']][int(r.integers(10))]
    n = int(r.choice([2, 2, 3, 3, 4]))
    steps = []
    for k in range(n):
        x = dict(set=int(r.integers(2)), dir=int(r.choice([0, 0, 0, 1])))
        if c['layout'][0] != 'mpi' and r.random() < 0.55:
            x['fail'] = str(r.choice(['errno', 'errno', 'errno', 'args', 'input', 'worker']))
            x['n'] = int(r.integers(1, 25))
            if r.random() < 0.5:
                x['op'] = 'h5'
            x['err'] = str(r.choice(['ENOSPC', 'EIO']))
        steps.append(x)
        if 'fail' in x and r.random() < 0.6:        # the failed run again
            steps.append(dict(set=x['set'], dir=x['dir']))
    if 'fail' in steps[-1]:
        steps.append({k: v for k, v in steps[-1].items() if k in ('set', 'dir')})
    c['steps'] = steps
    c['faults'] = Z.gen_benign(r, c['layout'])
    return c


def isolated(fn, path):
    """fn() in a process of its own."""
    pid = os.fork()
    if pid == 0:
        try:
            with open(path, 'wb') as f:
                try:
                    pickle.dump((fn(), None), f)
                except BaseException as e:      # noqa
                    f.seek(0)
                    f.truncate()
                    pickle.dump((None, (f'{type(e).__name__}: {e}', ''.join(
                        traceback.format_exception(e)))), f)
        finally:
            os._exit(0)
    os.waitpid(pid, 0)
    with open(path, 'rb') as f:
        return pickle.load(f)


def run(case, ctx):
    d = ctx.scratch()
    cur = os.path.join(d, 'in')
    argvs, refs, bodies, outs = [], [], [], []

    def flip(k):
        if os.path.lexists(cur):
            os.unlink(cur)
        os.symlink(os.path.join(d, f'set{k}'), cur)
    for k, s in enumerate(case['sets']):
        os.makedirs(os.path.join(d, f'set{k}'))
        flip(k)
        desi = s['kind'] == 'desi'
        argvs.append(E.prepare(s, cur) if desi else E.boss_prepare(s, cur))
        bodies.append(E.desi_body if desi else E.boss_body)
        outs.append(E.outargs if desi else E.boss_outargs)

        def ref(k=k, s=s):
            od = os.path.join(d, f'ref{k}')
            os.makedirs(od)
            oa, paths = outs[k](s, od)
            with W.quiet():
                bodies[k](argvs[k] + oa)(None, 1)
            return {x: E.load(p) for x, p in paths.items()}
        r, err = isolated(ref, os.path.join(d, f'ref{k}.pickle'))
        if err:
            ctx.bad('run failed', f'set {k} alone: {err[0]} {err[1][-600:]}')
            return
        refs.append(r)
    what = f'{case["layout"]} sets {[E.describe(s) if s["kind"] == "desi" else (s["boss"], s["opts"]) for s in case["sets"]]}'
    ctx.sample = f'{case["layout"]} {case["steps"]}'
    mpi = case['layout'][0] == 'mpi'
    faults = list(case['faults'])
    for i, x in enumerate(case['steps']):
        os.makedirs(os.path.join(d, f'o{x["dir"]}{x["set"]}'), exist_ok=True)
        if x.get('fail') == 'errno':
            if x.get('op') != 'h5':
                faults.append(dict(proc='main', op='fs:', path=f'/at{i}/', n=x['n'],
                                   act='errno:' + x['err']))
    kept = {}           # step -> outputs, as they were right after it
    state = dict(step=None)

    def body(comm, mp):
        t = core.cur()
        inj = t.sim.injector
        for i, x in enumerate(case['steps']):
            k = x['set']
            inj.suspended = not mpi         # not in the steps between the runs
            if comm is None or comm.rank == 0:
                # nobody is in a run any more
                if mpi:
                    comm.barrier()
                flip(k)
                # its own name of the directory of the outputs, for the faults of this run
                at = os.path.join(d, f'at{i}')
                os.symlink(os.path.join(d, f'o{x["dir"]}{k}'), at)
                state['step'] = i
                if mpi:
                    comm.barrier()
            else:
                comm.barrier()
                comm.barrier()
            oa, paths = outs[k](case['sets'][k], os.path.join(d, f'at{i}'))
            argv = argvs[k] + oa
            if x.get('fail') == 'args':
                argv = argv + ['--no-such-option']
            elif x.get('fail') == 'input':
                argv = [a + '.gone' if '/in/' in a and a.endswith(('.fits', '.fits.gz')) else a for a in argv]
            given = list(argv)
            inj.suspended = False
            f = None
            if x.get('fail') == 'worker':
                f = dict(proc='main.w*', op='*', n=x['n'], act='kill', left=x['n'])
            elif x.get('op') == 'h5' and x['fail'] == 'errno':
                f = dict(proc='main', op='h5', n=x['n'], act='errno:' + x['err'], left=x['n'])
            if f:
                inj.faults.append(f)
            ok, text = True, ''
            try:
                bodies[k](argv)(comm, mp)
            except SystemExit as e:
                ok = e.code in (0, None)
                text = f'exit {e.code}'
            except Exception as e:
                if mpi or not x.get('fail'):
                    raise
                ok, text = False, f'{type(e).__name__}: {e}'
            if f:
                f['left'] = 0
            inj.suspended = not mpi
            if argv != given:
                ctx.bad('arguments changed', f'run {i}: {argv} instead of {given}')
            if comm is None or comm.rank == 0:
                kept[i] = (ok, text, {n: E.try_load(p) for n, p in paths.items()})
    o = Z.run_body(ctx, 'runs', case['layout'], body, faults=faults)
    ctx.nontrivial = len(case['steps']) > 1
    done = f'runs {[(x["set"], x.get("fail")) for x in case["steps"]]} {what}'
    if o.hang:
        ctx.bad('hang', f'in run {state["step"]} of {done}: {o.describe()}')
        return
    if not o.ok:
        ctx.bad('run failed', f'in run {state["step"]} of {done}: {o.describe()}')
        return
    if o.left:
        ctx.bad('message left', f'{done}: {o.left[0]}')
    failed = False
    for i, x in enumerate(case['steps']):
        if i not in kept:
            ctx.bad('run failed', f'run {i} of {done} did not take place')
            return
        ok, text, got = kept[i]
        if not ok:
            ctx.probes['run that failed'] += 1
            failed = True
            if not x.get('fail'):
                ctx.bad('run failed', f'run {i} of {done}: {text}')
            continue
        if x.get('fail') in ('args', 'input'):
            ctx.bad('unusable arguments', f'run {i} of {done} ended well')
        ctx.probes['run after a failed one'] += failed
        for n, ref in refs[x['set']].items():
            w = 'missing' if got[n] is None else got[n] if isinstance(got[n], str) else \
                E.diff(got[n], ref)
            if w:
                ctx.bad('output differs', f'run {i} of {done}: {n}: {w}')


def shrink(case):
    yield from Z.drop_faults(case)
    n = len(case['steps'])
    for k in range(n):
        if n > 1:
            yield dict(case, steps=case['steps'][:k] + case['steps'][k + 1:])
    for k in range(n):
        if case['steps'][k].get('fail'):
            yield dict(case, steps=case['steps'][:k] + [dict(set=case['steps'][k]['set'], dir=case['steps'][k]['dir'])]
                       + case['steps'][k + 1:])
    if case['layout'][0] != 'serial':
        for m in (2, case['layout'][1] - 1):
            if 0 < m < case['layout'][1]:
                yield dict(case, layout=[case['layout'][0], m])
    for k in (0, 1):
        s = case['sets'][k]
        if s['kind'] == 'desi':
            for x in E.shrink(s):
                yield dict(case, sets=[x if j == k else y for j, y in enumerate(case['sets'])])
