"""C08: a reader sees one complete version of a file that is being replaced."""
import copy
import os

import numpy as np

from .. import core, dengine as E, workloads as W, writers as V, zengine as Z
from . import c01, c07

ID = 'C08'
N = {'quick': 800, 'thorough': 30000}
RULE = ('either one to three reader processes reading a details, catalog or model file several times '
        'while a writer process replaces it with two to four versions (killed and restarted in some '
        'runs), or a run in a seeded layout that reuses a scan file while it is replaced; seeded '
        'interleavings of the file operations; non-trivial: a read overlaps a write')
REAL = ['redrock.results', 'redrock.external.desi writers', 'redrock.external.boss writers',
        'redrock.zfind', 'redrock.fitz', 'redrock.targets', 'h5py / HDF5', 'astropy.io.fits']
STUB = ['MPI library', 'multiprocessing process/queue/pipe transport', 'clock',
        'file system calls (real files below a scratch directory)']
OPS = ['read_zscan', 'read_zscan', 'read_zfit', 'read_zscan_redrock', 'load', 'nozfit']


def gen(rng, i, tier):
    r = np.random.default_rng(rng.getrandbits(60))
    if r.random() < 0.35:
        c = dict(mode='reuse', batch=int(r.choice([0, 2])), targets=W.gen_targets(r, 6),
                 templates=W.gen_templates(r, nzmax=15), opts=Z.gen_opts(r, priors=0, arch=0))
        if c['targets']['ids'] == 'str':
            c['targets']['ids'] = 'rand'
        n = c['targets']['n']
        c['layout'] = ['mpi', int(r.choice([2, 2, 3, 4, n + 1]))] if r.random() < 0.8 else \
            Z.gen_layout(r, n)
        c['versions'] = int(r.choice([1, 1, 2]))
        c['waits'] = [0 if r.random() < 0.4 else int(r.exponential(25.0)) for _ in range(c['versions'])]
        c['clobber'] = bool(r.random() < 0.3)
        return c
    a = V.gen(r, 'details' if r.random() < 0.65 else None)
    a['n'] = min(a['n'], 7)
    a['idkey'] = int(r.integers(1, 10**6))
    c = dict(mode='readers', first=a, batch=0)
    k = int(r.choice([1, 2, 3]))
    c['next'] = []
    for _ in range(k):
        v = V.gen(r, a['kind'])
        v['n'] = min(v['n'], 7)
        if r.random() < 0.6:
            v = dict(a, key=v['key'])           # the same targets
        c['next'].append(v)
    c['exists'] = bool(r.random() < 0.85)
    c['clobber'] = bool(r.random() < 0.6)
    c['readers'] = [[(str(r.choice(OPS)), float(r.random())) for _ in range(int(r.choice([1, 2, 3, 5])))]
                    for _ in range(int(r.choice([1, 1, 2, 3])))]
    for x in c['readers']:
        if r.random() < 0.3:            # the same read each time
            x[:] = [x[0] for _ in x]
    if a['kind'] != 'details':
        c['readers'] = [[('load', 0.0) for _ in x] for x in c['readers']]
    # read once more after the last writer has ended
    c['again'] = bool(r.random() < 0.5)
    c['faults'] = []
    for _ in range(int(r.choice([0, 1, 1, 2]))):
        if r.random() < 0.5:
            c['faults'].append(dict(proc=f'writer{int(r.integers(k))}', op=str(r.choice(['fs:', 'h5', '*'])),
                                    n=int(1 + r.exponential(25.0)), act='kill'))
        else:
            who = f'reader{int(r.integers(len(c["readers"])))}' if r.random() < 0.6 else \
                f'writer{int(r.integers(k))}'
            c['faults'].append(dict(proc=who, op='*', n=int(1 + r.exponential(15.0)), act='stall',
                                    dt=float(r.choice([1.0, 4000.0]))))
    return c


class Sink:
    """Collects what a comparison reports."""

    def __init__(self):
        self.viol = []

    def bad(self, kind, msg):
        self.viol.append(msg)


def run(case, ctx):
    (run_reuse if case['mode'] == 'reuse' else run_readers)(case, ctx)


# -- readers and a writer ------------------------------------------------------------------------

def run_readers(case, ctx):
    import redrock.results as R
    specs = [case['first']] + case['next']
    kind = case['first']['kind']
    versions = [V.Version(s) for s in specs]
    side = ctx.scratch()
    stored = []
    if kind == 'details':
        for k, v in enumerate(versions):
            p = os.path.join(side, f'v{k}.h5')
            v.write(p)
            stored.append(E.load(p)['h5'][1])
    d = ctx.scratch()
    path = os.path.join(d, 'out' + V.EXT[kind])
    if case['exists']:
        versions[0].write(path)
    what = f'{kind} n={[s["n"] for s in specs]} exists={case["exists"]} clobber={case["clobber"]} ' \
           f'readers={case["readers"]} faults={case["faults"]}'
    ctx.sample = what
    common = sorted(set.intersection(*[set(v.ids) for v in versions]))
    log, writes = [], []
    # one process per version: a killed writer is followed by the next one
    live = {}

    def writer(k):
        def go(sim):
            t = core.cur()
            t.wait(lambda: k == 0 or live[f'writer{k - 1}'].done, 'wait for the earlier writer')
            w = dict(v=k + 1, start=sim.steps, end=None)
            writes.append(w)
            versions[k + 1].write(path, **({'clobber': case['clobber']} if kind == 'details' else {}))
            w['end'] = sim.steps
        return go

    def reader(k):
        def go(sim):
            ops = case['readers'][k]
            for j, (op, x) in enumerate(ops + ops[:1] * bool(case.get('again'))):
                if j == len(ops):
                    core.cur().wait(lambda: all(w.done for w in live.values()), 'wait for the writers')
                e = dict(reader=k, op=op, start=sim.steps, end=None, err=None, res=None)
                log.append(e)
                sel = None
                if x < 0.4 and common:
                    sel = [common[int(x * 2.5 * len(common))]]
                e['sel'], e['up'] = sel, x > 0.7
                kw = {} if sel is None else {'select_targetids': sel if x < 0.2 else sel[0]}
                try:
                    if op == 'load':
                        e['res'] = E.load(path)
                    elif op == 'read_zfit':
                        e['res'] = R.read_zfit(path, upper=e['up'], **kw)
                    elif op == 'read_zscan_redrock':
                        e['res'] = R.read_zscan_redrock(path)
                    else:
                        e['res'] = R.read_zscan(path, upper=e['up'], nozfit=op == 'nozfit', **kw)
                except Exception as err:     # noqa
                    e['err'] = err
                e['end'] = sim.steps
        return go
    sim = ctx.sim('run', faults=case['faults'])
    for k in range(len(case['next'])):
        live[f'writer{k}'] = sim.spawn(f'writer{k}', lambda k=k: writer(k)(sim))
    procs = list(live.values()) + [sim.spawn(f'reader{k}', lambda k=k: reader(k)(sim))
                                   for k in range(len(case['readers']))]
    ctx.run(sim)
    if sim.hang:
        ctx.bad('hang', f'{what}: {sim.hang}')
        return
    for p in procs:
        if p.exc:
            ctx.bad('write failed', f'{what}: {p.name}: {p.exc[0]}: {p.exc[1][:300]}')
            return
    for e in log:
        if e['end'] is None:
            continue
        w = f'{what}: reader {e["reader"]}: {e["op"]} of {e["sel"] or "all"}'
        over = [x for x in writes if x['start'] < e['end'] and (x['end'] is None or x['end'] > e['start'])]
        ctx.nontrivial |= bool(over)
        if e['err'] is not None:
            ctx.probes['file error'] += 1
            if not isinstance(e['err'], OSError):
                ctx.bad('reader failed', f'{w}: {type(e["err"]).__name__}: {e["err"]}')
                return
            if case['exists'] and not (kind == 'details' and case['clobber']):
                ctx.bad('reader failed', f'{w}: {type(e["err"]).__name__}: {e["err"]}: no file although '
                                         f'it is replaced in one step')
                return
            continue
        why = []
        e['v'] = None
        for k, v in enumerate(versions):
            x = matches(e, v, stored[k] if stored else None)
            if x is None:
                e['v'] = k
                break
            why.append(x)
        if e['v'] is None:
            ctx.bad('mixed versions', f'{w}: not one of the versions: {" / ".join(why)}')
            return
        ctx.note((e['reader'], e['v']))
        ctx.probes['newer version read'] += e['v'] > 0
        # not from the future, not older than what was complete before
        st = [x for x in writes if x['v'] == e['v']]
        if e['v'] > 0 and (not st or st[0]['start'] > e['end']):
            ctx.bad('order', f'{w}: version {e["v"]} read before it was written')
            return
        done = max([x['v'] for x in writes if x['end'] is not None and x['end'] <= e['start']], default=0)
        if e['v'] < done:
            ctx.bad('order', f'{w}: version {e["v"]} read after version {done} was complete')
            return
    good = [e for e in log if e.get('v') is not None]
    for a in good:
        for b in good:
            if a['end'] <= b['start'] and b['v'] < a['v']:
                ctx.bad('order', f'{what}: reader {b["reader"]} got version {b["v"]} after reader '
                                 f'{a["reader"]} had got version {a["v"]}')
                return


def matches(e, v, h):
    """None if the result of a read is this version."""
    op, res = e['op'], e['res']
    if op == 'load':
        return v.check(res)
    s = Sink()
    ids = [int(x) for x in h['targetids']]
    want = ids if e['sel'] is None or op == 'read_zscan_redrock' else list(e['sel'])
    cols = sorted({k.split('/')[3] for k in h if k.startswith(f'zfit/{ids[0]}/zfit/')})
    fts = sorted({k.split('/')[1] for k in h if k.startswith('zscan/')})
    zf = zs = None
    if op == 'read_zfit':
        zf = res
    elif op == 'read_zscan':
        zs, zf = res
    else:
        zs = res
    try:
        if zf is not None:
            c07.table_matches(s, op, h, zf, want, cols, e['up'])
        if zs is not None and not s.viol:
            c07.scan_matches(s, op, h, zs, want, ids, fts)
            if op == 'read_zscan' and not s.viol:
                c07.parts(s, op, h, zs, want, e['up'])
    except KeyError as err:
        return f'{err!r}'
    return s.viol[0] if s.viol else None


# -- a run that reuses a scan being replaced ----------------------------------------------------------

def run_reuse(case, ctx):
    from redrock.results import write_zscan
    d = ctx.scratch()
    kw = Z.prepare(case, d)
    spec = case['targets']
    templates = W.make_templates(case['templates'])
    ids = W.ids_for(spec['ids'], spec['n'], spec['key'])
    scan, zfit = Z.serial(W.make_targets(spec), copy.deepcopy(templates), kw)
    scans, refs = [], []
    for k in range(case['versions'] + 1):
        s = copy.deepcopy(scan)
        for t in s:
            for ft in s[t]:
                z = s[t][ft]['zchi2']
                # the later versions have their minima elsewhere
                s[t][ft]['zchi2'] = np.roll(z, 1 + 2 * k + 3 * k * k) if k else z
                s[t][ft]['penalty'] = s[t][ft]['penalty'] + 0.5 * k
        scans.append(s)
        p = os.path.join(d, f'v{k}.h5')
        with W.quiet():
            write_zscan(p, s, zfit)
        a, b = Z.serial(W.make_targets(spec), copy.deepcopy(templates), dict(kw, chi2_scan=p))
        refs.append((a, {t: {c: x[np.asarray(b['targetid']) == t] for c, x in Z.tocols(b).items()}
                         for t in ids}))
    path = os.path.join(d, 'scan_in_use.h5')
    with W.quiet():
        write_zscan(path, scans[0], zfit)
    layout = case['layout']
    what = f'{layout} reusing a scan replaced {case["versions"]} times, {spec["n"]} targets waits={case["waits"]}'
    ctx.sample = what

    def writer(sim):
        for k in range(case['versions']):
            n = case['waits'][k] + sim.injector.watched['scan_in_use.h5'] * (k > 0)
            core.cur().wait(lambda: sim.injector.watched['scan_in_use.h5'] >= n, 'wait to write',
                            timeout=1e6)
            write_zscan(path, scans[k + 1], zfit, clobber=case['clobber'])

    def body(comm, mp):
        return Z.fit(W.make_targets(spec), copy.deepcopy(templates), comm, mp, dict(kw, chi2_scan=path))
    o = Z.run_body(ctx, 'run', layout, body, also=[('writer', writer)], watch=['scan_in_use.h5'])
    if o.hang or o.bad:
        ctx.bad('hang', f'{what}: {o.describe()}')
        return
    for p in o.others:
        if p.exc:
            ctx.bad('write failed', f'{what}: {p.name}: {p.exc[0]}: {p.exc[1][:300]}')
            return
    ctx.nontrivial = True
    # reused again when it is no longer replaced
    try:
        with W.quiet():
            a, b = Z.serial(W.make_targets(spec), copy.deepcopy(templates), dict(kw, chi2_scan=path))
    except Exception as err:    # noqa
        ctx.bad('reader failed', f'{what}: afterwards: {type(err).__name__}: {err}')
        return
    k = len(refs) - 1
    for t in ids:
        for c, x in Z.tocols(b).items():
            x, y = np.asarray(x)[np.asarray(b['targetid']) == t], np.asarray(refs[k][1][t][c])
            if not np.array_equal(x, y, equal_nan=x.dtype.kind == 'f'):
                ctx.bad('order', f'{what}: afterwards: {c} of target {t} is not that of the last version')
                return
    if not o.ok:
        ctx.probes['file error'] += 1
        if not case['clobber'] or (o.exc and o.exc[0] not in ('FileNotFoundError', 'OSError')):
            ctx.bad('reader failed', f'{what}: {o.describe()}')
        return
    why = []
    for k, (a, rows) in enumerate(refs):
        s = Sink()
        s.note = lambda *x: None
        if Z.check_result(s, o, f'version {k}', ids, a, rows):
            ctx.probes['newer version used'] += k > 0
            ctx.note(('version', k))
            return
        why.append(s.viol[0])
    ctx.bad('mixed versions', f'{what}: not the result of one version: ' + ' / '.join(why))


def shrink(case):
    if case['mode'] == 'reuse':
        if case['layout'][0] != 'serial' and case['layout'][1] > 2:
            yield dict(case, layout=[case['layout'][0], case['layout'][1] - 1])
        if case['versions'] > 1:
            yield dict(case, versions=1)
        if any(case['waits']):
            yield dict(case, waits=[0] * len(case['waits']))
        yield from c01.shrink_workload(case)
        return
    for k in range(len(case['faults'])):
        yield dict(case, faults=case['faults'][:k] + case['faults'][k + 1:])
    R = case['readers']
    for k in range(len(R)):
        if len(R) > 1:
            yield dict(case, readers=R[:k] + R[k + 1:])
        for j in range(len(R[k])):
            if len(R[k]) > 1:
                yield dict(case, readers=R[:k] + [R[k][:j] + R[k][j + 1:]] + R[k + 1:])
    N_ = case['next']
    for k in range(len(N_)):
        if len(N_) > 1:
            yield dict(case, next=N_[:k] + N_[k + 1:])
    if case['first']['n'] > 1:
        yield dict(case, first=dict(case['first'], n=1), next=[dict(x, n=1) for x in N_])
    if case['clobber']:
        yield dict(case, clobber=False)
    if case.get('again'):
        yield dict(case, again=False)
