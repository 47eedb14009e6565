"""Runs a check: seeded cases in forked workers, minimisation, replay files, evidence."""
import collections
import errno
import gc
import hashlib
import importlib
import json
import os
import pickle
import random
import select
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback

from . import core, env, seams
from .faults import Injector

_time = time.time          # real clock, taken before the seams are installed

LEVEL = 'exploration'
HARD_CASE_S = 150          # one case may not take longer than this (typically < 1 s)
OUT = os.path.join(env.VERIF, 'out')


def sub(seed, *key):
    h = hashlib.sha256(repr((seed,) + key).encode()).digest()
    return struct.unpack('<Q', h[:8])[0] >> 1


class Ctx:
    """State of one case: its simulations, violations, statistics, scratch directories."""

    def __init__(self, case, props, keep_trace=False):
        self.case = case
        self.props = props
        self.keep_trace = keep_trace
        self.viol = []              # (kind, message)
        self.stats = collections.Counter()
        self.faults = collections.Counter()
        self.probes = collections.Counter()
        self.logs = {}
        self.hash = hashlib.sha256()
        self.simtime = 0.0
        self.nsims = 0
        self.nontrivial = False
        self.dirs = []
        self.traces = []
        self.sample = None
        self.steps = 0

    def rng(self, *key):
        return random.Random(sub(self.case['seed'], *key))

    def sim(self, name, faults=(), count_calls=False, watch=(), **kw):
        assert name not in self.logs, name
        ch = self.case.get('choices')
        s = core.Sim(seed=sub(self.case['seed'], 'sim', name),
                     choices=None if ch is None else ch.get(name, []),
                     policy=self.case.get('policy'), keep_trace=self.keep_trace, **kw)
        s.name = name
        Injector(s, faults, count_calls).watched.update({w: 0 for w in watch})
        self.logs[name] = s.log
        return s

    def run(self, sim):
        sim.run()
        self.hash.update(sim.digest().encode())
        self.simtime += sim.now - sim.t0
        self.nsims += 1
        self.steps += sim.steps
        self.stats.update({k: v for k, v in sim.stats.items() if isinstance(v, (int, float))})
        self.faults.update(sim.faults_fired)
        self.stats['policy_' + sim.policy] += 1
        if self.keep_trace:
            self.traces.append((sim.name, sim.trace))
        return sim

    def note(self, text):
        """Add an observed result to the run's identity (replays must reproduce it)."""
        self.hash.update(repr(text).encode())

    def bad(self, kind, msg):
        self.note((kind, str(msg)))
        self.viol.append((kind, str(msg)))

    def scratch(self, name='s'):
        d = tempfile.mkdtemp(prefix='dst', dir=SCRATCH_BASE)
        self.dirs.append(d)
        seams.SCRATCH.append(d)
        return d

    def close(self):
        for d in self.dirs:
            seams.SCRATCH.remove(d)
            shutil.rmtree(d, ignore_errors=True)


SCRATCH_BASE = None


def scratch_base():
    global SCRATCH_BASE
    if SCRATCH_BASE is None:
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else tempfile.gettempdir()
        SCRATCH_BASE = tempfile.mkdtemp(prefix='dstrun', dir=base)
    return SCRATCH_BASE


def in_repo(e):
    """Frames of the traceback that lie in the code under test."""
    return [f'{os.path.basename(f.filename)}:{f.name}'
            for f in traceback.extract_tb(e.__traceback__)
            if f.filename.startswith(env.REPO + '/')]


def run_case(mod, case, keep_trace=False):
    """Run one case; returns a plain dict."""
    gc.disable()        # no destructor may run at an uncontrolled point
    gc.collect()
    ctx = Ctx(case, (mod.ID,), keep_trace)
    t = _time()
    err = None
    import numpy as np
    os.environ.pop('REDROCK_TEST_BATCH', None)
    if case.get('batch'):
        os.environ['REDROCK_TEST_BATCH'] = str(case['batch'])
    seed = sub(case.get('seed', 0), 'global')
    random.seed(seed)
    np.random.seed(seed & 0xffffffff)
    try:
        mod.run(case, ctx)
    except core.HarnessError as e:
        err = 'HarnessError: ' + ''.join(traceback.format_exception(e))
    except SystemExit as e:
        if in_repo(e):
            ctx.bad('unexpected exit', f'exit {e.code} on usable inputs '
                    f'[{"; ".join(in_repo(e)[-3:])}]')
        else:
            err = ''.join(traceback.format_exception(e))
    except Exception as e:
        if in_repo(e):
            # code under test used directly (no fault around): it has to work
            ctx.bad('unexpected error', f'{type(e).__name__}: {e} '
                    f'[{"; ".join(in_repo(e)[-3:])}]')
        elif isinstance(e, (ValueError, IndexError, KeyError)):
            # what the run left behind does not have the targets, rows, columns or keys
            # that the inputs call for (a lookup in it failed)
            tb = traceback.extract_tb(e.__traceback__)[-1]
            ctx.bad('results do not fit the inputs', f'{type(e).__name__}: {e} '
                    f'[{os.path.basename(tb.filename)}:{tb.lineno}]')
        else:
            err = ''.join(traceback.format_exception(e))
    finally:
        ctx.close()
    return dict(viol=ctx.viol, digest=ctx.hash.hexdigest()[:20], logs=ctx.logs,
                stats=dict(ctx.stats), faults=dict(ctx.faults), probes=dict(ctx.probes),
                simtime=ctx.simtime, nsims=ctx.nsims, steps=ctx.steps,
                nontrivial=ctx.nontrivial, err=err, wall=_time() - t, traces=ctx.traces,
                sample=ctx.sample)


# -- worker pool -------------------------------------------------------------------

def _send(fd, obj):
    d = pickle.dumps(obj)
    d = struct.pack('<Q', len(d)) + d
    while d:
        n = os.write(fd, d)
        d = d[n:]


def _recvn(fd, n):
    b = b''
    while len(b) < n:
        c = os.read(fd, n - len(b))
        if not c:
            raise EOFError
        b += c
    return b


def _recv(fd):
    n, = struct.unpack('<Q', _recvn(fd, 8))
    return pickle.loads(_recvn(fd, n))


_PARENT_FDS = set()


class Worker:
    def __init__(self, fn):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        sys.stdout.flush()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(w1)
                os.close(r2)
                for fd in _PARENT_FDS:
                    os.close(fd)
                _PARENT_FDS.clear()
                os.setpgid(0, 0)
                signal.signal(signal.SIGINT, signal.SIG_DFL)
                import faulthandler
                faulthandler.register(signal.SIGUSR1, all_threads=True)
                while True:
                    try:
                        job = _recv(r1)
                    except EOFError:
                        break
                    # every job starts from the same state of memory, whatever ran before
                    pid = os.fork()
                    if pid == 0:
                        rc = 1
                        try:
                            if os.environ.get('DST_COVER'):
                                from . import cover
                                cover.start(os.environ.get('DST_REPO', '/repo'))
                            res = fn(job)
                            if os.environ.get('DST_COVER'):
                                cover.stop()
                            _send(w2, res)
                            rc = 0
                        finally:
                            os._exit(rc)
                    if os.waitpid(pid, 0)[1] != 0:
                        break
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)
        self.w, self.r = w1, r2
        _PARENT_FDS.update((w1, r2))
        self.job = None
        self.t = 0

    def give(self, job):
        self.job = job
        self.t = _time()
        _send(self.w, job)

    def kill(self):
        for kill in (os.killpg, os.kill):
            try:
                kill(self.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        os.waitpid(self.pid, 0)
        self._close()

    def _close(self):
        for fd in (self.w, self.r):
            os.close(fd)
            _PARENT_FDS.discard(fd)

    def stop(self):
        self._close()
        try:
            os.waitpid(self.pid, 0)
        except ChildProcessError:
            pass


def pool_map(fn, jobs, nworkers, on_result, deadline=None, case_limit=HARD_CASE_S):
    """Run fn(job) for every job of an iterator; on_result(job, result) -> True to stop."""
    ws = [Worker(fn) for _ in range(nworkers)]
    it = iter(jobs)
    stop = False
    exhausted = False
    try:
        while True:
            for w in ws:
                if w.job is None and not stop and not exhausted:
                    if deadline is not None and _time() > deadline:
                        exhausted = True
                        break
                    try:
                        w.give(next(it))
                    except StopIteration:
                        exhausted = True
            busy = [w for w in ws if w.job is not None]
            if not busy:
                break
            rd, _, _ = select.select([w.r for w in busy], [], [], 1.0)
            for i, w in enumerate(ws):
                if w.job is None:
                    continue
                if w.r in rd:
                    job = w.job
                    try:
                        res = _recv(w.r)
                    except EOFError:
                        w.kill()
                        ws[i] = Worker(fn)
                        if on_result(job, dict(died=True)):
                            stop = True
                        continue
                    w.job = None
                    if on_result(job, res):
                        stop = True
                elif _time() - w.t > case_limit:
                    job = w.job
                    w.kill()
                    ws[i] = Worker(fn)
                    if on_result(job, dict(stuck=True)):
                        stop = True
            if stop:
                break
    finally:
        for w in ws:
            if w.job is not None:
                w.kill()
            else:
                w.stop()


def one_shot(fn, job, limit):
    """Run fn(job) in a fresh forked process."""
    out = {}

    def got(j, r):
        out['r'] = r
        return True
    pool_map(fn, [job], 1, got, case_limit=limit)
    return out['r']


# -- known findings ------------------------------------------------------------------

def known():
    out = []
    p = os.path.join(env.VERIF, 'known_findings.jsonl')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('{'):
                e = json.loads(line)
                if 'key' in e:
                    out.append(e)
    return out


# -- minimisation --------------------------------------------------------------------

def minimise(mod, case, kind, log, budget):
    """Shrink workload, faults and schedule while the same kind of violation remains."""
    t0 = _time()

    def fails(c):
        if _time() - t0 > budget:
            return None
        r = one_shot(lambda j: run_case(mod, j), c, 60)
        if r.get('stuck') or r.get('died') or r.get('err'):
            return None
        if any(k == kind for k, _ in r['viol']):
            return r
        return None
    best = dict(case)
    tries = 0
    # the seeded run as an explicit list of choices
    c = dict(case, choices=log['logs'])
    r = fails(c)
    if r is None:
        return best, None, tries
    best, bestr = c, r
    # benign schedule everywhere?
    c = dict(case, choices={})
    r = fails(c)
    tries += 1
    if r is not None:
        best, bestr = dict(c), r
    # workload and faults
    progress = True
    while progress and _time() - t0 < budget * 0.7:
        progress = False
        for cand in mod.shrink(best):
            if _time() - t0 > budget * 0.7:
                break
            for ch in ([best['choices']] if not best['choices'] else [{}, best['choices']]):
                tries += 1
                c = dict(cand, choices=ch)
                r = fails(c)
                if r is not None:
                    best, bestr = c, r
                    progress = True
                    break
            if progress:
                break
    # schedule: cut to what was consumed, then zero chunks
    best['choices'] = {k: v for k, v in bestr['logs'].items()} if best['choices'] else {}
    if best['choices']:
        for name in list(best['choices']):
            c = dict(best, choices={k: v for k, v in best['choices'].items() if k != name})
            tries += 1
            r = fails(c)
            if r is not None:
                best, bestr = c, r
        for name in list(best['choices']):
            v = list(best['choices'][name])
            size = max(1, len(v) // 2)
            while size >= 1 and _time() - t0 < budget:
                i = 0
                while i < len(v) and _time() - t0 < budget:
                    if any(v[i:i + size]):
                        w = v[:i] + [0] * min(size, len(v) - i) + v[i + size:]
                        c = dict(best, choices=dict(best['choices'], **{name: w}))
                        tries += 1
                        r = fails(c)
                        if r is not None:
                            best, bestr = c, r
                            v = w
                    i += size
                size //= 2
            while v and v[-1] == 0:
                v.pop()
            best['choices'] = dict(best['choices'], **{name: v})
    r = one_shot(lambda j: run_case(mod, j), best, 60)
    if not r.get('viol') or not any(k == kind for k, _ in r['viol']):
        r = None
        best = dict(case, choices=log['logs'])
    return best, r, tries


# -- the check -----------------------------------------------------------------------

def load(pid):
    return importlib.import_module(f'dst.checks.{pid.lower()}')


def warm():
    """Import everything and compile numba functions once, before forking."""
    seams.install()
    import warnings
    warnings.simplefilter('ignore')
    import numpy as np
    np.seterr(all='ignore')
    from . import workloads
    workloads.warm()
    gc.collect()
    gc.freeze()


def main(pid, tier=None, seed=None, replay=None, cases=None, workers=None, verbose=False,
         only=None, keep_going=False, dump=None):
    tier = tier or os.environ.get('VERIF_TIER') or 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') if seed is None else seed)
    t0 = _time()
    scratch_base()
    rc = 2
    try:
        mod = load(pid)
        warm()
        if hasattr(mod, 'setup'):
            mod.setup()
        if replay:
            rc = do_replay(mod, replay)
        else:
            rc = do_check(mod, tier, seed, t0, cases, workers, verbose, only, keep_going, dump)
    finally:
        shutil.rmtree(SCRATCH_BASE, ignore_errors=True)
    return rc


def do_replay(mod, path):
    rep = json.load(open(path))
    r = one_shot(lambda j: run_case(mod, j, keep_trace=True), rep['case'], 300)
    if r.get('stuck'):
        print(f'VIOLATION property={mod.ID} replay={path}')
        print('  the run does not end (no yield point reached)')
        return 1
    if r.get('err'):
        print('replay could not be run:', r['err'])
        return 2
    for name, tr in r['traces']:
        print(f'--- simulation {name}: last events')
        for x in tr[-40:]:
            print('   ', x)
    hit = [v for v in r['viol'] if v[0] == rep['kind']] or r['viol']
    same = r['digest'] == rep['digest']
    print(f'digest {r["digest"]} ({"identical to" if same else "differs from"} recorded)')
    if hit:
        print(f'VIOLATION property={mod.ID} replay={path}')
        print(f'  {hit[0][0]}: {hit[0][1]}')
        return 1
    print('no violation: the recorded failure does not occur on this tree')
    return 0


def do_check(mod, tier, seed, t0, ncases, nworkers, verbose, only, keep_going=False, dump=None):
    n = ncases or mod.N[tier]
    nworkers = nworkers or min(8, os.cpu_count() or 1)
    hard = {'quick': 300, 'thorough': 6 * 3600}[tier]
    fixed = list(mod.fixed(tier)) if hasattr(mod, 'fixed') else []
    kn = [e for e in known() if e['property'] == mod.ID]
    agg = collections.Counter()
    faults = collections.Counter()
    probes = collections.Counter()
    stats = collections.Counter()
    digests, nontriv, every = set(), set(), {}
    samples = []
    found = []
    hit_known = {}
    problems = []
    tot = dict(cases=0, sims=0, steps=0, simtime=0.0, wall=0.0, seeds=0)
    redo = []
    nredo = max(2, n // 40)

    def jobs():
        for i, c in enumerate(fixed):
            if only is None or only == f'f{i}':
                yield ('fixed', i, dict(c))
        for i in range(n):
            if only is not None and only != str(i):
                continue
            rng = random.Random(sub(seed, mod.ID, i))
            c = mod.gen(rng, i, tier)
            c['seed'] = sub(seed, mod.ID, 'case', i)
            yield ('seed', i, c)

    def work(job):
        return run_case(mod, job[2])

    def got(job, r):
        tag = f'{job[0]} {job[1]}'
        if r.get('stuck') or r.get('died'):
            problems.append((tag, job[2], 'stuck' if r.get('stuck') else 'died'))
            return len(problems) > (3 if not keep_going else 20)
        if r['err']:
            problems.append((tag, job[2], r['err']))
            return len(problems) > (3 if not keep_going else 20)
        tot['cases'] += 1
        tot['sims'] += r['nsims']
        tot['steps'] += r['steps']
        tot['simtime'] += r['simtime']
        tot['wall'] += r['wall']
        digests.add(r['digest'])
        every[tag] = r['digest']
        if r['nontrivial']:
            nontriv.add(r['digest'])
        faults.update(r['faults'])
        probes.update(r['probes'])
        stats.update(r['stats'])
        if job[0] == 'seed' and job[1] < nredo:
            redo.append((job, r['digest']))
        if len(samples) < 4 and r['sample']:
            samples.append(f'{tag}: {r["sample"]}')
        if verbose:
            print(f'{tag} {r["wall"]:.2f}s sims={r["nsims"]} steps={r["steps"]} {r["sample"]}')
        stop = False
        for kind, msg in r['viol']:
            e = next((e for e in kn if e['key'] == kind), None)
            if e is not None:
                hit_known.setdefault(kind, e)
                continue
            found.append((job, r, kind, msg))
            if keep_going:
                print(f'{tag}: {kind}: {msg}'[:700], flush=True)
            else:
                stop = True
                break
        return stop
    pool_map(work, jobs(), nworkers, got, deadline=t0 + hard)

    # a case that did not end: confirm in a fresh process before calling it a hang
    for tag, case, why in list(problems):
        if why in ('stuck', 'died') and not found:
            r = one_shot(lambda j: run_case(mod, j), case, HARD_CASE_S)
            if r.get('stuck'):
                found.append((('', tag, case), dict(logs=None), 'no progress',
                              f'{tag}: the run does not end and reaches no operation'))
            elif r.get('err') or r.get('died'):
                pass
            else:
                problems.remove((tag, case, why))
                for kind, msg in r['viol']:
                    found.append((('', tag, case), r, kind, msg))

    if dump:
        with open(dump, 'w') as f:
            json.dump(every, f)

    # determinism self-test: same seed, again, in other processes
    nondet = []
    if not found and redo:
        def again(job, r):
            d = dict((id(j), x) for j, x in redo)[id(job)]
            if r.get('digest') != d:
                nondet.append(f'{job[0]} {job[1]}: {d} then {r.get("digest")}')
        pool_map(work, [j for j, _ in redo], 3, again)

    rc = 0
    viols = []
    if keep_going:
        for tag, case, why in problems:
            print(f'PROBLEM {tag}: {why[-900:]}')
        print(collections.Counter(f[2] for f in found))
        return 1 if found else 0
    if found:
        job, r, kind, msg = sorted(found, key=lambda f: (f[0][0] != 'fixed', str(f[0][1])))[0]
        os.makedirs(os.path.join(OUT, 'replays'), exist_ok=True)
        case, mr, tries = job[2], None, 0
        if r.get('logs') is not None:
            case, mr, tries = minimise(mod, job[2], kind, r, 60 if tier == 'quick' else 600)
        rep = dict(property=mod.ID, kind=kind, found=f'VERIF_SEED={seed} {job[0]} {job[1]}',
                   message=(next(m for k, m in mr['viol'] if k == kind) if mr else msg),
                   digest=mr['digest'] if mr else r.get('digest'), case=case,
                   minimise_runs=tries)
        txt = json.dumps(rep, indent=1, sort_keys=True)
        path = os.path.join(OUT, 'replays',
                            f'{mod.ID}-{hashlib.sha256(txt.encode()).hexdigest()[:10]}.json')
        with open(path, 'w') as f:
            f.write(txt + '\n')
        print(f'VIOLATION property={mod.ID} replay={path}')
        print(f'  seed: VERIF_SEED={seed}, {job[0]} case {job[1]}')
        print(f'  {kind}: {rep["message"]}'[:1500])
        rc = 1
        viols.append(dict(replay=path, kind=kind, message=rep['message'][:500]))
    for e in kn:
        if e['key'] in hit_known:
            print(f'KNOWN-FINDING: property={mod.ID} {e["what"]}')
    if problems and rc == 0:
        rc = 2
        for tag, case, why in problems[:3]:
            print(f'HARNESS PROBLEM in {tag}: {why}')
            print('  case:', json.dumps(case)[:2000])
    if nondet and rc == 0:
        rc = 2
        print('NOT DETERMINISTIC:', nondet[:3])
    wall = _time() - t0
    hours = max(wall, 1e-9) / 3600
    ev = dict(property=mod.ID, tier=tier, seed=seed, level=LEVEL, wall_s=round(wall, 2),
              coverage=dict(
                  evaluations=tot['cases'], distinct_nontrivial=len(nontriv),
                  rule=mod.RULE, samples=samples or ['none'],
                  simulated_runs=tot['sims'], scheduler_steps=tot['steps'],
                  seeds_per_hour=int(tot['cases'] / hours),
                  simulated_runs_per_hour=int(tot['sims'] / hours),
                  simulated_seconds=round(tot['simtime'], 1),
                  distinct_executions=len(digests),
                  distinct_measure='SHA-256 over the sequence of scheduler events (task or '
                                   'event label, faults, process ends) and observed results',
                  faults_injected=dict(sorted(faults.items())),
                  rare_conditions=dict(sorted(probes.items())),
                  counters={k: round(v, 1) for k, v in sorted(stats.items())},
                  determinism_self_test=dict(cases_run_twice=len(redo), differing=len(nondet)),
                  real_components=mod.REAL, stub_components=mod.STUB),
              assumptions=list(getattr(mod, 'ASSUME', [])) or ['see DESIGN.md'],
              violations=viols)
    os.makedirs(os.path.join(env.VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(env.VERIF, 'evidence', f'{mod.ID}.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
        f.write('\n')
    print(f'{mod.ID} {tier}: {tot["cases"]} cases, {tot["sims"]} simulated runs, '
          f'{len(nontriv)} distinct, {sum(faults.values())} faults, {wall:.0f} s, exit {rc}')
    return rc
