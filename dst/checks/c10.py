"""C10: fitting leaves its inputs unchanged and can be repeated."""
import copy
import hashlib
import json
import os
import random
import subprocess
import sys

import numpy as np

from .. import env, workloads as W, zengine as Z
from . import c01

ID = 'C10'
N = {'quick': 330, 'thorough': 15000}
RULE = ('seeded targets, templates, archetypes and priors; a seeded sequence of serial, '
        'multi-worker and MPI runs on the same objects (some reusing the distributed objects as '
        'well), each with its own options, random state, clock offset and stalls, compared with '
        'runs on fresh objects; inputs are compared bit for bit after every run; some cases are '
        'repeated in processes with other hash seeds; non-trivial: two or more runs on the same '
        'objects')
REAL = ['redrock.targets', 'redrock.templates', 'redrock.zscan', 'redrock.zfind', 'redrock.fitz',
        'redrock.archetypes', 'redrock.priors', 'redrock.utils']
STUB = ['MPI library', 'multiprocessing process/queue/pipe transport', 'clock',
        'global random state']


def gen(rng, i, tier):
    r = np.random.default_rng(rng.getrandbits(60))
    c = dict(targets=W.gen_targets(r, 6), templates=W.gen_templates(r, nzmax=29),
             opts=Z.gen_opts(r, priors=0.3, arch=0.25), batch=int(r.choice([0, 1, 2])))
    if c['opts'].get('priors') and c['targets']['ids'] == 'str':
        c['targets']['ids'] = 'rand'
    c['opts2'] = dict(c['opts'], nminima=int(r.choice([1, 2, 4])), npts=int(r.choice([5, 9, 15])))
    if c['opts'].get('arch') and r.random() < 0.6:
        c['opts2']['arch'] = str(r.choice(['nolegendre', 'legendre']
                                          + (['percamera'] if c['opts']['arch'] in
                                             ('percamera', 'nearest') else [])))
    c['runs'] = []
    for _ in range(int(r.integers(2, 5))):
        lay = Z.gen_layout(r, c['targets']['n'])
        if r.random() < 0.2:
            lay = ['serial']
        c['runs'].append(dict(layout=lay, opts=int(r.random() < 0.4),
                              rnd=int(r.integers(1, 10**6)), again=bool(r.random() < 0.3),
                              faults=Z.gen_benign(r, lay, 0.5)))
    c['keep'] = bool(r.random() < 0.4)     # serial/mp runs share DistTargets and DistTemplates
    c['hashseed'] = int(r.integers(1, 10**6)) if i % 60 == 7 else 0
    return c


def spectra_arrays(t):
    out = []
    for s in t.spectra:
        s.sharedmem_unpack()
        out.append(dict(wave=s.wave, flux=s.flux, ivar=s.ivar, R=s.R.data, off=s.R.offsets,
                        Rcsr=s.Rcsr.toarray()))
    return out


def snapshot(targets, templates, archetypes):
    snap = {}
    for t in targets:
        for j, x in enumerate(spectra_arrays(t)):
            for k, v in x.items():
                snap[f'target {t.id} spectrum {j} {k}'] = np.array(v)
        snap[f'target {t.id} number of spectra'] = np.array(len(t.spectra))
        snap[f'target {t.id} meta'] = np.array(repr(sorted(t.meta.items())))
    for i, t in enumerate(templates):
        for k in ('wave', 'flux', 'redshifts'):
            snap[f'template {t.full_type} {k}'] = np.array(getattr(t, k))
    for n, a in (archetypes or {}).items():
        snap[f'archetype {n} flux'] = np.array(a.flux)
        snap[f'archetype {n} wave'] = np.array(a.wave)
    return snap


def run(case, ctx):
    d = ctx.scratch()
    o1 = dict(case)
    Z.fix_case(case)
    kw = Z.prepare(case, d)
    d2 = os.path.join(d, '2')
    os.makedirs(d2)
    kw2 = Z.prepare(dict(case, opts=case['opts2']), d2)
    if 'archetypes' in kw and 'archetypes' in kw2:
        kw2['archetypes'] = kw['archetypes']      # the same objects
    kws = [kw, kw2]
    spec = case['targets']
    ids = W.ids_for(spec['ids'], spec['n'], spec['key'])
    fresh_arch = copy.deepcopy(kw.get('archetypes'))
    refs = []
    for k in kws:
        kk = dict(k)
        if 'archetypes' in kk:
            kk['archetypes'] = copy.deepcopy(fresh_arch)
        s, z = Z.serial(W.make_targets(spec), W.make_templates(case['templates']), kk)
        z = Z.tocols(z)
        refs.append((copy.deepcopy(s), {t: {c: v[z['targetid'] == t] for c, v in z.items()}
                                        for t in ids}))
    targets = W.make_targets(spec)
    templates = W.make_templates(case['templates'])
    snap = snapshot(targets, templates, kw.get('archetypes'))
    pri = open(kw['priors'], 'rb').read() if kw.get('priors') else None
    kept = {}
    for ri, x in enumerate(case['runs']):
        k = kws[x['opts']]
        np.random.seed(x['rnd'])
        random.seed(x['rnd'])

        def body(comm, mp):
            from redrock.targets import DistTargetsCopy
            from redrock.templates import DistTemplate
            from redrock.zfind import zfind
            tp = templates if comm is None or comm.rank == 0 else copy.deepcopy(templates)
            kk = dict(k)
            if 'archetypes' in kk and comm is not None and comm.rank > 0:
                kk['archetypes'] = copy.deepcopy(fresh_arch)
            if comm is None and case['keep'] and kept:
                dist, dt = kept['d']
            else:
                tg = targets if comm is None or comm.rank == 0 else []
                dist = DistTargetsCopy(tg, comm=comm, root=0)
                dw = dist.wavegrids()
                dt = [DistTemplate(t, dw, mp_procs=mp, comm=comm) for t in tp]
                if comm is None:
                    kept['d'] = (dist, dt)
            res = zfind(dist, dt, mp_procs=mp, **kk)
            if x['again']:
                first = copy.deepcopy(res)
                res = zfind(dist, dt, mp_procs=mp, **kk)
                return first, res
            return (res,)
        o = Z.run_body(ctx, f'r{ri}', x['layout'], body, faults=x['faults'])
        what = f'run {ri + 1} of {[y["layout"] for y in case["runs"]]}'
        if not o.ok:
            ctx.bad('run failed', f'{what}: {o.describe()}')
            return
        many = o.result
        for j, res in enumerate(many):
            o.result = res
            if not Z.check_result(ctx, o, what + (' (repeated)' if j else ''), ids,
                                  *refs[x['opts']]):
                return
        after = snapshot(targets, templates, kw.get('archetypes'))
        for n in snap:
            if n not in after or after[n].shape != snap[n].shape or \
                    after[n].tobytes() != snap[n].tobytes():
                ctx.bad('input changed', f'{what}: {n} was modified')
                return
        if pri is not None and open(kw['priors'], 'rb').read() != pri:
            ctx.bad('input changed', f'{what}: the priors file was modified')
            return
        ctx.probes['repeated on same distributed objects'] += x['again']
    if case['hashseed']:
        other_process(case, ctx)
    ctx.nontrivial = len(case['runs']) > 1
    ctx.sample = f'{spec["n"]} targets opts={case["opts"]} then {case["opts2"]} runs=' + \
        str([(x['layout'], x['opts'], x['again']) for x in case['runs']])


def digest(case, d):
    kw = Z.prepare(case, d)
    s, z = Z.serial(W.make_targets(case['targets']), W.make_templates(case['templates']), kw)
    h = hashlib.sha256()
    for c, v in Z.tocols(z).items():
        h.update(c.encode() + np.ascontiguousarray(v).tobytes())
    for t in s:
        for ft in s[t]:
            h.update(ft.encode())
            for k in ('redshifts', 'zchi2', 'penalty', 'zcoeff'):
                h.update(np.ascontiguousarray(s[t][ft][k]).tobytes())
    return h.hexdigest()


def other_process(case, ctx):
    """The same serial run in fresh processes with different hash seeds."""
    d = ctx.scratch()
    me = digest(case, d)
    for k in (0, 1):
        d = ctx.scratch()
        e = dict(os.environ, DST_HASHSEED=str(case['hashseed'] + k), DST_ENV='0')
        p = os.path.join(d, 'case.json')
        json.dump(case, open(p, 'w'))
        q = subprocess.run([env.PY, os.path.join(env.VERIF, 'dst', 'main.py'), 'digest10', p],
                           env=e, capture_output=True, text=True, timeout=120)
        got = [x for x in q.stdout.splitlines() if x.startswith('DIGEST ')]
        if not got:
            raise RuntimeError('no result from subprocess: ' + q.stderr[-1500:])
        ctx.probes['hash seeds tried'] += 1
        if got[0].split()[1] != me:
            ctx.bad('depends on hash seed', f'other result with PYTHONHASHSEED='
                                            f'{case["hashseed"] + k}')
            return


def child(path):
    case = json.load(open(path))
    print('DIGEST', digest(case, os.path.dirname(path)))


def shrink(case):
    R = case['runs']
    if case['hashseed']:
        yield dict(case, hashseed=0)
    if len(R) > 1:
        for k in range(len(R)):
            yield dict(case, runs=R[:k] + R[k + 1:])
    for k, x in enumerate(R):
        def put(y):
            return dict(case, runs=R[:k] + [y] + R[k + 1:])
        for f in Z.drop_faults(x):
            yield put(f)
        if x['again']:
            yield put(dict(x, again=False))
        if x['opts']:
            yield put(dict(x, opts=0))
        if x['layout'][0] != 'serial':
            yield put(dict(x, layout=['serial']))
            if x['layout'][1] > 2:
                yield put(dict(x, layout=[x['layout'][0], 2]))
    if case['keep']:
        yield dict(case, keep=False)
    for c in c01.shrink_workload(case):
        yield c
