"""C17: template installation never reports a broken install as success."""
import errno
import importlib.machinery
import importlib.util
import os
import pathlib
import sys

import numpy as np

from .. import env, workloads as W, zengine as Z
from ..core import SimKill, cur

ID = 'C17'
N = {'quick': 1500, 'thorough': 100000}
RULE = ('seeded state of the target directory and options, a scripted git command that succeeds, fails, '
        'is killed or delivers broken files at a seeded point, disk errors and crashes of the installer; '
        'two runs after each other; non-trivial: something was not in order')
REAL = ['bin/install_redrock_templates', 'redrock.templates']
STUB = ['git', 'clock', 'file system calls (real files below a scratch directory)']
ASSUME = ['git refuses to clone into a directory that is not empty']

mod = None


def setup():
    global mod
    import importlib.resources as ir
    import redrock.templates          # noqa: F401
    ld = importlib.machinery.SourceFileLoader('install_templates',
                                              os.path.join(env.REPO, 'bin', 'install_redrock_templates'))
    mod = importlib.util.module_from_spec(importlib.util.spec_from_loader('install_templates', ld))
    ld.exec_module(mod)
    real = ir.files

    def files(package, *a, **k):
        t = cur()
        if t is not None and package == 'redrock':
            return pathlib.Path(t.sim.code_dir)       # the installed code
        return real(package, *a, **k)
    ir.files = files


BROKEN = ['empty', 'missing', 'garbage', 'cut', 'html', 'zero', 'nolist', 'badtype', 'nothing', 'dirs']
OUTCOMES = ['ok', 'ok', 'ok', 'ok', 'ok', 'exit', 'exit-late', 'signal', 'signal-late', 'launch', 'stall'] + BROKEN


MIRROR = 'https://example.org/mirror/templates'


def gen(rng, i, tier):
    r = np.random.default_rng(rng.getrandbits(60))
    c = dict(templates=W.gen_templates(r, n=int(r.choice([1, 2, 3])), nzmax=9),
             other=W.gen_templates(r, n=int(r.choice([1, 2])), nzmax=9), style=bool(r.random() < 0.8),
             where=str(r.choice(['code', 'abs', 'abs', 'rel', 'nested'])),
             prior=str(r.choice(['absent'] * 10 + ['empty', 'good', 'broken', 'file',
                                 'link', 'dangling', 'other'])),
             preset=str(r.choice(['', '', 'good', 'none'])), version=str(r.choice(['main', 'main', 'main', '0.8', '0.8', 'bad'])),
             runs=[])
    for k in range(2):
        out = str(r.choice(OUTCOMES))
        f = None
        if r.random() < 0.3:
            f = dict(act=str(r.choice(['kill', 'kill', 'errno:EIO', 'errno:ENOSPC', 'raise', 'memory', 'short'])),
                     who=str(r.choice(['main', 'main', 'git'])), frac=float(r.random()))
        c['runs'].append(dict(out=out, frac=float(r.random()), code=int(r.choice([1, 2, 128])), fault=f,
                              intrude=bool(r.random() < 0.08)))
    c['url'] = str(r.choice(['', '', '', MIRROR, MIRROR + '.git']))
    return c


def deliver(case, store, version, mirror):
    """Files of a version of the repository; those of the mirror are the other way round."""
    if mirror:
        version = {'main': '0.8', '0.8': 'main'}[version]
    src = os.path.join(store, version)
    out = {'README': b'templates\n'}
    for x in sorted(os.listdir(src)):
        with open(os.path.join(src, x), 'rb') as f:
            out[x] = f.read()
    if not case['style']:
        out.pop('templates-default.txt')
    return out


def damage(files, what, r):
    files = dict(files)
    fits = sorted(x for x in files if x.endswith('.fits'))
    x = fits[int(r * len(fits))]
    if what == 'empty':
        return {}
    if what == 'dirs':
        return {'.git/HEAD': b'ref\n', 'sub/' + x: files[x]}
    if what == 'missing':
        if 'templates-default.txt' not in files:
            return {'README': b''}
        del files[x]
    elif what == 'garbage':
        files[x] = b'garbage ' * 900
    elif what == 'html':
        files = {k: (b'<html>404</html>' if k.endswith('.fits') else v) for k, v in files.items()}
    elif what == 'zero':
        files[x] = b''
    elif what == 'cut':
        # within the data of the basis vectors
        files[x] = files[x][:2880 * 2 + int((0.1 + 0.8 * r) * 2000)]
    elif what == 'nolist':
        files = {'templates-default.txt': b'# nothing here\n', **{k: v for k, v in files.items() if k in fits}}
    elif what == 'badtype':
        files[x] = files[x].replace(b"RRMETHOD= 'PCA", b"RRMETHOD= 'XYZ").replace(b"RRMETHOD= 'NMF", b"RRMETHOD= 'XYZ")
    return files


def tree(p):
    """What is at a path: {relative name: content}, or a description."""
    if os.path.islink(p) and not os.path.exists(p):
        return 'dangling'
    if not os.path.exists(p):
        return None
    if os.path.isfile(p):
        with open(p, 'rb') as f:
            return f.read()
    out = {}
    for a, ds, fs in os.walk(p):
        for x in ds + fs:
            q = os.path.join(a, x)
            out[os.path.relpath(q, p)] = (open(q, 'rb').read() if os.path.isfile(q) else None,
                                          os.stat(q).st_mtime_ns if os.path.isfile(q) else 0)
    return out


def contents(t):
    return {k: v[0] for k, v in t.items() if v[0] is not None} if isinstance(t, dict) else t


class Git:
    def __init__(self, case, spec, store, d):
        self.case, self.spec, self.store, self.d = case, spec, store, d
        self.launched = 0
        self.started = False
        self.delivered = None
        self.complete = False
        self.argv = None
        self.bad = None
        self.dest = None

    def handler(self, proc, argv, cwd):
        self.launched += 1
        self.argv = argv
        if self.spec['out'] == 'launch':
            e = (errno.ENOENT, errno.EACCES, errno.ENOMEM)[self.spec['code'] % 3]
            raise OSError(e, os.strerror(e), argv[0])
        return lambda: self.body(argv, cwd)

    def body(self, argv, cwd):
        self.started = True
        if argv[:2] != ['git', 'clone']:
            sys.exit(129)
        branch, pos, k = 'main', [], 2
        while k < len(argv):
            if argv[k] in ('--branch', '-b', '--depth'):
                if argv[k] != '--depth':
                    branch = argv[k + 1]
                k += 2
            elif argv[k].startswith('--branch='):
                branch = argv[k][9:]
                k += 1
            elif argv[k].startswith('-'):
                k += 1
            else:
                pos.append(argv[k])
                k += 1
        out, frac = self.spec['out'], self.spec['frac']
        if len(pos) != 2 or branch not in ('main', '0.8'):
            print('fatal: no such branch')
            sys.exit(128)
        dest = os.path.join(cwd, pos[1])
        self.dest = os.path.abspath(dest)
        if os.path.lexists(dest) and not (os.path.isdir(dest) and not os.listdir(dest)):
            print('fatal: destination path already exists and is not an empty directory')
            sys.exit(128)
        if out == 'nothing':
            return
        files = deliver(self.case, self.store, branch, 'example.org' in pos[0])
        if out in BROKEN:
            files = damage(files, out, frac)
        if out in ('exit', 'signal') and frac < 0.5:
            return self.end(out)
        try:
            made = not os.path.isdir(dest)
            os.makedirs(dest, exist_ok=True)
            os.makedirs(os.path.join(dest, '.git'), exist_ok=True)
            names = sorted(files)
            last = len(names) if out not in ('exit', 'signal') else int(frac * len(names))
            for x in names[:last]:
                q = os.path.join(dest, x)
                os.makedirs(os.path.dirname(q), exist_ok=True)
                with open(q, 'wb') as f:
                    f.write(files[x])
            if out in ('exit', 'signal', 'exit-late', 'signal-late'):
                if out == 'exit' and made and frac > 0.75:
                    import shutil
                    shutil.rmtree(dest)       # git cleans up after itself
                return self.end(out)
        except OSError as e:
            print('fatal:', e)
            sys.exit(128)
        if out == 'stall':
            import time
            time.sleep(1e5)
        self.delivered = files
        self.complete = out in ('ok', 'stall')

    def end(self, out):
        if out.startswith('signal'):
            cur().sim.kill(cur().proc, 'killed by a signal')
            raise SimKill()
        print('fatal: early EOF')
        sys.exit(self.spec['code'])


def prepare(case, d):
    store = os.path.join(d, 'store')
    W.write_template_dir(os.path.join(store, 'main'), case['templates'])
    W.write_template_dir(os.path.join(store, '0.8'), case['other'])
    code = os.path.join(d, 'code')
    os.makedirs(os.path.join(code, 'data'))
    work = os.path.join(d, 'work')
    os.makedirs(work)
    w = case['where']
    target, arg = {'code': (os.path.join(code, 'data/templates'), None),
                   'abs': (os.path.join(d, 'target'), os.path.join(d, 'target')),
                   'rel': (os.path.join(work, 'target'), 'target'),
                   'nested': (os.path.join(d, 'x/y/target'), os.path.join(d, 'x/y/target'))}[w]
    p = case['prior']
    if p != 'absent':
        os.makedirs(os.path.dirname(target), exist_ok=True)
    if p in ('empty', 'good', 'broken', 'other'):
        os.makedirs(target)
    if p in ('good', 'broken'):
        W.write_template_dir(target, case['templates'])
        if p == 'broken':
            x = [f for f in sorted(os.listdir(target)) if f.endswith('.fits')][0]
            with open(os.path.join(target, x), 'r+b') as f:
                f.truncate(700)
    elif p == 'other':
        with open(os.path.join(target, 'notes.txt'), 'w') as f:
            f.write('keep')
    elif p == 'file':
        with open(target, 'w') as f:
            f.write('a file')
    elif p == 'link':
        os.makedirs(os.path.join(d, 'linked'))
        os.symlink(os.path.join(d, 'linked'), target)
    elif p == 'dangling':
        os.symlink(os.path.join(d, 'nowhere'), target)
    # templates elsewhere must not be mistaken for those to be installed
    preset = None
    if case['preset'] == 'good':
        preset = W.write_template_dir(os.path.join(d, 'preset'), case['templates'])
    elif case['preset'] == 'none':
        preset = os.path.join(d, 'none')
    if w != 'code' and case['preset']:
        W.write_template_dir(os.path.join(code, 'data/templates'), case['templates'])
    return store, code, work, target, arg, preset


def one(ctx, case, name, spec, d, env_, faults=(), count=False):
    store, code, work, target, arg, preset = env_
    argv = ['install_redrock_templates']
    if arg is not None:
        argv += ['--outdir', arg]
    if case['version'] != 'main':
        argv += ['--version', case['version']]
    if case['url']:
        argv += ['--template-url', case['url']]
    git = Git(case, spec, store, d)
    also = []
    if spec['intrude']:
        def intruder(sim):
            import time
            time.sleep(0.01)
            try:
                os.makedirs(target)
                with open(os.path.join(target, 'mine.txt'), 'w') as f:
                    f.write('somebody else')
                git.intruded = True
            except OSError:
                pass
        also = [('intruder', intruder)]

    def body(comm, mp):
        cur().sim.exec_handler = git.handler
        cur().sim.code_dir = code
        sys.exit(mod.main())
    save = (sys.argv, os.environ.get('RR_TEMPLATE_DIR'), os.getcwd())
    sys.argv = argv
    os.environ.pop('RR_TEMPLATE_DIR', None)
    if preset:
        os.environ['RR_TEMPLATE_DIR'] = preset
    os.chdir(work)
    try:
        o = Z.run_body(ctx, name, ['serial'], body, also=also, faults=faults, count_calls=True)
    finally:
        sys.argv = save[0]
        os.chdir(save[2])
        os.environ.pop('RR_TEMPLATE_DIR', None)
        if save[1] is not None:
            os.environ['RR_TEMPLATE_DIR'] = save[1]
    return o, git


def resolve(f, o):
    inj = o.sim.injector
    proc = 'main' if f['who'] == 'main' else 'main.x0'
    if f['act'] in ('raise', 'memory'):
        n, op = inj.calls.get('main', 0), 'call'
        proc = 'main'
    else:
        op = {'kill': '*', 'short': 'fs:write'}.get(f['act'], 'fs:')
        n = sum(v for (q, c), v in inj.counts.items()
                if q == proc and c not in ('fs:stat',) and (op == '*' or c.startswith(op)))
        if op == 'fs:':
            cand = sorted(c for (q, c) in inj.counts if q == proc and c in ('fs:open', 'fs:read', 'fs:create',
                                                                            'fs:write', 'fs:mkdir', 'fs:list'))
            if not cand:
                return []
            op = cand[int(f['frac'] * 97 % 1 * len(cand))]
            n = inj.counts[(proc, op)]
    return [dict(proc=proc, op=op, n=1 + int(f['frac'] * n), act=f['act'])] if n else []


def run(case, ctx):
    import copy
    import shutil
    d = ctx.scratch()
    env_ = prepare(case, d)
    target = env_[3]
    for k, spec in enumerate(case['runs']):
        faults = []
        if spec['fault']:
            d2 = ctx.scratch()
            shutil.rmtree(d2)
            shutil.copytree(d, d2, symlinks=True)
            e2 = tuple(x.replace(d, d2) if isinstance(x, str) else x for x in env_)
            if os.path.islink(e2[3]):
                to = os.readlink(e2[3]).replace(d, d2)
                os.remove(e2[3])
                os.symlink(to, e2[3])
            o, _ = one(ctx, case, f'pilot{k}', copy.deepcopy(spec), d2, e2)
            faults = resolve(spec['fault'], o)
        before = tree(target)
        o, git = one(ctx, case, f'run{k}', spec, d, env_, faults)
        after = tree(target)
        fired = o.sim.injector.fired
        code = o.exitcodes[0]
        w = f'run {k}: outdir {case["where"]}, {case["prior"]} before, version {case["version"]}, git: ' \
            f'{spec["out"]}{", intruder" if spec["intrude"] else ""}' + \
            (f', faults {[{a: b for a, b in f.items() if a not in ("left", "fired")} for f in fired]}' if fired else '')
        ctx.sample = w
        ctx.nontrivial |= spec['out'] != 'ok' or bool(fired) or before is not None
        ctx.note((k, code, git.launched, sorted(contents(after)) if isinstance(after, dict) else str(after)))
        ctx.probes['reported success'] += code == 0
        ctx.probes['git delivered broken files'] += git.delivered is not None and not git.complete
        if o.hang:
            return ctx.bad('hang', f'{w}: {o.describe()}')
        if before not in (None, 'dangling'):
            if before != after:
                return ctx.bad('existing directory modified', f'{w}: {names(before)} became {names(after)}')
            if code == 0:
                return ctx.bad('false success', f'{w}: the directory existed already')
            continue
        intruded = getattr(git, 'intruded', False)
        if intruded and (not isinstance(after, dict) or 'mine.txt' not in after):
            return ctx.bad('existing directory modified', f'{w}: a directory made meanwhile became {names(after)}')
        if code == 0:
            want = deliver(case, env_[0], case['version'], case['url']) if case['version'] != 'bad' else None
            have = contents(after)
            if isinstance(have, dict) and intruded:
                have.pop('mine.txt', None)
            if not git.complete or have != want:
                return ctx.bad('false success', f'{w}: {names(after)} in the target directory, '
                               f'{sorted(want or ())} requested')
            if 'error' in loads(case, target):
                return ctx.bad('false success', f'{w}: the templates cannot be loaded')
        elif git.complete and not fired and not intruded and case['version'] != 'bad':
            return ctx.bad('false failure', f'{w}: exit code {code} although templates are in place: '
                           f'{o.describe()} {o.out[-300:]}')


def names(t):
    return sorted(t) if isinstance(t, dict) else t if t is None else str(t)[:40]


def loads(case, target):
    from redrock.templates import load_templates
    try:
        with W.quiet():
            n = len(load_templates(target))
    except Exception as e:
        return f'error {e}'
    return 'ok' if n else 'error: none'


def shrink(case):
    for k in range(len(case['runs'])):
        if len(case['runs']) > 1:
            yield dict(case, runs=case['runs'][:k] + case['runs'][k + 1:])
        s = case['runs'][k]
        for kw in (dict(fault=None), dict(intrude=False), dict(out='ok')):
            if any(s[a] != b for a, b in kw.items()):
                yield dict(case, runs=case['runs'][:k] + [dict(s, **kw)] + case['runs'][k + 1:])
    for a, v in (('prior', 'absent'), ('where', 'abs'), ('preset', ''), ('version', 'main'), ('style', True), ('url', '')):
        if case[a] != v:
            yield dict(case, **{a: v})
    for a in ('templates', 'other'):
        if len(case[a]) > 1:
            yield dict(case, **{a: case[a][:1]})
