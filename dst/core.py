"""Deterministic simulator core.

A run is a set of simulated processes, each with one main task.  A task is an
ordinary Python thread that only executes while it holds the baton; all other
threads are parked.  At every yield point (message, queue or file operation,
clock read, sleep, process start/exit) the task hands the baton back to the
scheduler, which picks what happens next with a seeded generator: another
task, the delivery of a message, a queue feeder step, the delayed effect of an
abort.  Time is virtual.  One seed is one exactly repeatable execution; an
explicit list of choices can be given instead of a seed (minimised replays).
"""
import hashlib
import io
import random
import sys
import threading
import traceback

_tls = threading.local()


class SimKill(BaseException):
    """Raised inside a task whose simulated process has been killed."""


class HarnessError(Exception):
    """The simulator itself (not the program under test) is at fault."""


def cur():
    """Current task if called from inside a simulated task, else None."""
    return getattr(_tls, 'task', None)


class NoYield:
    """Code that holds a lock of the real interpreter, shared by all simulated processes."""
    def __enter__(self):
        self.t = cur()
        if self.t is not None:
            self.t.noyield += 1

    def __exit__(self, *a):
        if self.t is not None:
            self.t.noyield -= 1
        return False


READY, BLOCKED, DONE = 0, 1, 2


class Proc:
    """A simulated process."""
    def __init__(self, sim, name, parent=None, job=None):
        self.sim = sim
        self.name = name
        self.parent = parent
        self.job = job
        self.pid = 10000 + len(sim.procs)
        self.killed = False
        self.kill_reason = None
        self.done = False
        self.exitcode = None
        self.exc = None            # (typename, text, traceback) of uncaught exception
        self.result = None
        self.out = io.StringIO()
        self.ops = {}              # op class -> count
        self.exit_hooks = []       # run by the main task when its function has returned
        self.end_hooks = []        # called (by scheduler side) when the process is gone
        self.children = []
        self.data = {}
        sim.procs.append(self)
        if parent is not None:
            parent.children.append(self)

    def __repr__(self):
        return f'<Proc {self.name}>'


class Task:
    def __init__(self, sim, proc, fn, args=(), kwargs=None, name=None):
        self.sim = sim
        self.proc = proc
        self.fn = fn
        self.args = args
        self.kwargs = kwargs or {}
        self.name = name or proc.name
        self.tid = len(sim.tasks)
        self.state = READY
        self.pred = None
        self.deadline = None
        self.label = 'start'
        self.go = threading.Semaphore(0)
        self.prio = 0
        self.kills = 0
        self.abandoned = False
        self.noyield = 0          # > 0 while a real (process-wide) lock is held
        self.thread = threading.Thread(target=self._main, daemon=True, name=self.name)
        sim.tasks.append(self)
        self.thread.start()

    # -- thread side
    def _main(self):
        _tls.task = self
        self.go.acquire()
        proc = self.proc
        sim = self.sim
        try:
            try:
                if proc.killed:
                    raise SimKill()
                sim.on_task_start(self)
                proc.result = self.fn(*self.args, **self.kwargs)
                if proc.exitcode is None:
                    proc.exitcode = 0
            except SystemExit as e:
                c = e.code
                proc.exitcode = 0 if c is None else (c if isinstance(c, int) else 1)
            except SimKill:
                pass
            except HarnessError as e:
                sim.harness_error = sim.harness_error or ''.join(traceback.format_exception(e))
            except BaseException as e:      # noqa
                if not proc.killed:         # else: what a library made of SimKill
                    proc.exitcode = 1
                    _tls.task = None        # no seams while the source is read
                    proc.exc = (type(e).__name__, str(e), ''.join(traceback.format_exception(e)))
                    _tls.task = self
            sys.setprofile(None)
            if not proc.killed:
                try:
                    for h in list(proc.exit_hooks):
                        h()
                except SimKill:
                    pass
                except HarnessError as e:
                    sim.harness_error = sim.harness_error or ''.join(traceback.format_exception(e))
        finally:
            _tls.task = None
            self.state = DONE
            if not self.abandoned:
                sim.back.release()

    def check_killed(self):
        if self.proc.killed:
            self.kills += 1
            if self.kills > 200:
                # code that swallows everything: leave the thread parked for good
                self.abandoned = True
                self.state = DONE
                self.sim.back.release()
                threading.Semaphore(0).acquire()
            raise SimKill()

    def _yield(self):
        prof = sys.getprofile()
        if prof is not None:
            sys.setprofile(None)
        self.sim.back.release()
        self.go.acquire()
        if prof is not None and not self.proc.killed:
            sys.setprofile(prof)
        self.check_killed()

    def step(self, label):
        """Yield point without blocking."""
        self.check_killed()
        if self.noyield:
            return
        self.state = READY
        self.label = label
        self._yield()

    def wait(self, pred, label, timeout=None):
        """Block until pred() holds.  Returns False on timeout."""
        self.check_killed()
        if self.noyield:
            if not pred() and timeout is None:
                raise HarnessError(f'{label}: would block while holding a real lock')
            if not pred():
                self.sim.now += max(0.0, timeout)
            return bool(pred())
        self.state = BLOCKED
        self.pred = pred
        self.label = label
        self.deadline = None if timeout is None else self.sim.now + max(0.0, timeout)
        self._yield()
        ok = pred()
        self.pred = None
        self.deadline = None
        return bool(ok)


class Event:
    """Something the environment may do (deliver a message, feed a pipe...)."""
    __slots__ = ('enabled', 'fire', 'label', 'prio', 'owner')

    def __init__(self, enabled, fire, label, owner=None):
        self.enabled = enabled
        self.fire = fire
        self.label = label
        self.prio = 0
        self.owner = owner


POLICIES = ('random', 'sticky', 'pct', 'rr', 'starve', 'lifo')


class Sim:
    def __init__(self, seed=0, choices=None, policy=None, max_steps=400000, keep_trace=False,
                 max_idle=2000):
        self.seed = seed
        self.rng = random.Random(seed)
        self.replay = list(choices) if choices is not None else None
        self.pos = 0
        self.log = []
        self.tasks = []
        self.procs = []
        self.events = []
        self.now = 1.0e9          # virtual seconds
        self.t0 = self.now
        self.back = threading.Semaphore(0)
        self.steps = 0
        self.max_steps = max_steps
        self.idle = 0             # consecutive timer advances without other progress
        self.max_idle = max_idle
        self.hash = hashlib.sha256()
        self.keep_trace = keep_trace
        self.trace = []
        self.hang = None
        self.harness_error = None
        self.faults_fired = {}
        self.injector = None      # callable(task, opclass, detail)
        self.step_hook = None
        self.violations = []      # recorded by components (mismatched collectives, ...)
        self.stats = {}
        self.last = None
        self.clock_mode = None
        if choices is not None:
            self.policy = 'replay'
        else:
            self.policy = policy or self.rng.choice(POLICIES)
        self.pct_points = set(self.rng.randrange(1, 400) for _ in range(4))
        self.starved = self.rng.randrange(0, 6)
        self.rrpos = 0
        self.timed = self.choose(2, 'timed', w0=0.5) == 1   # do steps cost visible virtual time?

    # -- choices
    def choose(self, n, kind, w0=None):
        """Pick in range(n).  0 is the benign default; w0 its probability."""
        if n <= 1:
            return 0
        if self.replay is not None:
            v = self.replay[self.pos] % n if self.pos < len(self.replay) else 0
        elif w0 is not None:
            v = 0 if self.rng.random() < w0 else 1 + self.rng.randrange(n - 1)
        else:
            v = self.rng.randrange(n)
        self.pos += 1
        self.log.append(v)
        return v

    def note(self, text):
        self.hash.update(text.encode())
        self.hash.update(b'\n')
        if self.keep_trace:
            self.trace.append(f'{self.steps} {self.now - self.t0:.3f} {text}')

    def count(self, key, n=1):
        self.stats[key] = self.stats.get(key, 0) + n

    # -- processes
    def spawn(self, name, fn, args=(), kwargs=None, parent=None, job=None, proc=None):
        p = proc or Proc(self, name, parent=parent, job=job)
        t = Task(self, p, fn, args, kwargs)
        t.prio = self.rng.random() if self.replay is None else 0
        p.main = t
        return p

    def on_task_start(self, task):
        inj = self.injector
        if inj is not None and hasattr(inj, 'task_start'):
            inj.task_start(task)

    def kill(self, proc, reason):
        """Kill a process now.  All its tasks raise SimKill when next resumed."""
        if proc.done or proc.killed:
            return
        proc.killed = True
        proc.kill_reason = reason
        proc.exitcode = -9
        self.note(f'KILL {proc.name} {reason}')

    def die(self, reason):
        """Kill the process of the current task, from inside it."""
        t = cur()
        self.kill(t.proc, reason)
        raise SimKill()

    def add_event(self, enabled, fire, label, owner=None):
        e = Event(enabled, fire, label, owner)
        if self.replay is None:
            e.prio = self.rng.random()
        self.events.append(e)
        return e

    # -- main loop
    def _enabled(self):
        out = []
        for t in self.tasks:
            if t.state == READY:
                out.append(t)
            elif t.state == BLOCKED:
                if t.proc.killed or t.pred() or (t.deadline is not None and t.deadline <= self.now):
                    out.append(t)
        for e in self.events:
            if e.enabled():
                out.append(e)
        return out

    def _pick(self, en):
        if len(en) == 1:
            return en[0]
        # benign order first: keep running the last one, then events, then tasks
        if self.last in en:
            en.remove(self.last)
            en.insert(0, self.last)
        if self.replay is not None:
            return en[self.choose(len(en), 'sched')]
        p = self.policy
        if p == 'random':
            i = self.rng.randrange(len(en))
        elif p == 'sticky':
            i = 0 if self.rng.random() < 0.85 else self.rng.randrange(len(en))
        elif p == 'pct':
            if self.steps in self.pct_points:
                self.last is not None and setattr(self.last, 'prio', self.rng.random() - 1)
            i = max(range(len(en)), key=lambda k: en[k].prio)
        elif p == 'rr':
            self.rrpos += 1
            i = self.rrpos % len(en)
        elif p == 'starve':
            cand = [k for k, x in enumerate(en)
                    if not (isinstance(x, Task) and x.tid == self.starved)]
            i = self.rng.choice(cand) if cand and self.rng.random() < 0.97 \
                else self.rng.randrange(len(en))
        else:   # lifo
            i = len(en) - 1 if self.rng.random() < 0.8 else self.rng.randrange(len(en))
        self.pos += 1
        self.log.append(i)
        return en[i]

    def _alive(self):
        return [t for t in self.tasks if t.state != DONE]

    def _reap(self):
        for p in self.procs:
            if not p.done and getattr(p, 'main', None) is not None and p.main.state == DONE:
                p.done = True
                self.note(f'EXIT {p.name} {p.exitcode}')
                for h in p.end_hooks:
                    h()

    def run(self):
        """Run until no task is left, or nothing can happen any more."""
        while True:
            self._reap()
            if self.harness_error:
                break
            alive = self._alive()
            if not alive:
                break
            en = self._enabled()
            if not en:
                dl = [t.deadline for t in alive if t.state == BLOCKED and t.deadline is not None]
                if not dl:
                    self.hang = {'kind': 'deadlock', 'waiting': self._waiting()}
                    break
                self.idle += 1
                if self.idle > self.max_idle:
                    self.hang = {'kind': 'livelock', 'waiting': self._waiting()}
                    break
                self.now = max(self.now, min(dl))
                continue
            self.steps += 1
            if self.steps > self.max_steps:
                self.hang = {'kind': 'step limit', 'waiting': self._waiting()}
                break
            if self.step_hook is not None:
                self.step_hook(self.steps)
            x = self._pick(en)
            if self.timed and self.steps % 7 == 0:
                self.now += (0.0, 0.01, 0.3, 2.0)[self.choose(4, 'dt', w0=0.7)]
            self.note(f'{x.name if isinstance(x, Task) else ""}:{x.label}')
            if isinstance(x, Task):
                if x.deadline is None:
                    self.idle = 0
                self.last = x
                x.state = READY
                x.go.release()
                self.back.acquire()
            else:
                self.idle = 0
                self.events.remove(x)
                x.fire()
        self._teardown()
        if self.harness_error:
            raise HarnessError(self.harness_error)

    def _waiting(self):
        return [f'{t.name}: {t.label}' for t in self._alive()]

    def _teardown(self):
        """Kill what is left (after a hang) so that threads end."""
        for _ in range(5):
            left = self._alive()
            if not left:
                break
            for t in left:
                if not t.proc.killed:
                    t.proc.killed = True
                    t.proc.kill_reason = t.proc.kill_reason or 'teardown'
                    if t.proc.exitcode is None:
                        t.proc.exitcode = -9
            for t in left:
                if t.state != DONE:
                    t.go.release()
                    self.back.acquire()
        self._reap()

    def digest(self):
        return self.hash.hexdigest()[:16]


# -- helpers used by the seams -------------------------------------------------

def op(opclass, detail=''):
    """Announce an operation of the current task: yield point and fault point."""
    t = cur()
    if t is None:
        return
    sim = t.sim
    t.step(f'{opclass} {detail}')
    fault_point(t, opclass, detail)


def fault_point(t, opclass, detail=''):
    p = t.proc
    n = p.ops.get(opclass, 0) + 1
    p.ops[opclass] = n
    inj = t.sim.injector
    if inj is not None:
        inj(t, opclass, n, detail)
