"""Fault injection.

A fault is a dict: proc (exact name, or prefix ending with '*'), op (operation
class or prefix, '*' for any operation, 'call' for a Python call into redrock),
n (which occurrence, 1-based), act, and optional arguments.

act: kill       the process dies here (nothing it does later has an effect)
     raise      RuntimeError at this point
     memory     MemoryError
     interrupt  KeyboardInterrupt (as after SIGINT)
     errno:X    OSError(X); file operations only
     sticky:X   OSError(X) here and at every later write/create/close of the process
     short      this write is cut short (the caller must loop)
     stall      the process sleeps for a long (virtual) time
     clock      the process' clock jumps by `dt` seconds
     exit       SystemExit(code)
op 'step': act (kill, or stall) hits the process at scheduler step n, whatever it is doing then,
for instance half-way through a write to a full pipe.  With all=True it hits every process of the run.
"""
import errno
import sys

from .core import SimKill, cur

WRITE_OPS = ('fs:create', 'fs:write', 'fs:close', 'fs:truncate', 'fs:mkdir', 'fs:rename')


class InjectedError(RuntimeError):
    pass


def _match(pat, name):
    return pat == name or pat == '*' or (pat.endswith('*') and name.startswith(pat[:-1]))


class Injector:
    """Counts operations per process and class; fires the faults of a list."""

    def __init__(self, sim, faults=(), count_calls=False):
        self.sim = sim
        self.faults = [dict(f, left=f.get('n', 1)) for f in faults]
        self.count_calls = count_calls
        self.counts = {}            # (proc name, op class) -> number
        self.calls = {}
        self.sticky = {}
        self.suspended = False
        self.watched = {}           # part of a path -> operations on it so far
        sim.injector = self
        self.marks = {}             # name -> [(op class, calls so far, scheduler steps, detail)]
        self.steps = [f for f in self.faults if f['op'] == 'step']
        if self.steps:
            sim.step_hook = self._step

    # -- process start: install the call hook
    def task_start(self, task):
        name = task.proc.name
        mine = [f for f in self.faults if f['op'] == 'call' and _match(f['proc'], name)]
        if not mine and not self.count_calls:
            return
        self._profile(task, mine)

    def _profile(self, task, mine):
        name = task.proc.name
        state = {'n': 0}
        calls = self.calls

        def prof(frame, event, arg):
            if event != 'call':
                return
            fn = frame.f_code.co_filename
            if '/redrock/' not in fn and '/bin/' not in fn:
                return
            if frame.f_code.co_name.startswith('<'):
                return
            state['n'] += 1
            calls[name] = state['n']
            for f in mine:
                f['left'] -= 1
                if f['left'] == 0:
                    self._fire(f, task, 'call', frame.f_code.co_name)
        sys.setprofile(prof)

    # -- scheduler steps
    def _step(self, n):
        for f in self.steps:
            if f['left'] > 0 and n >= f['n']:
                for p in self.sim.procs:
                    if _match(f['proc'], p.name) and not p.done and not p.killed:
                        f['left'] = 0
                        f['fired'] = True
                        self._count(f'{f["act"]} at step')
                        self.sim.note(f'FAULT {f["act"]} {p.name} step {p.main.label}')
                        for q in (self.sim.procs if f.get('all') else [p]):
                            self.sim.kill(q, 'injected kill')
                        break

    # -- operations
    def __call__(self, task, opclass, n, detail):
        name = task.proc.name
        if self.suspended:
            return
        for w in self.watched:
            if w in detail:
                self.watched[w] += 1
        k = (name, opclass)
        self.counts[k] = self.counts.get(k, 0) + 1
        if self.count_calls:
            self.marks.setdefault(name, []).append(
                (opclass, self.calls.get(name, 0), self.sim.steps, detail))
        st = self.sticky.get(name)
        if st and opclass in WRITE_OPS:
            self._count(f'sticky:{st}')
            raise OSError(getattr(errno, st), f'injected {st}', detail)
        for f in self.faults:
            if f['left'] > 0 and f['op'] not in ('call', 'step') and _match(f['proc'], name) and \
                    (f['op'] == '*' or opclass.startswith(f['op'])):
                if f.get('path') and f['path'] not in detail:
                    continue
                f['left'] -= 1
                if f['left'] == 0:
                    self._fire(f, task, opclass, detail)

    def feeder(self, proc):
        """The queue feeder of proc is about to write."""
        for f in self.faults:
            if f['left'] > 0 and f['op'] == 'feeder' and _match(f['proc'], proc.name):
                f['left'] -= 1
                if f['left'] == 0:
                    self._count('kill at feeder')
                    self.sim.kill(proc, 'injected kill (feeder)')

    def fork(self, parent):
        self.__call__(cur(), 'fork', 0, '')

    def _count(self, what):
        d = self.sim.faults_fired
        d[what] = d.get(what, 0) + 1

    def _fire(self, f, task, opclass, detail):
        act = f['act']
        sim = self.sim
        sim.note(f'FAULT {act} {task.proc.name} {opclass} {detail}')
        self._count(f'{act} at {opclass}')
        f['fired'] = True
        if act == 'kill':
            sim.kill(task.proc, 'injected kill')
            raise SimKill()
        if act == 'kill-job':
            task.proc.job.procs and [sim.kill(p, 'injected job kill')
                                     for q in task.proc.job.procs for p in _tree(q)]
            raise SimKill()
        if act == 'raise':
            raise InjectedError('injected failure')
        if act == 'interrupt':
            raise KeyboardInterrupt('injected')
        if act == 'memory':
            raise MemoryError('injected')
        if act.startswith('errno:'):
            e = act[6:]
            raise OSError(getattr(errno, e), f'injected {e}', detail)
        if act.startswith('sticky:'):
            e = act[7:]
            self.sticky[task.proc.name] = e
            raise OSError(getattr(errno, e), f'injected {e}', detail)
        if act == 'short':
            sim.short_write = True
        elif act == 'stall':
            task.wait(lambda: False, 'stalled', timeout=f.get('dt', 5000.0))
            sim.idle = 0
        elif act == 'clock':
            task.proc.data['clock_offset'] = task.proc.data.get('clock_offset', 0.0) \
                + f.get('dt', -3600.0)
        elif act == 'exit':
            raise SystemExit(f.get('code', 1))

    @property
    def fired(self):
        return [f for f in self.faults if f.get('fired')]


def _tree(p):
    out = [p]
    for c in p.children:
        out += _tree(c)
    return out
