"""Deterministic simulator core: processes, scheduler, clock, fault plan, event log.

Every simulated process is a parked Python thread.  Exactly one runs at any time, and
who runs next is decided only here, by the run's seeded PRNG (or by the recorded
switch list when a replay file is executed).  Simulated processes enter the
simulator at every intercepted system call (file, lock, clock, sleep, child process)
through `Sim.syscall`, which is also the only place faults are injected.
"""
import ctypes
import errno
import gc
import hashlib
import random
import sys
import threading
import time

threading.stack_size(64 * 1024 * 1024)


class SimKilled(BaseException):
    """The simulated process received SIGKILL: nothing after this point has any effect."""


class HarnessError(Exception):
    """The simulator itself (not the code under test) is at fault."""


class StepLimit(Exception):
    """More simulator steps than the run's budget."""


class Unsupported(HarnessError):
    pass


NS = 1000000000


class Fault(object):
    """One planned fault.  Fires once at the first matching syscall with count >= at."""

    KINDS = ('kill', 'okill', 'int', 'enospc', 'eio_w', 'eio_r', 'enolck', 'short', 'cc_fail',
             'cc_die', 'emfile', 'stall', 'erofs_ren', 'net')

    def __init__(self, pid, at, kind, arg=0, skip=0):
        self.pid, self.at, self.kind, self.arg = pid, at, kind, arg
        self.skip = skip        # for faults of programs: let so many program runs pass
        self.fired = 0

    def to_json(self):
        return {'pid': self.pid, 'at': self.at, 'kind': self.kind, 'arg': self.arg, 'skip': self.skip}

    @classmethod
    def from_json(cls, d):
        return cls(d['pid'], d['at'], d['kind'], d.get('arg', 0), d.get('skip', 0))


# which syscalls a fault kind applies to
FAULT_OPS = {
    'kill': None,
    'okill': None,
    'int': None,
    'stall': None,
    'enospc': ('write', 'creat', 'mkdir'),
    'eio_w': ('write',),
    'eio_r': ('read',),
    'short': ('write',),
    'enolck': ('flock',),
    'emfile': ('open', 'creat'),
    'erofs_ren': ('rename',),
}


class Proc(object):
    def __init__(self, sim, pid, name, main, start_after=()):
        self.sim, self.pid, self.name, self.main = sim, pid, name, main
        self.start_after = start_after
        self.state = 'new'          # new, ready, blocked, done
        self.wait = None            # callable: may the blocked process go on?
        self.count = 0              # syscalls performed
        self.killed = False
        self.result = None          # ('exit', code) | ('exc', repr) | ('killed',) | ('ok', value)
        self.exc = None
        self.go = threading.Semaphore(0)
        self.thread = None
        self.on_exit = []           # run when the program ends by itself (atexit, flush)
        self.reap = []              # run always: close descriptors, drop locks
        self.block_reason = ''
        self.until = None
        self.tb = ''
        self.fds = {}
        self.files = []             # open buffered file objects (weak refs)
        self.next_fd = 1000
        self.mods = None            # sandboxed sys.modules entries
        self.pending = []           # faults aimed at this process, in order
        self.in_exit = False
        self.in_program = 0         # depth of simulated child programs
        self.prog_base_fd = 0
        self.orphan = False         # killed, but its child program runs on
        self.close_own_fds = None
        self.user = None


CPU_LIMIT = 25.0            # seconds of computation between two system calls
RSS_LIMIT = 1500 << 20      # bytes allocated meanwhile


def _rss():
    with open('/proc/self/statm') as f:
        return int(f.read().split()[1]) * 4096


class Sim(object):
    def __init__(self, seed, policy=None, switches=None, max_steps=200000, start_ns=None, dt=None):
        self.seed = seed
        self.rng = random.Random('sched/%r' % (seed,))
        self.clk = random.Random('clock/%r' % (seed,))
        self.ent = random.Random('entropy/%r' % (seed,))
        self.now = start_ns if start_ns is not None else 1700000000 * NS
        self.t0 = self.now
        self.dt = dt or (1000, 400000)      # simulated ns one syscall takes
        self.policy = policy or {'kind': 'uniform'}
        self.replay = None if switches is None else dict((s, p) for s, p in switches)
        self.switches = []                  # recorded (step, pid) deviations from default
        self.procs = []
        self.step = 0
        self.max_steps = max_steps
        self.log = []
        self.cur = None
        self.main_sem = threading.Semaphore(0)
        self.faults_fired = {}
        self.probes = {}
        self.observers = []                 # called after every event
        self.start_hooks, self.end_hooks = [], []   # callable(proc)
        self.violation = None
        self.harness_error = None
        self.stopping = False
        self.on_switch = None               # callable(proc)
        self.exec_observers = []            # callable(proc, path, argv)
        self.run_program = None             # callable(ctx, path, node) -> exit status
        self.net_open = None                # callable(proc, url)
        self.world = None
        self.prio = {}
        self.change_points = ()
        self.deadlock = None
        self.limit_hit = False
        self.stuck = None           # computes without end
        self.overlap = hashlib.sha256()
        self.last_shared = None

    # ------------------------------------------------------------------ processes
    def spawn(self, name, main, faults=(), start_after=()):
        p = Proc(self, len(self.procs), name, main, tuple(start_after))
        p.pending = sorted(faults, key=lambda f: f.at)
        p.faults = list(p.pending)
        self.procs.append(p)
        if self.policy['kind'] == 'pct':
            self.prio[p.pid] = self.rng.random()
        return p

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def event(self, op, path, info=''):
        self.log.append((self.step, self.cur.pid if self.cur else -1, op, path, info))

    def log_hash(self):
        h = hashlib.sha256()
        for e in self.log:
            h.update(repr(e).encode('utf-8', 'surrogateescape'))
        return h.hexdigest()

    def fail(self, kind, detail):
        """Record the first violation; the run is stopped at the next scheduling point."""
        if self.violation is None:
            self.violation = (kind, detail)
            self.log.append((self.step, self.cur.pid if self.cur else -1, 'VIOLATION', kind, ''))

    # ------------------------------------------------------------------ running
    def run(self):
        """Run every spawned process to completion (or until deadlock / step limit)."""
        if self.policy['kind'] == 'pct' and not self.change_points:
            k = self.policy.get('depth', 3)
            n = self.policy.get('len', 400)
            self.change_points = set(self.rng.randrange(1, n) for _ in range(k))
        gc_on = gc.isenabled()
        gc.disable()
        try:
            for p in self.procs:
                if p.state == 'new':
                    self._start(p)
            nxt = self._choose(None)
            if nxt is not None:
                self._resume(nxt)
                self._watch()
        finally:
            self._teardown()
            gc.collect()
            if gc_on:
                gc.enable()
        if self.harness_error is not None:
            raise self.harness_error
        return self

    def _watch(self):
        """Wait for the end; stop a program that computes for ever without any system call."""
        step, cpu, rss = -1, 0.0, 0
        while not self.main_sem.acquire(timeout=0.5):
            if step != self.step:
                step, cpu, rss = self.step, time.process_time(), _rss()
                continue
            if time.process_time() - cpu < CPU_LIMIT and _rss() - rss < RSS_LIMIT:
                continue
            p = self.cur
            if p is None or p.thread is None or not p.thread.is_alive():
                continue
            self.limit_hit = True
            self.stuck = p.name
            p.killed = True
            self.stopping = True
            ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(p.thread.ident), ctypes.py_object(SimKilled))
            cpu = time.process_time()

    def _start(self, p):
        p.state = 'ready'
        if p.start_after:
            deps = [self.procs[i] for i in p.start_after]
            p.state = 'blocked'
            p.wait = lambda: all(d.state == 'done' for d in deps)
        p.thread = threading.Thread(target=self._body, args=(p,), name='sim-%d' % p.pid, daemon=True)
        p.thread.start()

    def _body(self, p):
        p.go.acquire()
        try:
            if not self.stopping:
                try:
                    self._exec(p)
                except HarnessError as e:
                    if self.harness_error is None:
                        self.harness_error = e
                    self.stopping = True
                except BaseException as e:  # noqa
                    if self.harness_error is None:
                        import traceback
                        self.harness_error = HarnessError(
                            'simulator error in %s: %r\n%s' % (p.name, e, traceback.format_exc()))
                    self.stopping = True
        finally:
            p.state = 'done'
            if self.stopping:
                self.main_sem.release()
            else:
                try:
                    nxt = self._choose(p)
                except StepLimit:
                    nxt = None
                except BaseException as e:  # noqa
                    if self.harness_error is None:
                        self.harness_error = HarnessError('choose: %r' % (e,))
                    nxt = None
                if nxt is None:
                    self.main_sem.release()
                else:
                    self._resume(nxt)

    def _exec(self, p):
        self.cur = p
        self.log.append((self.step, p.pid, 'start', p.name, ''))
        for f in self.start_hooks:
            f(p)
        try:
            try:
                value = p.main(p)
                p.result = ('ok', value)
            except SimKilled:
                p.result = ('killed',)
            except SystemExit as e:
                p.result = ('exit', e.code)
            except KeyboardInterrupt:
                p.result = ('exc', 'KeyboardInterrupt', '')
            except StepLimit:
                raise
            except HarnessError:
                raise
            except BaseException as e:  # noqa: the program died with a traceback
                import traceback
                p.result = ('exc', type(e).__name__, str(e)[:400])
                p.tb = traceback.format_exc()
                e.__traceback__ = None
                e = None
            if not p.killed:
                try:
                    p.in_exit = True
                    for f in list(p.on_exit):
                        f()
                except SimKilled:
                    p.result = ('killed',)
        except StepLimit:
            p.result = ('limit',)
        finally:
            for f in p.reap:
                f(p)
            for f in self.end_hooks:
                f(p)
            self.log.append((self.step, p.pid, 'end', p.name, repr(p.result)[:60]))

    def _resume(self, p):
        self.cur = p
        if self.on_switch:
            self.on_switch(p)
        p.state = 'ready'
        p.wait = None
        p.go.release()

    def _teardown(self):
        self.stopping = True
        for p in self.procs:
            if p.thread is not None and p.state != 'done':
                p.killed = True
                p.go.release()
        for p in self.procs:
            if p.thread is not None:
                p.thread.join(20)
                if p.thread.is_alive():
                    raise HarnessError('simulated process %s did not stop' % p.name)
        self.cur = None

    # ------------------------------------------------------------------ scheduling
    def _runnable(self):
        r = []
        for p in self.procs:
            if p.state == 'ready':
                r.append(p)
            elif p.state == 'blocked' and p.wait():
                r.append(p)
        return r

    def _choose(self, cur):
        """Pick the next process.  None = nothing left to run."""
        if self.violation is not None:
            return None
        runnable = self._runnable()
        if not runnable:
            # discrete-event time: if somebody sleeps, jump to the earliest wake-up
            sleepers = [p for p in self.procs if p.state == 'blocked' and getattr(p, 'until', None)]
            if sleepers:
                self.now = max(self.now, min(p.until for p in sleepers))
                runnable = self._runnable()
        if not runnable:
            blocked = [p for p in self.procs if p.state == 'blocked']
            if blocked:
                self.deadlock = [(p.name, p.block_reason) for p in blocked]
            return None
        default = cur if cur in runnable else runnable[0]
        if len(runnable) == 1:
            return runnable[0]
        if self.replay is not None:
            want = self.replay.get(self.step)
            pick = default
            if want is not None:
                for p in runnable:
                    if p.pid == want:
                        pick = p
        else:
            k = self.policy['kind']
            if k == 'uniform':
                pick = runnable[self.rng.randrange(len(runnable))]
            elif k == 'sticky':
                if cur in runnable and self.rng.random() >= self.policy.get('p', 0.1):
                    pick = cur
                else:
                    pick = runnable[self.rng.randrange(len(runnable))]
            elif k == 'pct':
                if self.step in self.change_points and cur is not None:
                    self.prio[cur.pid] = -self.rng.random()
                pick = max(runnable, key=lambda p: (self.prio[p.pid], -p.pid))
            elif k == 'serial':
                pick = default
            else:
                raise HarnessError('unknown policy %r' % k)
        if pick is not default:
            self.switches.append((self.step, pick.pid))
        return pick

    def _yield(self, p):
        nxt = self._choose(p)
        if nxt is p:
            p.state = 'ready'
            p.wait = None
            return
        if nxt is None:
            # deadlock or violation: hand control back to the main thread and park
            if p.state != 'blocked':
                p.state = 'ready'
            self.main_sem.release()
        else:
            self._resume(nxt)
        p.go.acquire()
        if p.killed or self.stopping:
            p.killed = True
            raise SimKilled()

    # ------------------------------------------------------------------ system calls
    def syscall(self, p, op, path='', info='', yields=True):
        """Enter the simulator: advance time, maybe inject a fault, maybe run somebody else.

        Returns None, or a Fault that the caller must apply (short write and the like).
        """
        if p.killed or self.stopping:
            p.killed = True
            raise SimKilled()
        if p is not self.cur:
            raise HarnessError('syscall %s(%s) by process %s while %s runs' % (
                op, path, p.name, self.cur and self.cur.name))
        p.count += 1
        self.step += 1
        if self.step > self.max_steps:
            self.limit_hit = True
            p.killed = True
            self.stopping = True
            raise SimKilled()
        lo, hi = self.dt
        self.now += self.clk.randrange(lo, hi)
        if yields and len(self.procs) > 1:
            self._yield(p)
        self.log.append((self.step, p.pid, op, path, info))
        fault = None
        if p.pending:
            for f in p.pending:
                if p.count < f.at:
                    break
                if f.kind == 'okill' and f.arg == 'prog' and not p.in_program:
                    continue            # hits while a program is running
                ops = FAULT_OPS.get(f.kind)
                if f.kind in FAULT_OPS and (ops is None or op in ops):
                    fault = f
                    break
        if fault is not None:
            return self._inject(p, fault, op, path)
        return None

    def _fire(self, p, f):
        f.fired += 1
        p.pending.remove(f)
        self.faults_fired[f.kind] = self.faults_fired.get(f.kind, 0) + 1

    def _inject(self, p, f, op, path):
        self.log.append((self.step, p.pid, 'FAULT', f.kind, op))
        if p.in_exit:
            p.fault_in_exit = True
        if f.kind == 'kill':
            self._fire(p, f)
            if op == 'write' and f.arg:
                return f                    # torn write: the write call applies a prefix, then dies
            self.kill(p)
        if f.kind == 'okill':
            self._fire(p, f)
            if not p.in_program:
                self.kill(p)
            # only the Python process dies; the compiler it had started runs on
            p.orphan = True
            del p.pending[:]
            p.close_own_fds()
            self.probe('orphan')
            return None
        if f.kind == 'int':
            self._fire(p, f)
            raise KeyboardInterrupt()
        if f.kind == 'stall':
            self._fire(p, f)
            # the process does not get the CPU (stopped, swapped out); everybody else goes on
            until = self.now + int((f.arg or 5) * NS)
            if len(self.procs) == 1:
                self.now = until
            else:
                self.block(p, lambda: self.now >= until, 'stall', until)
            return None
        if f.kind in ('enospc', 'eio_w', 'eio_r', 'enolck', 'emfile', 'erofs_ren'):
            # arg = how many consecutive matching calls fail (0: once)
            left = f.arg or 0
            if not f.fired:
                self.faults_fired[f.kind] = self.faults_fired.get(f.kind, 0) + 1
            f.fired += 1
            if f.fired > left:
                p.pending.remove(f)
            code = {'enospc': errno.ENOSPC, 'eio_w': errno.EIO, 'eio_r': errno.EIO,
                    'enolck': errno.ENOLCK, 'emfile': errno.EMFILE,
                    'erofs_ren': errno.EIO}[f.kind]
            import os
            raise OSError(code, os.strerror(code), path or None)
        if f.kind == 'short':
            self._fire(p, f)
            return f
        return None

    def take_fault(self, p, kinds):
        """A fault of one of *kinds* that is due now (used by simulated programs)."""
        for f in p.pending:
            if p.count < f.at:
                break
            if f.kind in kinds:
                if f.skip > 0:
                    f.skip -= 1
                    continue
                self._fire(p, f)
                if p.in_exit:
                    p.fault_in_exit = True
                self.log.append((self.step, p.pid, 'FAULT', f.kind, ''))
                return f
        return None

    def kill(self, p):
        p.killed = True
        raise SimKilled()

    def block(self, p, cond, reason, until=None):
        """Park p until cond() holds."""
        while not cond():
            p.state = 'blocked'
            p.wait = cond
            p.block_reason = reason
            p.until = until
            self._yield(p)
        p.until = None
        p.state = 'ready'
        p.wait = None

    def sleep(self, p, ns):
        until = self.now + int(ns)
        self.syscall(p, 'sleep', '', '')
        if len(self.procs) == 1:
            self.now = max(self.now, until)
            return
        self.block(p, lambda: self.now >= until, 'sleep', until)
