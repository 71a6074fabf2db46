"""Deterministic simulation kernel.

A *simulated process* is Python code that runs the real dmpbbo code with its own module instances
(dmpbbo and the simulated user code are imported afresh, so nothing in memory survives a crash or
is shared), its own random generator state, its own pid and its own view of the clock.

One simulated process at a time runs; when several are alive, each runs in a parked thread and the
kernel hands over a baton at the intercepted file-system operations (and at explicit sleeps).  Which
process runs next is decided by the kernel's pseudo-random generator, or by an explicit list of
switches when a replay file is executed.
"""

import hashlib
import heapq
import random
import sys
import threading

import numpy as np


class SimCrash(BaseException):
    """The simulated process died.  Not an Exception: nothing but cleanup code may run."""


class Violation(Exception):
    """A property does not hold.  sig identifies the kind of violation (used for minimisation)."""

    def __init__(self, sig, detail=""):
        super().__init__(f"{sig}: {detail}")
        self.sig = sig
        self.detail = str(detail)


class HarnessError(Exception):
    """Something is wrong with the harness itself."""


class StepLimit(BaseException):
    pass


class Proc:
    def __init__(self, name, fn, seed, modules):
        self.name = name
        self.fn = fn
        self.seed = seed
        self.modules = modules  # the module instances of this process
        self.sem = threading.Semaphore(0)
        self.done = False
        self.dead = False
        self.crashed = False
        self.result = None
        self.exc = None
        self.n_mut = 0  # number of mutating file operations so far
        self.n_read = 0
        self.wake = 0.0
        self.pid = 0
        self.readonly = False
        self.np_state = None
        self.py_state = None
        self.full_until = -1
        self.denied_until = -1


class Kernel:
    """Runs groups of simulated processes.  Everything is decided by (plan, code)."""

    current = None  # the kernel that is active in this worker (one at a time)

    def __init__(self, sched_seed=0, switch_prob=0.3, switches=None, faults=(), max_steps=2000000):
        self.rng = random.Random(f"sched-{sched_seed}")
        self.switch_prob = switch_prob
        # replay: dict decision number => name of the process to continue with
        self.replay = None if switches is None else {int(k): v for k, v in switches}
        self.taken = []  # switches taken: [decision number, process name]
        self.n_decisions = 0
        self.n_steps = 0
        self.max_steps = max_steps
        self.now = 0.0
        self.procs = []
        self.cur = None
        self.main_sem = threading.Semaphore(0)
        self.hash = hashlib.sha256()
        self.log = []
        self.keep_log = False
        self.n_events = 0
        self.faults = {}
        for f in faults:
            self.faults.setdefault((f["proc"], f.get("on", "mut")), []).append(f)
        self.fired = []
        self.stats = {}
        self.n_incarnations = 0
        self.context = None  # set by repo.install: callable(proc_or_None)
        self.interleaving = hashlib.sha256()
        self.stop_exc = None

    # -- bookkeeping -------------------------------------------------------------------------
    def event(self, text):
        self.n_events += 1
        self.hash.update(text.encode("utf-8", "replace") + b"\n")
        if self.keep_log:
            self.log.append(text)

    def count(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n

    def digest(self):
        return self.hash.hexdigest()

    # -- scheduling --------------------------------------------------------------------------
    def _switch_context(self, proc):
        old = self.cur
        if old is proc:
            return
        if old is not None:
            old.np_state = np.random.get_state()
            old.py_state = random.getstate()
        self.cur = proc
        if proc is not None:
            if self.context:
                self.context(proc)
            if proc.np_state is None:
                np.random.seed(proc.seed % (2**32))
                random.seed(proc.seed)
            else:
                np.random.set_state(proc.np_state)
                random.setstate(proc.py_state)

    def _alive(self):
        return [p for p in self.procs if not p.done]

    def _choose(self, may_continue):
        """Choose the process to continue with; returns None if there is none left."""
        alive = self._alive()
        if not alive:
            return None
        ready = [p for p in alive if p.wake <= self.now]
        if not ready:
            self.now = min(p.wake for p in alive)
            ready = [p for p in alive if p.wake <= self.now]
        cur = self.cur
        if len(ready) == 1:
            return ready[0]
        self.n_decisions += 1
        stay = cur if (may_continue and cur in ready) else None
        if self.replay is not None:
            want = self.replay.get(self.n_decisions)
            choice = next((p for p in ready if p.name == want), None) or stay or ready[0]
        else:
            if stay is not None and self.rng.random() >= self.switch_prob:
                choice = stay
            else:
                choice = ready[self.rng.randrange(len(ready))]
        if choice is not (stay or ready[0]):
            self.taken.append([self.n_decisions, choice.name])
        return choice

    def yield_point(self, what):
        """Called by intercepted operations of the running process."""
        self.n_steps += 1
        if self.n_steps > self.max_steps:
            raise StepLimit(f"more than {self.max_steps} steps")
        if len(self.procs) <= 1:
            return
        cur = self.cur
        nxt = self._choose(may_continue=True)
        if nxt is cur:
            return
        self.count("context_switches")
        self.interleaving.update(f"{cur.name}>{nxt.name}@{what};".encode())
        self._switch_context(nxt)
        nxt.sem.release()
        cur.sem.acquire()
        if self.stop_exc:
            raise SimCrash()

    def sleep(self, seconds):
        """The running process sleeps in simulated time."""
        p = self.cur
        p.wake = self.now + max(0.0, seconds)
        if len(self.procs) <= 1:
            self.now = p.wake
            return
        self.yield_point("sleep")

    def _body(self, p):
        try:
            p.result = p.fn()
        except SimCrash:
            p.crashed = True
        except BaseException as e:  # noqa
            p.exc = e
        p.done = True

    def _thread(self, p):
        p.sem.acquire()
        if not self.stop_exc:
            with np.errstate(all="ignore"):
                self._body(p)
            if isinstance(p.exc, (Violation, HarnessError, StepLimit)):
                self.stop_exc = p.exc
        p.done = True
        self.event(f"end {p.name} crashed={p.crashed} exc={type(p.exc).__name__}")
        if self.stop_exc:
            for q in self._alive():  # let everyone terminate, one after the other
                q.dead = True
                self._switch_context(q)
                q.sem.release()
                return
            self.main_sem.release()
            return
        nxt = self._choose(may_continue=False)
        if nxt is None:
            self.main_sem.release()
            return
        self._switch_context(nxt)
        nxt.sem.release()

    def run(self, *specs):
        """Run simulated processes until all have ended.

        Each spec is (name, function, seed[, dict of attributes]).  Returns the list of Procs, in
        the order of specs.  A violation raised inside of a process is raised here.
        """
        from simkit import repo

        procs = []
        for spec in specs:
            name, fn, seed = spec[:3]
            self.n_incarnations += 1
            p = Proc(name, fn, seed, repo.new_process_modules())
            p.pid = 1000 + self.n_incarnations
            p.wake = self.now
            for k, v in (spec[3] if len(spec) > 3 else {}).items():
                setattr(p, k, v)
            procs.append(p)
            self.event(f"start {name} seed={seed}")
        self.procs = procs
        outer = (np.random.get_state(), random.getstate())
        try:
            if len(procs) == 1:
                p = procs[0]
                self._switch_context(p)
                self._body(p)
                self.event(f"end {p.name} crashed={p.crashed} exc={type(p.exc).__name__}")
                if isinstance(p.exc, (Violation, HarnessError, StepLimit)):
                    raise p.exc
            else:
                threads = [
                    threading.Thread(target=self._thread, args=(p,), daemon=True) for p in procs
                ]
                for t in threads:
                    t.start()
                first = self._choose(may_continue=False)
                self._switch_context(first)
                first.sem.release()
                self.main_sem.acquire()
                for t in threads:
                    t.join()
                if self.stop_exc:
                    raise self.stop_exc
        finally:
            self.procs = []
            self.cur = None
            repo.leave_process()
            np.random.set_state(outer[0])
            random.setstate(outer[1])
        return procs
