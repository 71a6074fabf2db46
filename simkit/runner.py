"""Runs checks: seeded search over plans, minimisation, replay files, evidence.

A *plan* is a JSON object which, with the code under test, determines one simulated execution
completely.  A check makes plans from a seed (check.plan) and executes them (check.execute).
"""

import copy
import fcntl
import hashlib
import json
import os
import random
import select
import shutil
import signal
import struct
import sys
import tempfile
import threading
import time
import traceback
import warnings

import numpy as np

from simkit import repo, simfs
from simkit.kernel import HarnessError, Kernel, SimCrash, StepLimit, Violation

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N_WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))
CPU_LIMIT = 150.0  # seconds of CPU time after which a run counts as not terminating
MAX_REPORTED = 1


def _jsonable(x):
    if isinstance(x, dict):
        return {str(k): _jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, np.floating):
        return float(x)
    return x


class Ctx:
    """What one simulated execution may use: scratch directory, kernels, statistics."""

    def __init__(self, plan, scratch, keep_log=False):
        self.plan = plan
        self.scratch = scratch
        self.keep_log = keep_log
        self.kernels = []
        self.stats = {}
        self.sim_time = 0.0
        self.states = set()
        self.is_nontrivial = False
        self.hash = hashlib.sha256()
        self.notes = []
        simfs.reset_names()
        simfs.set_root(scratch, plan.get("bufsize", 8192))
        simfs._state["salt"] = str(plan.get("salt", 0))

    def dir(self, name):
        path = os.path.join(self.scratch, name)
        os.makedirs(path, exist_ok=True)
        return path

    def kernel(self, name="main", faults=(), switch_prob=None, **kw):
        replay = self.plan.get("switches", {}).get(name) if self.plan.get("switches") else None
        if self.plan.get("switches") is not None and replay is None:
            replay = []
        k = Kernel(
            sched_seed=f"{self.plan.get('sched_seed', 0)}-{name}",
            switch_prob=self.plan.get("switch_prob", 0.3) if switch_prob is None else switch_prob,
            switches=replay,
            faults=faults,
            max_steps=kw.pop("max_steps", 400000),
        )
        k.name = name
        k.keep_log = self.keep_log
        k.context = repo.switch_to
        self.kernels.append(k)
        Kernel.current = k
        return k

    def count(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n

    def record(self, *items):
        """Add observed values to the digest of this execution."""
        for it in items:
            if isinstance(it, np.ndarray):
                self.hash.update(str(it.shape).encode() + np.ascontiguousarray(it).tobytes())
            else:
                self.hash.update(repr(it).encode() + b"|")

    def state(self, *items):
        """Count a distinct state reached."""
        h = hashlib.md5()
        for it in items:
            if isinstance(it, np.ndarray):
                h.update(np.ascontiguousarray(it).tobytes())
            else:
                h.update(repr(it).encode())
        self.states.add(h.digest()[:8])

    def nontrivial(self):
        self.is_nontrivial = True

    def digest(self):
        h = self.hash.copy()
        for k in self.kernels:
            h.update(k.digest().encode())
        return h.hexdigest()

    def ok(self, procs):
        """No simulated process may have ended with an exception."""
        for p in procs:
            if p.exc is not None:
                raise Violation(f"exception:{type(p.exc).__name__}", fmt_exc(p.exc, p.name))
        return procs

    def check(self, cond, sig, detail=""):
        if not cond:
            raise Violation(sig, detail() if callable(detail) else detail)


def fmt_exc(e, who=""):
    tb = traceback.extract_tb(e.__traceback__)
    where = [f"{os.path.basename(f.filename)}:{f.lineno} {f.name}" for f in tb][-6:]
    return f"{who}: {type(e).__name__}: {str(e)[:300]} at {' < '.join(reversed(where))}"


# -- executing one plan ------------------------------------------------------------------------
class _Timeout(BaseException):
    pass


def _on_alarm(sig, frame):
    raise _Timeout()


def clear_dir(path):
    for e in os.listdir(path):
        full = os.path.join(path, e)
        if os.path.isdir(full) and not os.path.islink(full):
            shutil.rmtree(full)
        else:
            os.remove(full)


def execute(check, plan, scratch, keep_log=False):
    """Execute a plan.  Returns a result dictionary (outcome ok / violation / harness error)."""
    clear_dir(scratch)
    plan = copy.deepcopy(plan)
    ctx = Ctx(plan, scratch, keep_log)
    out = {"outcome": "ok", "sig": None, "detail": None}
    np.random.seed(12345)
    random.seed(12345)
    signal.signal(signal.SIGVTALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
    try:
        with np.errstate(all="ignore"), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            check.execute(plan, ctx)
    except Violation as v:
        out.update(outcome="violation", sig=v.sig, detail=v.detail)
    except HarnessError as e:
        out.update(outcome="harness", sig="harness", detail=fmt_exc(e))
    except (_Timeout, StepLimit) as e:
        out.update(outcome="violation", sig="no-termination", detail=fmt_exc(e))
    except MemoryError as e:
        out.update(outcome="harness", sig="memory", detail=fmt_exc(e))
    except SimCrash:
        out.update(outcome="harness", sig="simcrash escaped", detail=traceback.format_exc())
    except Exception as e:  # noqa
        out.update(outcome="violation", sig=f"exception:{type(e).__name__}", detail=fmt_exc(e))
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        Kernel.current = None
    repo.leave_process()
    stats = dict(ctx.stats)
    fired = []
    switches = {}
    inter = hashlib.sha256()
    n_sw = 0
    for k in ctx.kernels:
        for s, n in k.stats.items():
            stats[s] = stats.get(s, 0) + n
        fired.extend(k.fired)
        if k.taken:
            switches.setdefault(k.name, []).extend(k.taken)
        n_sw += k.stats.get("context_switches", 0)
        inter.update(k.interleaving.digest())
        ctx.sim_time += k.now
    out.update(
        digest=ctx.digest(),
        stats=stats,
        fired=fired,
        switches=switches,
        interleaving=inter.hexdigest()[:16] if n_sw else None,
        states=ctx.states,
        sim_time=ctx.sim_time,
        nontrivial=ctx.is_nontrivial or bool(fired) or n_sw > 0,
        events=sum(k.n_events for k in ctx.kernels),
        notes=ctx.notes,
    )
    if keep_log:
        out["log"] = [line for k in ctx.kernels for line in ([f"--- kernel {k.name}"] + k.log)]
    return out


def make_plan(check, seed, tier, i):
    rng = random.Random(f"{check.id}-{seed}-{i}")
    plan = check.plan(rng, tier, i)
    plan.setdefault("sched_seed", rng.randrange(2**31))
    plan.setdefault("switch_prob", rng.choice([0.05, 0.2, 0.5, 0.9]))
    plan.setdefault("salt", rng.randrange(1000))
    plan.setdefault("bufsize", rng.choice([64, 512, 8192]))
    plan["index"] = i
    return _jsonable(plan)


# Signals by which code under test (compiled, or called by compiled code) ends the process
DEADLY = (signal.SIGABRT, signal.SIGSEGV, signal.SIGBUS, signal.SIGFPE, signal.SIGILL)
DIED = "process-died"


def died(number):
    return {"outcome": "violation", "sig": DIED, "detail": f"by {signal.Signals(number).name}",
            "fired": [], "switches": {}, "digest": None, "log": []}


def execute_forked(check, plan, scratch):
    """Execute a plan that may end the process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        res = {"outcome": "harness", "sig": "child", "detail": "did not report"}
        try:
            os.close(r)
            full = execute(check, plan, scratch)
            res = {k: full[k] for k in ("outcome", "sig", "detail")}
        finally:
            _send(w, res)
            os._exit(0)
    os.close(w)
    data = b""
    while True:
        piece = os.read(r, 1 << 20)
        if not piece:
            break
        data += piece
    os.close(r)
    status = os.waitpid(pid, 0)[1]
    if os.WIFSIGNALED(status) and os.WTERMSIG(status) in DEADLY:
        return died(os.WTERMSIG(status))
    res = {"outcome": "harness", "sig": "child", "detail": f"ended with status {status}"}
    if len(data) > 4:
        res = json.loads(data[4:])
    return dict(res, fired=[], switches={}, digest=None, log=[])


# -- minimisation ------------------------------------------------------------------------------
def _get(plan, path):
    for p in path:
        if not isinstance(plan, dict) or p not in plan:
            return None
        plan = plan[p]
    return plan


def _with(plan, path, value):
    plan = copy.deepcopy(plan)
    d = plan
    for p in path[:-1]:
        d = d[p]
    d[path[-1]] = value
    return plan


def minimise(check, plan, result, scratch, budget_s=60.0):
    """Delta debugging over the lists of the plan; the signature has to stay the same."""
    t_end = simfs.real["time.monotonic"]() + budget_s
    sig = result["sig"]
    best, best_res = plan, result
    tried = 0

    def attempt(cand):
        nonlocal best, best_res, tried
        if simfs.real["time.monotonic"]() > t_end:
            return False
        tried += 1
        res = (execute_forked if sig == DIED else execute)(check, cand, scratch)
        if res["outcome"] == "violation" and res["sig"] == sig:
            best, best_res = cand, res
            return True
        return False

    # from seeded scheduling to an explicit list of switches
    attempt({**copy.deepcopy(best), "switches": best_res["switches"]})

    progress = True
    rounds = 0
    while progress and rounds < 4 and simfs.real["time.monotonic"]() < t_end:
        progress = False
        rounds += 1
        paths = [tuple(p) for p in getattr(check, "shrink_lists", [("ops",), ("faults",)])]
        paths += [("switches", n) for n in (best.get("switches") or {})]
        for path in paths:
            lst = _get(best, path)
            if not isinstance(lst, list):
                continue
            size = max(1, len(lst) // 2)
            while lst and size >= 1 and simfs.real["time.monotonic"]() < t_end:
                pos, changed = 0, False
                while pos < len(lst):
                    cand = lst[:pos] + lst[pos + size :]
                    if attempt(_with(best, path, cand)):
                        lst = cand
                        changed = progress = True
                    else:
                        pos += size
                if not changed or size > len(lst):
                    size //= 2
        for cand in check.simplify(copy.deepcopy(best)):
            if simfs.real["time.monotonic"]() > t_end:
                break
            if cand != best and attempt(_jsonable(cand)):
                progress = True
    return best, best_res, tried


# -- worker pool -------------------------------------------------------------------------------
def _send(fd, obj):
    data = json.dumps(obj).encode()
    data = struct.pack("<I", len(data)) + data
    while data:
        n = simfs.real["os.write"](fd, data)
        data = data[n:]


def _worker(check, seed, tier, n_runs, w, n_workers, fd, deadline, stop_at, base_tmp, current):
    scratch = os.path.join(base_tmp, f"w{w}")
    os.makedirs(scratch)
    wake = simfs.real["time.monotonic"]
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    agg = {
        "runs": 0, "nontrivial": 0, "stats": {}, "sim_time": 0.0, "events": 0, "determinism": 0,
        "samples": [],
    }
    digests, inters, states = set(), set(), set()
    sent = None
    i = w
    while i < n_runs:
        if wake() > deadline or i > stop_at.value:
            break
        try:
            plan = make_plan(check, seed, tier, i)
            current.value = i
            res = execute(check, plan, scratch)
            if i % 40 == w % 40 and res["outcome"] == "ok":
                again = execute(check, plan, scratch)
                agg["determinism"] += 1
                if again["digest"] != res["digest"]:
                    res = again
                    res.update(outcome="harness", sig="nondeterminism", detail=f"run {i}")
        except BaseException:  # noqa
            plan, res = None, {
                "outcome": "harness", "sig": "worker", "detail": traceback.format_exc()[-1500:]
            }
        if res["outcome"] != "ok":
            stop_at.value = min(stop_at.value, i)
            sent = {"i": i, "plan": plan, "outcome": res["outcome"], "sig": res["sig"],
                    "detail": res["detail"]}
            if res["outcome"] == "violation":
                agg["runs"] += 1
            break
        agg["runs"] += 1
        for s, n in res["stats"].items():
            agg["stats"][s] = agg["stats"].get(s, 0) + n
        agg["sim_time"] += res["sim_time"]
        agg["events"] += res["events"]
        if res["nontrivial"]:
            digests.add(res["digest"][:16])
        if res["interleaving"]:
            inters.add(res["interleaving"])
        if len(states) < 400000:
            states |= res["states"]
        if len(agg["samples"]) < 1 and res["nontrivial"]:
            agg["samples"].append({"plan": _trim(plan), "faults_fired": res["fired"][:5],
                                   "events": res["events"]})
        i += n_workers
    agg["found"] = sent
    agg["digests"] = sorted(digests)
    agg["inters"] = sorted(inters)
    agg["states"] = [s.hex() for s in sorted(states)]
    _send(fd, agg)


def _trim(x, depth=0):
    if isinstance(x, dict):
        return {k: _trim(v, depth + 1) for k, v in x.items()}
    if isinstance(x, list):
        return [_trim(v, depth + 1) for v in x[:12]] + (["..."] if len(x) > 12 else [])
    return x


class _Shared:
    """An integer shared between the forked workers."""

    def __init__(self, value):
        import mmap

        self._m = mmap.mmap(-1, 8)
        self.value = value

    @property
    def value(self):
        return struct.unpack("<q", self._m[:8])[0]

    @value.setter
    def value(self, v):
        self._m[:8] = struct.pack("<q", v)


def run_check(check, tier, seed, n_runs=None, wall=None):
    t0 = simfs.real["time.monotonic"]()
    n_runs = n_runs or check.runs[tier]
    wall = wall or {"quick": 240.0, "thorough": 780.0}[tier]
    base_tmp = tempfile.mkdtemp(prefix=f"verif-{check.id}-")
    base_tmp = os.path.realpath(base_tmp)
    code = 2
    try:
        repo.install()
        _preimport()
        check.setup(base_tmp)
        simfs.install()
        stop_at = _Shared(2**40)
        pipes, pids, current = [], [], []
        sys.stdout.flush()
        sys.stderr.flush()
        n_workers = max(1, min(N_WORKERS, n_runs))
        for w in range(n_workers):
            r, wr = os.pipe()
            current.append(_Shared(-1))
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    _worker(check, seed, tier, n_runs, w, n_workers, wr, t0 + wall, stop_at, base_tmp,
                            current[w])
                except BaseException:  # noqa
                    traceback.print_exc()
                finally:
                    os._exit(0)
            os.close(wr)
            pipes.append(r)
            pids.append(pid)
        results, statuses = _collect(pipes, pids, t0 + wall + 2 * CPU_LIMIT + 120)
        for w, status in enumerate(statuses):
            i = current[w].value
            if results[w] is None and os.WIFSIGNALED(status) and i >= 0:
                if os.WTERMSIG(status) in DEADLY:
                    d = died(os.WTERMSIG(status))
                    results[w] = {"runs": 0, "sim_time": 0.0, "events": 0, "determinism": 0,
                                  "stats": {}, "samples": [], "digests": [], "inters": [],
                                  "states": [], "found": {
                                      "i": i, "plan": make_plan(check, seed, tier, i),
                                      **{k: d[k] for k in ("outcome", "sig", "detail")}}}
        code = _report(check, tier, seed, n_runs, results, base_tmp, t0)
    finally:
        simfs.set_root(None)
        shutil.rmtree(base_tmp, ignore_errors=True)
    return code


def _preimport():
    """Import the heavy third-party modules before forking."""
    import inspect  # noqa
    import jsonpickle  # noqa
    import jsonpickle.ext.numpy  # noqa
    import matplotlib  # noqa

    matplotlib.use("Agg")
    import matplotlib.pyplot  # noqa
    import pandas  # noqa
    import scipy.stats  # noqa


def _collect(pipes, pids, deadline):
    now = simfs.real["time.monotonic"]
    bufs = {p: b"" for p in pipes}
    open_pipes = set(pipes)
    while open_pipes:
        left = deadline - now()
        if left <= 0:
            break
        ready, _, _ = select.select(list(open_pipes), [], [], min(left, 5.0))
        for p in ready:
            data = os.read(p, 1 << 20)
            if not data:
                open_pipes.discard(p)
            else:
                bufs[p] += data
    statuses = []
    for pid in pids:
        if open_pipes:
            try:
                os.kill(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        statuses.append(os.waitpid(pid, 0)[1])
    out = []
    for p in pipes:
        os.close(p)
        b = bufs[p]
        if len(b) >= 4 and len(b) - 4 == struct.unpack("<I", b[:4])[0]:
            out.append(json.loads(b[4:]))
        else:
            out.append(None)
    return out, statuses


def _report(check, tier, seed, n_runs, results, base_tmp, t0):
    now = simfs.real["time.monotonic"]
    tot = {"runs": 0, "stats": {}, "sim_time": 0.0, "events": 0, "determinism": 0, "samples": []}
    digests, inters, states = set(), set(), set()
    lost = 0
    found = []
    for r in results:
        if r is None:
            lost += 1
            continue
        for k in ("runs", "sim_time", "events", "determinism"):
            tot[k] += r[k]
        for s, n in r["stats"].items():
            tot["stats"][s] = tot["stats"].get(s, 0) + n
        if len(tot["samples"]) < 3:
            tot["samples"].extend(r["samples"])
        digests.update(r["digests"])
        inters.update(r["inters"])
        states.update(r["states"])
        if r["found"]:
            found.append(r["found"])
    t_search = now() - t0
    found.sort(key=lambda f: f["i"])
    code = 0
    lines = []
    n_viol = 0
    viol = next((f for f in found if f["outcome"] == "violation"), None)
    for f in found:
        if f["outcome"] == "harness":
            lines.append(f"HARNESS-ERROR run={f['i']} {f['sig']}: {f['detail']}")
            code = 2
    if lost:
        lines.append(f"HARNESS-ERROR {lost} worker(s) did not report")
        code = 2
    if viol:
        scratch = os.path.join(base_tmp, "min")
        os.makedirs(scratch, exist_ok=True)
        path, text = _make_replay(check, tier, seed, viol, scratch)
        if path:
            known = known_finding(check.id, viol["sig"], viol["detail"])
            if known:
                lines.append(f"KNOWN-FINDING: property={check.id} {known}")
            else:
                lines.append(text)
                lines.append(f"VIOLATION property={check.id} replay={path}")
                n_viol = 1
                code = 1
        else:
            lines.append(text)
            code = 2
    wall = now() - t0
    faults = {k[6:]: v for k, v in sorted(tot["stats"].items()) if k.startswith("fault:")}
    fault_ops = {k[9:]: v for k, v in sorted(tot["stats"].items()) if k.startswith("fault_op:")}
    other = {k: v for k, v in sorted(tot["stats"].items()) if not k.startswith("fault")}
    runs = tot["runs"]
    evidence = {
        "property": check.id,
        "tier": tier,
        "seed": seed,
        "level": check.level,
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(digests),
            "rule": check.rule + " A run is non-trivial if a fault was injected, simulated"
            " processes were interleaved or the scenario's own condition was met (see rule);"
            " distinct by the hash of its complete event log and observed values.",
            "samples": tot["samples"] or [{"note": "no run completed"}],
            "planned_runs": n_runs,
            "runs_per_hour": round(runs / max(t_search, 1e-3) * 3600),
            "seeds_per_hour": round(runs / max(t_search, 1e-3) * 3600),
            "simulated_time_s": round(tot["sim_time"], 3),
            "simulated_events": tot["events"],
            "faults_injected": faults,
            "fault_points": fault_ops,
            "distinct_interleavings": len(inters),
            "distinct_states": len(states),
            "state_measure": check.state_measure,
            "determinism_reruns": tot["determinism"],
            "counters": other,
            "components_real": check.real,
            "components_stub": check.stub,
        },
        "assumptions": check.assumptions,
        "wall_s": round(wall, 2),
        "violations": n_viol,
    }
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    with open(os.path.join(evdir, f"{check.id}.json"), "w") as f:
        json.dump(evidence, f, indent=1)
    print(
        f"{check.id} tier={tier} seed={seed}: {runs}/{n_runs} runs in {t_search:.1f} s, "
        f"{len(digests)} distinct non-trivial, {len(inters)} interleavings, {len(states)} states, "
        f"faults {faults}"
    )
    for line in lines:
        print(line)
    sys.stdout.flush()
    return code


def _make_replay(check, tier, seed, viol, scratch):
    """Confirm, minimise and write the replay file."""
    saved = os.dup(1)
    sys.stdout.flush()
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    try:
        plan = viol["plan"]
        deadly = viol["sig"] == DIED
        r1 = (execute_forked if deadly else execute)(check, plan, scratch)
        if r1["outcome"] != "violation" or r1["sig"] != viol["sig"]:
            return None, (
                f"HARNESS-ERROR violation {viol['sig']} of run {viol['i']} did not reproduce: "
                f"{viol['detail']} vs {r1['outcome']} {r1['sig']} {r1['detail']}"
            )
        slow = r1["sig"] == "no-termination"
        best, res, tried = (plan, r1, 0) if slow else minimise(check, plan, r1, scratch)
        final = (execute_forked(check, best, scratch) if deadly
                 else execute(check, best, scratch, keep_log=True))
    finally:
        sys.stdout.flush()
        os.dup2(saved, 1)
        os.close(saved)
        os.close(devnull)
    rdir = os.path.join(HERE, "evidence", "replays")
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, f"{check.id}-seed{seed}-run{viol['i']}.json")
    with open(path, "w") as f:
        json.dump(
            {
                "property": check.id,
                "seed": seed,
                "tier": tier,
                "run": viol["i"],
                "violation": final["sig"],
                "detail": final["detail"],
                "plan": best,
                "original_plan": plan if best != plan else None,
                "faults_fired": final["fired"],
                "switches": final["switches"],
                "digest": final["digest"],
                "minimisation_attempts": tried,
                "trace": final["log"][-400:],
            },
            f,
            indent=1,
        )
    return path, f"violated: {final['sig']}: {final['detail']}"


def known_finding(pid, sig, detail):
    """Known findings: lines 'finding: property=<id> sig=<regex> :: <description>'."""
    import re

    path = os.path.join(HERE, "known_findings.txt")
    if not os.path.exists(path):
        return None
    for line in open(path):
        m = re.match(r"finding: property=(\S+) sig=(\S+) :: (.*)", line)
        if m and m.group(1) == pid and re.fullmatch(m.group(2), sig):
            return m.group(3)
    return None


def replay(check, path):
    with open(path) as f:
        data = json.load(f)
    base_tmp = os.path.realpath(tempfile.mkdtemp(prefix=f"verif-{check.id}-"))
    try:
        repo.install()
        _preimport()
        check.setup(base_tmp)
        simfs.install()
        scratch = os.path.join(base_tmp, "w0")
        os.makedirs(scratch)
        sys.stdout.flush()
        saved = os.dup(1)
        devnull = os.open(os.devnull, os.O_WRONLY)
        if not os.environ.get("VERIF_SHOW"):
            os.dup2(devnull, 1)
        if data["violation"] == DIED:
            res = execute_forked(check, data["plan"], scratch)
        else:
            res = execute(check, data["plan"], scratch, keep_log=True)
        sys.stdout.flush()
        os.dup2(saved, 1)
    finally:
        simfs.set_root(None)
        shutil.rmtree(base_tmp, ignore_errors=True)
    for line in res["log"][-60:]:
        print("  " + line)
    same = res["digest"] == data.get("digest")
    print(f"outcome: {res['outcome']} {res['sig']}: {res['detail']}")
    print(f"identical execution: {same}")
    if res["outcome"] == "violation":
        print(f"VIOLATION property={check.id} replay={path}")
        return 1
    return 0 if res["outcome"] == "ok" else 2


class Check:
    """Base class of the checks."""

    id = None
    level = "exploration"
    rule = ""
    state_measure = "hash of the observable state after each operation"
    real = ["dmpbbo from /repo's working tree", "numpy", "pandas", "jsonpickle", "kernel file system"]
    stub = ["clock and pid", "process scheduler (seeded baton passing)"]
    assumptions = []
    runs = {"quick": 200, "thorough": 5000}
    shrink_lists = [("ops",), ("faults",)]

    def setup(self, base_tmp):
        pass

    def plan(self, rng, tier, i):
        raise NotImplementedError

    def execute(self, plan, ctx):
        raise NotImplementedError

    def simplify(self, plan):
        return []
