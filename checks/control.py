"""D01-D08: integrating DMPs online, under disturbances, interruptions and restarts."""

import contextlib
import copy
import json
import os
import random
import sys

import numpy as np

from simkit import refdmp, repo
from simkit.kernel import Violation
from simkit.repo import lib
from simkit.runner import Check
from simkit.scenario import (
    demo_trajectory, gen_custom, gen_dmp, make_dmp, make_fas, per_dim_params, phase_kind, rs, same_num, sched_bounds, sched_names,
    subsystem_params,
)

@contextlib.contextmanager
def poisoned_memory():
    """Uninitialised arrays contain nan, so that using them has an effect in every execution."""
    real = np.empty

    def empty(*a, **kw):
        x = real(*a, **kw)
        if isinstance(x, np.ndarray) and x.dtype.kind == "f" and x.flags.writeable:
            x.fill(np.nan)
        return x

    np.empty = empty
    try:
        yield
    finally:
        np.empty = real


class ControlCheck(Check):
    stub = ["control loop, clock, sensors and disturbances (simulated)",
            "uninitialised memory (filled with nan)"]
    shrink_lists = [("ops",)]

    def execute(self, plan, ctx):
        with poisoned_memory():
            self.simulate(plan, ctx)

    def simulate(self, plan, ctx):
        raise NotImplementedError


# -- programs -----------------------------------------------------------------------------------
def gen_spec(rng, **kw):
    untrained = kw.pop("untrained", 0.12)
    custom = kw.pop("custom", 0.0)
    spec = gen_dmp(rng, small=rng.random() < 0.6, **kw)
    if not spec.get("n_sched") and rng.random() < untrained:
        spec["trained"] = False
    if rng.random() < 0.15:
        spec["per_dim"] = rng.randrange(1, 2**31)
    if rng.random() < 0.3:
        spec["tau"] = rng.uniform(0.3, 3.0)
    if rng.random() < custom:
        gen_custom(rng, spec)
    elif (untrained and spec["trained"] and spec["dim"] > 1 and not spec.get("n_sched")
          and rng.random() < 0.1):
        spec["untrained"] = sorted(rng.sample(range(spec["dim"]), rng.randrange(1, spec["dim"])))
    return spec


def gen_h(rng, dmp_type, limit=None):
    """A step size relative to tau."""
    m = limit or refdmp.max_step(dmp_type)
    k = rng.random()
    if k < 0.6:
        return round(rng.uniform(0.05, 1.0) * m, 6)
    if k < 0.8:
        return m
    if k < 0.9:
        return round(m * 10 ** rng.uniform(-4, 0), 9)
    if k < 0.95:
        return 0.0
    return 0.01


def gen_set(rng, spec, what=None, m=0, dyn=False):
    if dyn and what is None and rng.random() < 0.12 and "custom" not in spec:
        what = "dyn"  # the parameters of some of the subsystems
    what = what or rng.choice(["goal", "tau", "params", "y_init", "goal", "tau"])
    op = {"op": "set", "m": m, "what": what, "seed": rng.randrange(2**31)}
    if what == "tau":
        op["f"] = rng.choice([0.5, 2.0, 0.8, 1.25, 1.0, 0.1, 3.0, rng.uniform(0.2, 4.0)])
    if what == "params":
        op["scale"] = rng.choice([0.0, 1.0, 30.0, 300.0])
    if what == "dyn":
        op["seed"] = op["seed"] or 1
        op["which"] = rng.choice([["spring_system"], ["goal_system", "damping_system"],
                                  ["spring_system", "goal_system", "damping_system"]])
        op["scalar"] = rng.random() < 0.4
    if what in ("goal", "y_init") and rng.random() < 0.25:  # slightly different
        op["by"] = rng.choice([0.1, 1e-2, 1e-3, 1e-6])
    return op


QUERIES = ["analytical", "no_forcing", "analytical_train", "params", "pos", "traj", "deepcopy", "json", "rates",
           "integrate", "size", "rollout", "cpp_json"]


PLOTS = ["plot", "plot_no_forcing", "plot_compact", "plot_states", "plot_comparison", "plot_systems"]


def plot_something(dmp, what):
    """Plotting is a query, too."""
    import matplotlib.pyplot as plt

    ts = np.linspace(0, 1.2 * dmp.tau, 6)
    try:
        if what == "plot":
            dmp.plot(ts)
        elif what == "plot_no_forcing":
            dmp.plot(ts, plot_no_forcing_term_also=True)
        elif what == "plot_compact":
            dmp.plot(ts, plot_compact=True)
        elif what == "plot_states":
            if hasattr(dmp, "analytical_solution_sched"):
                xs, xds, sched, _, _ = dmp.analytical_solution_sched(ts)
                dmp.plot_sched(ts, xs, xds, sched)
            else:
                xs, xds, forcing, fa = dmp.analytical_solution(ts)
                dmp.plot(ts, xs, xds, forcing_terms=forcing, fa_outputs=fa, plot_tau=False)
        elif what == "plot_comparison":
            xs, xds, _, _ = dmp.analytical_solution(ts)
            dmp.plot_comparison(dmp.states_as_trajectory(ts, xs, xds))
        elif what == "plot_systems":
            for name in ["spring", "goal", "phase", "gating", "damping"]:
                system = getattr(dmp, f"_{name}_system", None)
                if system is not None:
                    system.plot(ts, None, None)
    finally:
        plt.close("all")


def lim_names(spec):
    """Can the goal be changed during a movement?"""
    return not refdmp.is_unscaled_richards(spec["type"])


def apply_set(dmp, op, spec):
    """Parameter changes; the values depend only on the operation and the specification."""
    r = rs(op["seed"])
    d = spec["dim"]
    what = op["what"]
    if what in ("goal", "y_init"):
        v = r.uniform(-2, 2, d)
        if "by" in op:
            v = (dmp.y_attr if what == "goal" else dmp.y_init) + op["by"] * v
        if what == "goal":
            dmp.y_attr = v
        else:
            dmp.y_init = v
        return v
    elif what == "tau":
        dmp.tau = spec["tau"] * op["f"]
    elif what == "params":
        n = int(dmp.get_param_vector_size())
        v = r.standard_normal(n) * op["scale"]
        dmp.set_param_vector(v)
        return v
    elif what == "restore":
        dmp.tau = spec["tau"]
    elif what == "dyn":
        params = subsystem_params(dict(spec, per_dim=op["seed"]), dmp, op["which"])
        if op["scalar"]:  # those of the first dimension for all
            params = {n: {k: float(v[0]) for k, v in p.items()} for n, p in params.items()}
        dmp.set_params_dyn_sys(copy.deepcopy(params))
        return params
    elif what == "train":
        s = dict(spec, seed=op["seed"])
        dmp.train(demo_trajectory(s))
    return None


def start_y(op, spec):
    return rs(op["seed"]).uniform(-2, 2, spec["dim"])


class Interrupted(KeyboardInterrupt):
    pass


def at_line(fn, n, action, prefix=None):
    """Call fn; perform the action just before the n-th line of dmpbbo (or of the files with a
    certain prefix) that it executes."""
    left = [n]
    fired = [False]
    prefix = prefix or os.path.join(repo.ROOT, "dmpbbo")

    def local(frame, event, arg):
        if event == "line" and not fired[0]:
            left[0] -= 1
            if left[0] <= 0:
                fired[0] = True
                action()
        return local

    def trace(frame, event, arg):
        if fired[0]:
            return None
        return local if frame.f_code.co_filename.startswith(prefix) else None

    old = sys.gettrace()
    sys.settrace(trace)
    try:
        out = fn()
    finally:
        sys.settrace(old)
    return out, fired[0]


def interrupt(fn, n):
    """Call fn, with an exception at the n-th line of dmpbbo that it executes."""

    def action():
        raise Interrupted()

    try:
        _, fired = at_line(fn, n, action)
        return fired
    except Interrupted:
        return True


def record_lines(fn):
    """The lines of dmpbbo executed by a call."""
    out = []
    prefix = os.path.join(repo.ROOT, "dmpbbo")

    def local(frame, event, arg):
        if event == "line":
            out.append((frame.f_code.co_filename, frame.f_lineno))
        return local

    def trace(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(prefix) else None

    old = sys.gettrace()
    sys.settrace(trace)
    try:
        fn()
    finally:
        sys.settrace(old)
    return out


def rare_line(dmp, call, n):
    """Number of a line that a call executes the first time only (e.g. filling a cache), or of the
    line after that."""
    trial = copy.deepcopy(dmp)
    first = record_lines(lambda: call(trial))
    second = set(record_lines(lambda: call(trial)))
    rare = sorted({k + j for k, line in enumerate(first, 1) if line not in second for j in (0, 1)})
    return rare[n % len(rare)] if rare else None


def arrays_of(obj, depth=0, seen=None):
    """All arrays reachable from an object."""
    seen = set() if seen is None else seen
    if id(obj) in seen or depth > 12:
        return
    seen.add(id(obj))
    if isinstance(obj, np.ndarray):
        yield obj
    elif isinstance(obj, dict):
        for v in obj.values():
            yield from arrays_of(v, depth + 1, seen)
    elif isinstance(obj, (list, tuple)):
        for v in obj:
            yield from arrays_of(v, depth + 1, seen)
    elif hasattr(obj, "__dict__") and not isinstance(obj, type):
        for v in vars(obj).values():
            yield from arrays_of(v, depth + 1, seen)


INDEX = {"SPRING", "SPRING_Y", "SPRING_Z", "GOAL", "PHASE", "GATING", "DAMPING"}


def shared(a, b):
    return np.may_share_memory(a, b) and np.shares_memory(a, b)


def frozen(x):
    x = np.array(x)
    x.flags.writeable = False
    return x


def do_step(dmp, h, x, mode):
    """One control step; x is given read-only and may not be modified."""
    dt = h * dmp.tau
    given = frozen(x)
    if mode == "euler":
        out = dmp.integrate_step_euler(dt, given)
    elif mode == "rk":
        out = dmp.integrate_step_runge_kutta(dt, given)
    elif mode == "sched":
        out = dmp.integrate_step_sched(dt, given)
    else:
        out = dmp.integrate_step(dt, given)
    if not same_num(given, x):
        raise Violation("state-modified", f"integrating with {mode} modified the state it was given")
    for o in out:
        if shared(o, given):
            raise Violation("shared-memory", "a returned array shares memory with the given state")
    return out


def do_start(dmp, y, mode):
    if mode == "sched":
        return dmp.integrate_start_sched(y)
    return dmp.integrate_start(y)


def perturb(dmp, x, op, spec):
    r = rs(op["seed"])
    d = spec["dim"]
    if op["what"] == "y":
        x[dmp.SPRING_Y] += r.uniform(-1, 1, d) * op["size"]
    else:
        x[dmp.SPRING_Z] += r.uniform(-1, 1, d) * op["size"] * 10
    return x


def gen_perturb(rng, c=0):
    return {"op": "perturb", "c": c, "what": rng.choice(["y", "z"]), "seed": rng.randrange(2**31),
            "size": rng.choice([0.01, 0.3, 1.0])}


def copies(out):
    return [np.array(o) for o in out]


# -- D01 ----------------------------------------------------------------------------------------
class Pool:
    """DMPs (the same, copies, and re-loaded ones) which are used by several controllers."""

    def __init__(self, plan, d):
        spec = plan["dmp"]
        base = make_dmp(spec)
        self.m = []
        for k, kind in enumerate(plan["members"]):
            if kind == "copy":
                self.m.append(copy.deepcopy(base))
            elif kind == "json":
                p = os.path.join(d, f"member{k}.json")
                lib.jc.savejson(p, base)
                self.m.append(lib.jc.loadjson(p))
            elif kind == "solver":
                self.m.append(lib.TaskSolverDmp(base, 0.1, 1.0)._dmp)
            else:
                self.m.append(make_dmp(spec))
        self.base = base


def flatten(ops):
    for op in ops:
        if op["op"] == "nest":
            yield from flatten(op["inner"])
        yield op


class D01(ControlCheck):
    id = "D01"
    runs = {"quick": 2500, "thorough": 90000}
    rule = ("Several simulated controllers use a DMP, copies of it and re-loaded ones; their steps"
            " are interleaved, pre-empted in the middle of a step, interrupted by exceptions at any"
            " executed line, and mixed with queries, restarts and parameter changes. Each controller"
            " has to obtain bit for bit what it obtains when run alone.")

    def plan(self, rng, tier, i):
        sched = rng.random() < 0.2
        spec = gen_spec(rng, sched=sched, custom=0.15)
        n_m = rng.choice([1, 1, 2, 3])
        n_c = rng.choice([1, 2, 2, 3])
        plan = {
            "dmp": spec,
            "members": ["fresh"] + [rng.choice(["copy", "json", "fresh", "copy"])
                                    for _ in range(n_m - 1)],
            "owner": [rng.randrange(n_m) for _ in range(n_c)],
            "mode": "sched" if sched else rng.choice(["rk", "step", "step", "euler"]),
            "ops": [],
        }
        ops = plan["ops"]
        for c in range(n_c):
            ops.append({"op": "start", "c": c})
        p_set = rng.choice([0.0, 0.05, 0.15])
        p_query = rng.choice([0.05, 0.2])
        p_int = rng.choice([0.0, 0.05, 0.2])
        p_nest = rng.choice([0.0, 0.15]) if n_m > 1 else 0.0
        for _ in range(rng.randint(10, 60)):
            c = rng.randrange(n_c)
            x = rng.random()
            if x < p_set:
                ops.append(gen_set(rng, spec, m=rng.randrange(n_m), dyn=True))
                if p_int and rng.random() < 0.5:
                    ops.append(self.gen_interrupt(rng, spec, ops[-1]["m"], c))
            elif x < p_set + p_query:
                ops.append({"op": "query", "m": rng.randrange(n_m), "what": rng.choice(QUERIES),
                            "c": c})
                if rng.random() < 0.08:
                    ops[-1]["what"] = rng.choice(PLOTS)
            elif x < p_set + p_query + p_int:
                ops.append(self.gen_interrupt(rng, spec, rng.randrange(n_m), c))
            elif x < p_set + p_query + p_int + p_nest:
                inner = []
                others = [k for k in range(n_c) if plan["owner"][k] != plan["owner"][c]]
                for _ in range(rng.randint(1, 3)):
                    if others and rng.random() < 0.7:
                        inner.append({"op": "step", "c": rng.choice(others),
                                      "h": gen_h(rng, spec["type"])})
                    else:
                        mm = [m for m in range(n_m) if m != plan["owner"][c]]
                        inner.append(gen_set(rng, spec, m=rng.choice(mm), dyn=True))
                ops.append({"op": "nest", "c": c, "h": gen_h(rng, spec["type"]), "inner": inner,
                            "n": int(10 ** rng.uniform(0, 3.0))})
            elif x < 0.97:
                ops.append({"op": "step", "c": c, "h": gen_h(rng, spec["type"])})
                if rng.random() < 0.08:
                    ops.append(gen_perturb(rng, c))
            elif x < 0.985:
                ops.append({"op": "start", "c": c})
            else:
                ops.append({"op": "startat", "c": c, "seed": rng.randrange(2**31)})
        return plan

    @staticmethod
    def gen_interrupt(rng, spec, m, c):
        return {"op": "interrupt", "m": m, "c": c,
                "what": rng.choice(["step", "step", "step", "start", "analytical", "no_forcing", "rates",
                                    "params"]),
                "n": int(10 ** rng.uniform(0, rng.choice([2.2, 3.2]))),
                "h": gen_h(rng, spec["type"]), "rare": rng.random() < 0.4}

    def simulate(self, plan, ctx):
        k = ctx.kernel()
        d = ctx.dir("pool")
        got = ctx.ok(k.run(("controllers", lambda: self.together(plan, ctx, d), 1)))[0].result
        for c in range(len(plan["owner"])):
            name = f"alone{c}"
            ref = ctx.ok(k.run((name, lambda: self.alone(plan, c, d), 1)))[0].result
            ctx.check(len(ref) == len(got[c]), "harness-length", "number of results")
            for n, (a, b) in enumerate(zip(got[c], ref)):
                for what, u, v in zip(("state", "rates", "schedules"), a, b):
                    ctx.check(
                        same_num(u, v), f"{what}-differ",
                        lambda: f"controller {c}, result {n}: {what} differ from those of the same"
                        f" controller running alone: {u} instead of {v}")
                ctx.record(a[0])
        if len(plan["owner"]) > 1:
            ctx.nontrivial()

    def together(self, plan, ctx, d):
        spec, mode = plan["dmp"], plan["mode"]
        pool = Pool(plan, d)
        xs, out = {}, {c: [] for c in range(len(plan["owner"]))}
        keep = []  # arrays handed out earlier, scribbled over later

        def own(dmp, arrays):
            mine = [a for key, v in vars(dmp).items() if key not in INDEX for a in arrays_of(v)]
            for n, a in enumerate(arrays):
                if any(shared(a, b) for b in mine):
                    raise Violation("shared-memory", "a returned array shares memory with the DMP")
                if any(shared(a, b) for b in arrays[n + 1 :]):
                    raise Violation("shared-memory", "returned arrays share memory")
                if any(shared(a, b) for b in keep[-6:]):
                    raise Violation("shared-memory", "a returned array shares memory with an"
                                    " earlier one")

        def take(c, dmp, res):
            own(dmp, list(res))
            xs[c] = np.array(res[0])
            out[c].append(copies(res))
            keep.extend(res)
            for a in res:
                if a.flags.writeable:
                    a.fill(1e77)
            ctx.state(xs[c])

        def run(ops):
            for op in ops:
                c = op.get("c")
                dmp = pool.m[plan["owner"][c] if op["op"] in ("start", "startat", "step", "nest",
                                                              "perturb") else op["m"]]
                kind = op["op"]
                if kind == "start":
                    take(c, dmp, do_start(dmp, None, mode))
                elif kind == "startat":
                    take(c, dmp, do_start(dmp, start_y(op, spec), mode))
                elif kind == "step":
                    if c in xs:
                        ctx.sim_time += op["h"] * dmp.tau
                        take(c, dmp, do_step(dmp, op["h"], xs[c], mode))
                elif kind == "perturb":
                    if c in xs:
                        ctx.count("fault:perturbation")
                        xs[c] = perturb(dmp, xs[c], op, spec)
                elif kind == "set":
                    apply_set(dmp, op, spec)
                elif kind == "query":
                    self.query(dmp, op, xs.get(c), d)
                elif kind == "interrupt":
                    x = xs.get(c)
                    if x is None:
                        continue
                    call = {
                        "step": lambda m: do_step(m, op["h"], x, mode),
                        "start": lambda m: do_start(m, None, mode),
                        "analytical": lambda m: m.analytical_solution(np.linspace(0, 1, 7)),
                        "no_forcing": lambda m: m.analytical_solution(np.linspace(0, 1, 3), True),
                        "params": lambda m: m.get_param_vector(),
                        "rates": lambda m: m.differential_equation(np.array(x)),
                    }[op["what"]]
                    n = op["n"]
                    if op.get("rare"):
                        n = rare_line(dmp, call, n) or n
                    if interrupt(lambda: call(dmp), n):
                        ctx.count("fault:exception_in_step")
                        ctx.nontrivial()
                elif kind == "nest":
                    if c not in xs:
                        run(op["inner"])
                        continue
                    done = []

                    def inner():
                        done.append(1)
                        ctx.count("fault:preemption")
                        run(op["inner"])

                    res, fired = at_line(lambda: do_step(dmp, op["h"], xs[c], mode), op["n"], inner)
                    take(c, dmp, res)
                    if not done:
                        run(op["inner"])

        run(plan["ops"])
        return out

    def query(self, dmp, op, x, d):
        """Things one may ask a DMP at any time; whatever is returned is overwritten."""
        what = op["what"]
        tau = dmp.tau
        res = []
        if what in PLOTS:
            plot_something(dmp, what)
        elif what == "analytical":
            res = list(dmp.analytical_solution(np.linspace(0, 1.3 * tau, 9)))
        elif what == "no_forcing":
            res = list(dmp.analytical_solution(np.linspace(0, 1.3 * tau, 5), True))
        elif what == "analytical_train":
            if dmp.ts_train is not None:
                res = list(dmp.analytical_solution())
        elif what == "params":
            res = [dmp.get_param_vector()]
        elif what == "size":
            dmp.get_param_vector_size(), dmp.dim_dmp(), dmp.dim_x, dmp.dim_y
        elif what in ("pos", "traj", "rates") and x is not None:
            xd = dmp.differential_equation(frozen(x))
            res = [xd]
            if what == "pos":
                res += list(dmp.states_as_pos_vel_acc(np.array(x), np.array(xd)))
            if what == "traj":
                two = np.vstack((x, x))
                t = dmp.states_as_trajectory(np.array([0.0, 0.1]), two, np.vstack((xd, xd)))
                res += [t.ys, t.yds, t.ydds]
        elif what == "deepcopy":
            other = copy.deepcopy(dmp)
            other.tau = 3.3 * tau
            other.y_attr = other.y_attr + 1.0
            other.integrate_start(other.y_init + 1.0)
            n = other.get_param_vector_size()
            other.set_param_vector(np.ones(n))
        elif what == "json":
            p = os.path.join(d, "query.json")
            lib.jc.savejson(p, dmp)
            other = lib.jc.loadjson(p)
            other.integrate_start(other.y_init + 1.0)
        elif what == "cpp_json":
            lib.jc.savejson_for_cpp(os.path.join(d, "query_cpp.json"), dmp)
        elif what == "integrate":
            res = list(dmp.integrate(np.linspace(0, 0.02 * tau, 3)))
        elif what == "rollout":
            solver = lib.TaskSolverDmp(dmp, tau / 6, 1.1)
            n = dmp.get_param_vector_size()
            res = [solver.perform_rollout(np.ones(n))]
        for a in res:
            if isinstance(a, np.ndarray) and a.flags.writeable and a.size:
                a.fill(-1e66)

    def alone(self, plan, c, d):
        """The same controller without everything else."""
        spec, mode, m = plan["dmp"], plan["mode"], plan["owner"][c]
        dmp = Pool(plan, d).m[m]
        x, out = None, []
        for op in flatten(plan["ops"]):
            kind = op["op"]
            mine = op.get("c") == c
            if kind == "set" and op["m"] == m:
                apply_set(dmp, op, spec)
            elif kind == "startat" and plan["owner"][op["c"]] == m:
                if mine:
                    res = do_start(dmp, start_y(op, spec), mode)
                    x = np.array(res[0])
                    out.append(copies(res))
                else:
                    dmp.y_init = start_y(op, spec)
            elif not mine:
                continue
            elif kind == "start":
                res = do_start(dmp, None, mode)
                x = np.array(res[0])
                out.append(copies(res))
            elif kind in ("step", "nest") and x is not None:
                res = do_step(dmp, op["h"], x, mode)
                x = np.array(res[0])
                out.append(copies(res))
            elif kind == "perturb" and x is not None:
                x = perturb(dmp, x, op, spec)
        return out


# -- D02 ----------------------------------------------------------------------------------------
class D02(ControlCheck):
    id = "D02"
    runs = {"quick": 1500, "thorough": 60000}
    rule = ("A movement is executed by a chain of simulated processes; each loads DMP and state that"
            " its predecessor stored (json file or learning session), after crashes the movement"
            " is resumed from the last stored state; compared bit for bit with the movement in one"
            " process. Non-trivial if at least one process took over.")

    def plan(self, rng, tier, i):
        sched = rng.random() < 0.2
        spec = gen_spec(rng, sched=sched, untrained=0.25, custom=0.15)
        if rng.random() < 0.15:
            spec["decouple"] = True
        plan = {"dmp": spec, "mode": "sched" if sched else rng.choice(["step", "step", "euler"]),
                "ops": [{"op": "start"}], "copies": rng.random() < 0.3}
        ops = plan["ops"]
        if rng.random() < 0.3:
            ops.insert(0, {"op": "ckpt", "how": rng.choice(["json", "session"]), "k": 1})
        p_ck = rng.choice([0.05, 0.1, 0.3])
        for _ in range(rng.randint(6, 40)):
            x = rng.random()
            if x < p_ck:
                ops.append({"op": "ckpt", "how": rng.choice(["json", "session", "memory"]),
                            "k": rng.choice([1, 1, 1, 2, 4])})
                if rng.random() < 0.3:
                    ops.append({"op": "crash"})
            elif x < p_ck + 0.1:
                op = gen_set(rng, spec, rng.choice(
                    ["goal", "tau", "params", "y_init", "train" if spec["trained"] else "goal"]
                    + ([] if "custom" in spec else ["dyn"])))
                ops.append(op)
            elif x < p_ck + 0.14:
                ops.append({"op": "crash"})
            elif x < p_ck + 0.18:
                ops.append({"op": rng.choice(["start", "startat"]), "seed": rng.randrange(2**31)})
            elif x < p_ck + 0.22:
                ops.append(gen_perturb(rng))
            elif x < p_ck + 0.27:
                ops.append({"op": "query", "what": rng.choice(["analytical", "params"])})
            else:
                ops.append({"op": "step", "h": gen_h(rng, spec["type"])})
        return plan

    def one(self, dmp, x, op, plan):
        """Perform an operation; returns new state and result."""
        spec, mode = plan["dmp"], plan["mode"]
        kind = op["op"]
        res = None
        if kind in ("start", "startat"):
            res = copies(do_start(dmp, start_y(op, spec) if kind == "startat" else None, mode))
            x = np.array(res[0])
        elif kind == "step" and x is not None:
            res = copies(do_step(dmp, op["h"], x, mode))
            x = np.array(res[0])
        elif kind == "set":
            apply_set(dmp, op, spec)
        elif kind == "perturb" and x is not None:
            x = perturb(dmp, np.array(x), op, spec)
        elif kind == "query":
            if op["what"] == "params":
                res = [dmp.get_param_vector()]
            else:
                res = list(dmp.analytical_solution(np.linspace(0, 1.2 * dmp.tau, 7)))
        return x, res

    def facts(self, dmp):
        ts = np.linspace(0, 1.4 * dmp.tau, 9)
        out = [np.array(dmp.tau), np.array(dmp.y_init), np.array(dmp.y_attr),
               np.atleast_1d(dmp.get_param_vector())]
        out += list(dmp.analytical_solution(ts))
        if hasattr(dmp, "analytical_solution_sched"):
            out.append(dmp.analytical_solution_sched(ts)[2])
        if dmp.ts_train is not None:
            out.append(np.array(dmp.ts_train))
        return out

    def simulate(self, plan, ctx):
        ops = plan["ops"]
        k = ctx.kernel()
        d = ctx.dir("resume")

        def uninterrupted():
            dmp, x, res = make_dmp(plan["dmp"]), None, {}
            for n, op in enumerate(ops):
                x, res[n] = self.one(dmp, x, op, plan)
            return res, self.facts(dmp)

        ref, ref_facts = ctx.ok(k.run(("uninterrupted", uninterrupted, 1)))[0].result
        done = set()
        pos, ck = 0, None  # next operation; where the last checkpoint was stored
        got_facts = None
        n_proc = 0
        while got_facts is None:
            n_proc += 1
            ctx.check(n_proc <= len(ops) + 2, "harness-loop", "too many processes")
            first, source = pos, ck

            def process():
                dmp, x = make_dmp(plan["dmp"]), None
                if source:
                    dmp, x = self.load(d, source)
                for n in range(first, len(ops)):
                    op = ops[n]
                    if op["op"] == "ckpt":
                        for _ in range(op["k"] - 1):
                            where = self.store(d, n, op, dmp, x)
                            dmp, x = self.load(d, where)
                        where = self.store(d, n, op, dmp, x)
                        if n not in done:
                            done.add(n)
                            return ("ckpt", n, where)
                    elif op["op"] == "crash":
                        if n not in done:
                            done.add(n)
                            return ("crash", n, None)
                    else:
                        x, res = self.one(dmp, x, op, plan)
                        self.compare(ctx, n, res, ref[n])
                return ("end", len(ops), self.facts(dmp))

            what, n, value = ctx.ok(k.run((f"process{n_proc}", process, 10 + n_proc)))[0].result
            if what == "ckpt":
                pos, ck = n + 1, value
                ctx.count("fault:process_replaced")
                ctx.nontrivial()
            elif what == "crash":
                pos = ck[1] + 1 if ck else 0
                ctx.count("fault:crash_in_movement")
                ctx.nontrivial()
            else:
                got_facts = value
        for n, (a, b) in enumerate(zip(got_facts, ref_facts)):
            ctx.check(same_num(a, b), "dmp-differs", lambda: f"fact {n} at the end: {a} != {b}")

    def compare(self, ctx, n, res, ref):
        if res is None:
            return
        for a, b in zip(res, ref):
            ctx.check(same_num(a, b), "resumed-differs",
                      lambda: f"operation {n}: {a} instead of {b} as without interruption")
            ctx.record(a)
        ctx.state(res[0])

    def store(self, d, n, op, dmp, x):
        if op["how"] == "memory":
            return ["memory", n, lib.jc.jsonpickle.encode(dmp), x]
        if op["how"] == "json":
            lib.jc.savejson(os.path.join(d, "movement.json"), dmp)
            text = None if x is None else json.dumps([float(v).hex() for v in x])
            return ["json", n, text]
        session = lib.LearningSession(2, os.path.join(d, "session"))
        session.tell(dmp, "dmp", n)
        if x is not None:
            session.tell(x, "state", n)
        return ["session", n, x is not None]

    def load(self, d, where):
        if where[0] == "memory":
            x = where[3]
            return lib.jc.jsonpickle.decode(where[2]), None if x is None else np.array(x)
        if where[0] == "json":
            dmp = lib.jc.loadjson(os.path.join(d, "movement.json"))
            x = where[2]
            return dmp, None if x is None else np.array([float.fromhex(v) for v in json.loads(x)])
        session = lib.LearningSession.from_dir(os.path.join(d, "session"))
        n = where[1]
        return session.ask("dmp", n), session.ask("state", n) if where[2] else None


# -- D03 ----------------------------------------------------------------------------------------
class D03(ControlCheck):
    id = "D03"
    runs = {"quick": 1200, "thorough": 60000}
    rule = ("A movement is disturbed (position, velocity, goal, time constant, parameters, stalls,"
            " restarts, process changes) at arbitrary moments; 3 and 5 time constants after the"
            " last disturbance, position and velocity are compared with the goal.")

    def plan(self, rng, tier, i):
        spec = gen_spec(rng)
        m = refdmp.max_step(spec["type"])
        free = lim_names(spec)
        if not free:
            spec["selected"] = [s for s in spec["selected"] if s != "goal"]
            if not spec["trained"]:
                spec["selected"] = []
        plan = {"dmp": spec, "ops": [], "h": rng.choice([m, m, m / 2]),
                "mode": rng.choice(["step", "rk"])}
        ops = plan["ops"]
        for _ in range(rng.choice([0, 0, 1, 2])):
            ops.append(gen_set(rng, spec, dyn=True))
        ops.append({"op": "start"})
        whats = ["goal", "tau", "params"] if free else ["tau", "params"]
        if not spec["selected"]:
            whats = [w for w in whats if w != "params"]
        whats.append("dyn")
        p = rng.choice([0.03, 0.1, 0.3])
        for _ in range(rng.randint(1, 60)):
            x = rng.random()
            if x < p:
                ops.append(gen_set(rng, spec, rng.choice(whats)))
            elif x < 2 * p:
                ops.append(gen_perturb(rng))
            elif x < 2 * p + 0.02:
                ops.append({"op": rng.choice(["start", "startat"]), "seed": rng.randrange(2**31)})
            elif x < 2 * p + 0.04:
                ops.append({"op": "stall", "n": rng.randint(1, 3)})
            elif x < 2 * p + 0.06:
                ops.append({"op": "reload"})
            else:
                ops.append({"op": "step", "h": gen_h(rng, spec["type"], m)})
        return plan

    def simulate(self, plan, ctx):
        k = ctx.kernel()
        d = ctx.dir("converge")
        ctx.ok(k.run(("controller", lambda: self.run_it(plan, ctx, d), 1)))

    def run_it(self, plan, ctx, d):
        spec = plan["dmp"]
        mode = plan["mode"]
        dmp = make_dmp(spec)
        x, xd = None, None
        size, force = 1.0, 0.0
        for op in plan["ops"]:
            kind = op["op"]
            if kind == "set":
                v = apply_set(dmp, op, spec)
                ctx.count("fault:change_" + op["what"])
                if op["what"] == "goal":
                    ctx.check(np.array_equal(dmp.y_attr, v), "goal-ignored",
                              lambda: f"the goal is {dmp.y_attr} after setting it to {v}")
                elif op["what"] == "params" and v is not None and v.size:
                    force = max(force, float(np.sum(np.abs(v))))
            elif kind == "start":
                x, xd = do_start(dmp, None, mode)
            elif kind == "startat":
                if lim_names(spec) or x is not None:
                    x, xd = do_start(dmp, start_y(op, spec), mode)
            elif kind == "perturb" and x is not None:
                x = perturb(dmp, np.array(x), op, spec)
                ctx.count("fault:perturbation")
                size += 30 * op["size"]
            elif kind == "stall" and x is not None:
                ctx.count("fault:stall")
                for _ in range(op["n"]):
                    x, xd = do_step(dmp, 0.0, x, mode)
            elif kind == "reload":
                p = os.path.join(d, "dmp.json")
                lib.jc.savejson(p, dmp)
                dmp = lib.jc.loadjson(p)
                ctx.count("fault:process_replaced")
            elif kind == "step" and x is not None:
                x, xd = do_step(dmp, op["h"], x, mode)
                ctx.sim_time += op["h"] * dmp.tau
            if x is not None and not np.all(np.isfinite(x)):
                raise Violation("not-finite", f"state {x} after {op}")
        if x is None:
            return
        ctx.nontrivial()
        size += float(np.max(np.abs(x[dmp.SPRING]))) + float(np.max(np.abs(dmp.y_attr)))
        size += float(np.max(np.abs(dmp.y_init)))
        params = np.atleast_1d(dmp.get_param_vector())
        force += float(np.sum(np.abs(params))) if params.size else 0.0
        size += force * 0.05
        n = 0
        h = plan["h"]
        for limit, tol in ((3.0, 3e-5), (5.0, 3e-7)):
            while n * h < limit:
                x, xd = do_step(dmp, h, x, mode)
                n += 1
            ctx.sim_time += limit * dmp.tau
            y, yd, _ = dmp.states_as_pos_vel_acc(x, xd)
            err = float(np.max(np.abs(y - dmp.y_attr)))
            vel = float(np.max(np.abs(yd))) * dmp.tau
            if not np.all(np.isfinite(x)):
                raise Violation("not-finite", f"state {x} at the end")
            ctx.check(err <= tol * size, "goal-not-reached",
                      lambda: f"{limit} time constants after the last disturbance, the position is"
                      f" {y}, the goal {dmp.y_attr} (allowed deviation {tol * size})")
            ctx.check(vel <= 30 * tol * size, "still-moving",
                      lambda: f"{limit} time constants after the last disturbance, the velocity is"
                      f" {yd}")
            self.worst = max(getattr(self, "worst", 0.0), err / (tol * size), vel / (30 * tol * size))
            ctx.record(x)
        ctx.state(x)


# -- D04 ----------------------------------------------------------------------------------------
def fa_params(dmp, spec):
    """The parameters of all function approximators, by name, as the public interface gives them."""
    d = copy.deepcopy(dmp)
    names = refdmp.FA_NAMES[spec["fa"]]
    n_s = spec.get("n_sched", 0)
    d.set_selected_param_names(names + (["sched_" + n for n in names] if n_s else []))
    v = np.atleast_1d(d.get_param_vector())
    if not spec.get("trained", True):
        return None, []
    per = len(names) * spec["n_bfs"]
    untrained = spec.get("untrained") or []
    dim = spec["dim"] - len(untrained)
    n = per * dim
    extra = v.size - n - per * n_s  # the goal, if it was selected before
    fas = refdmp.read_fas(spec["fa"], v[:n], dim, spec["n_bfs"])
    for i in untrained:
        fas.insert(i, refdmp.Untrained())
    scheds = refdmp.read_fas(spec["fa"], v[n + extra :], n_s, spec["n_bfs"]) if n_s else []
    return fas, scheds


def make_ref(dmp, spec, seed=None):
    traj = demo_trajectory(spec if seed is None else dict(spec, seed=seed))
    fas, scheds = fa_params(dmp, spec)
    if spec.get("trained", True):
        amp = np.max(traj.ys, axis=0) - np.min(traj.ys, axis=0)
    else:
        amp = np.ones(spec["dim"])
    per_dim = per_dim_params(spec) if spec.get("per_dim") else None
    return refdmp.RefDmp(spec, spec["tau"], traj.ys[0], traj.ys[-1], amp, fas, scheds, per_dim)


def selected(spec):
    if not spec.get("trained", True):
        return ["goal"] if spec.get("selected") else []
    return spec["selected"]


def ref_set(ref, op, spec, value, dmp):
    """The same parameter change for the reference model; returns the reference model."""
    what = op["what"]
    if what == "goal":
        ref.g = np.array(value)
    elif what == "y_init":
        ref.y0 = np.array(value)
    elif what == "tau":
        ref.tau = spec["tau"] * op["f"]
    elif what == "params" and value is not None:
        ref.set_params(value, selected(spec))
    elif what == "dyn":
        ref.set_systems(value)
    elif what == "train":
        new = make_ref(dmp, dict(spec, untrained=None), op["seed"])
        for p in ref.changed:
            new.set_systems(p)
        return new
    return ref


def split(dmp, x):
    return {"y": x[dmp.SPRING_Y], "z": x[dmp.SPRING_Z], "goal": x[dmp.GOAL], "phase": x[dmp.PHASE],
            "gating": x[dmp.GATING], "damping": x[dmp.DAMPING]}


class D04(ControlCheck):
    id = "D04"
    runs = {"quick": 3000, "thorough": 120000}
    rule = ("Movements with irregular steps, perturbations, restarts, re-training and changes of"
            " goal, start, time constant and parameters; each single step (and each start) is"
            " compared with a step of an independent reference model of the documented equations,"
            " starting from the same state.")
    stub = ControlCheck.stub + ["reference model (simkit/refdmp.py) as oracle"]
    state_measure = "hash of the state after each step"

    def plan(self, rng, tier, i):
        sched = rng.random() < 0.1
        spec = gen_spec(rng, sched=sched)
        if rng.random() < 0.25:
            spec["decouple"] = True
        plan = {"dmp": spec, "ops": []}
        ops = plan["ops"]
        for _ in range(rng.choice([0, 0, 1, 2])):
            ops.append(gen_set(rng, spec, dyn=True))
        ops.append({"op": "start"})
        p = rng.choice([0.02, 0.1, 0.25])
        for _ in range(rng.randint(5, 40)):
            x = rng.random()
            if x < p:
                ops.append(gen_set(rng, spec, dyn=True))
            elif x < p + 0.06:
                ops.append(gen_perturb(rng))
            elif x < p + 0.08:
                ops.append({"op": rng.choice(["start", "startat"]), "seed": rng.randrange(2**31)})
            elif x < p + 0.09 and spec["trained"] and not sched:
                ops.append({"op": "set", "what": "train", "seed": rng.randrange(2**31)})
            elif x < p + 0.11:
                ops.append({"op": "query", "what": rng.choice(["analytical", "decouple"])})
            else:
                ops.append({"op": "step", "h": gen_h(rng, spec["type"]),
                            "mode": rng.choice(["step", "step", "rk", "euler", "rates"]
                                               + (["sched"] if sched else []))})
        return plan

    def simulate(self, plan, ctx):
        k = ctx.kernel()
        ctx.ok(k.run(("controller", lambda: self.run_it(plan, ctx), 1)))

    def run_it(self, plan, ctx):
        spec = plan["dmp"]
        dmp = make_dmp(spec)
        ref = make_ref(dmp, spec)
        x = None
        for n, op in enumerate(plan["ops"]):
            kind = op["op"]
            if kind == "set":
                v = apply_set(dmp, op, spec)
                ref = ref_set(ref, op, spec, v, dmp)
                ctx.count("fault:change_" + op["what"])
            elif kind in ("start", "startat"):
                y = start_y(op, spec) if kind == "startat" else None
                if y is not None:
                    ref.y0 = np.array(y)
                x, xd = do_start(dmp, y, "step")
                want = ref.start()
                self.compare(ctx, n, op, dmp, ref, want, x, want, "state")
                self.compare(ctx, n, op, dmp, ref, ref.rates(want), xd, want, "rates")
                x = np.array(x)
            elif kind == "perturb" and x is not None:
                ctx.count("fault:perturbation")
                x = perturb(dmp, x, op, spec)
            elif kind == "query":
                if op["what"] == "decouple":
                    dmp.decouple_parameters()
                else:
                    dmp.analytical_solution(np.linspace(0, dmp.tau, 5))
            elif kind == "step" and x is not None:
                s = split(dmp, np.array(x))
                if not np.all(np.abs(x) < 1e6):
                    ctx.count("diverged_goal_system")
                    return
                if op["mode"] == "rates":
                    if ref.ambiguous([s]):
                        continue
                    xd = dmp.differential_equation(np.array(x))
                    self.compare(ctx, n, op, dmp, ref, ref.rates(s), xd, s, "rates")
                    continue
                dt = op["h"] * ref.tau
                new, rates, unclear = ref.step(dt, s, op["mode"] == "euler")
                ctx.check(abs(dmp.tau - ref.tau) <= 1e-12 * ref.tau, "tau",
                          lambda: f"tau is {dmp.tau} instead of {ref.tau}")
                out = do_step(dmp, op["h"], x, op["mode"])
                x, xd = np.array(out[0]), out[1]
                ctx.sim_time += dt
                ctx.count("steps")
                if unclear:
                    ctx.count("steps_not_compared")
                    continue
                if not (np.all(np.abs(x) < 1e6) and np.all(np.abs(rates["goal"]) < 1e7)):
                    ctx.count("diverged_goal_system")
                    return
                self.compare(ctx, n, op, dmp, ref, new, x, new, "state", s)
                self.compare(ctx, n, op, dmp, ref, rates, xd, new, "rates", s)
                y, yd, ydd = dmp.states_as_pos_vel_acc(x, np.array(xd))
                ctx.check(
                    same_num(y, x[dmp.SPRING_Y]) and np.allclose(yd, xd[dmp.SPRING_Y], 1e-12, 0)
                    and np.allclose(ydd, xd[dmp.SPRING_Z] / ref.tau, 1e-12, 0), "pos-vel-acc",
                    lambda: f"{y}, {yd}, {ydd} are not those of state {x} and rates {xd}")
                ctx.nontrivial()
                ctx.state(x)
                ctx.record(x)

    def compare(self, ctx, n, op, dmp, ref, want, got, at, what, before=None):
        tol = 1e-9
        sc = ref.scales(at, None)
        if before is not None:
            sb = ref.scales(before, None)
            sc = {p: max(sc[p], sb[p]) for p in sc}
        got = split(dmp, np.asarray(got))
        for p in refdmp.PARTS:
            a, b = np.asarray(got[p]), np.asarray(want[p])
            lim = tol * sc[p] / (ref.tau if what == "rates" else 1.0)
            if what == "state" and p == "z":
                lim *= 1.0
            if not np.all(np.isfinite(b)):
                continue
            ctx.check(a.shape == b.shape and np.all(np.abs(a - b) <= lim), f"{what}-{p}",
                      lambda: f"operation {n} {op}: {what} of {p}: {a} instead of {b}"
                      f" (type {ref.spec['type']}, allowed {lim:.3g})")


# -- D05 ----------------------------------------------------------------------------------------
class D05(ControlCheck):
    id = "D05"
    runs = {"quick": 2500, "thorough": 90000}
    rule = ("A task solver performs rollouts of a few samples in any order and repetition, with"
            " failing (malformed) samples, exceptions at any line of a rollout, later changes to"
            " sample vectors, results and the DMP the solver was made from, and restarts (store and"
            " load); each result has to be bit-identical to that of a new solver in a process of"
            " its own. Also: parameters read back from DMPs.")

    def plan(self, rng, tier, i):
        sched = rng.random() < 0.25
        spec = gen_spec(rng, sched=sched, untrained=0.1)
        plan = {
            "dmp": spec,
            "dt": spec["tau"] / rng.choice([5, 8, 12.5]),
            "beyond": rng.choice([1.0, 1.2, 1.5]),
            "dataframe": rng.random() < 0.15,
            "samples": [{"seed": rng.randrange(2**31), "scale": rng.choice([0.0, 1.0, 50.0]),
                         "form": rng.choice(["array", "array", "list", "int", "view", "tuple"])}
                        for _ in range(rng.randint(1, 4))],
            "pre": [gen_set(rng, spec, dyn=True) for _ in range(rng.choice([0, 0, 1, 2]))],
            "ops": [],
        }
        n_s = len(plan["samples"])
        for _ in range(rng.randint(2, 20)):
            x = rng.random()
            if x < 0.5:
                op = {"op": "rollout", "s": rng.randrange(n_s), "scribble": rng.random() < 0.5,
                      "buffer": rng.random() < 0.25}
            elif x < 0.65:
                op = {"op": "interrupt", "s": rng.randrange(n_s), "n": int(10 ** rng.uniform(0, 3.5))}
            elif x < 0.72:
                op = {"op": "malformed", "kind": rng.choice(["short", "long", "none", "text"])}
            elif x < 0.82:
                op = dict(gen_set(rng, spec, dyn=True), op="source")
            elif x < 0.86:
                op = {"op": "reload", "how": rng.choice(["json", "deepcopy"])}
            elif x < 0.92:
                op = {"op": "direct", "seed": rng.randrange(2**31), "move": rng.random() < 0.7,
                      "tau": rng.choice([1.0, 1.0, 0.6, 3.0])}
            else:
                op = {"op": rng.choice(["readback", "readback", "selection"]),
                      "s": rng.randrange(n_s), "seed": rng.randrange(2**31)}
            plan["ops"].append(op)
        return plan

    def sample(self, plan, k, size):
        s = plan["samples"][k]
        r = rs(s["seed"])
        v = r.standard_normal(size) * s["scale"]
        if s["form"] == "int":
            v = np.round(v).astype(int)
        if s["form"] == "list":
            return [float(e) for e in v]
        if s["form"] == "tuple":
            return tuple(float(e) for e in v)
        if s["form"] == "view":
            m = np.zeros((3, size))
            m[1] = v
            return m[1]
        return v

    def source(self, plan):
        dmp = make_dmp(plan["dmp"])
        for op in plan["pre"]:
            apply_set(dmp, op, plan["dmp"])
        return dmp

    def solver(self, plan, dmp):
        return lib.TaskSolverDmp(dmp, plan["dt"], plan["beyond"], plan["dataframe"])

    def result(self, res):
        return res.to_numpy() if hasattr(res, "to_numpy") else np.array(res)

    def simulate(self, plan, ctx):
        k = ctx.kernel()
        d = ctx.dir("rollouts")
        want = {}
        used = sorted({op["s"] for op in plan["ops"] if "s" in op})
        for s in used:

            def fresh():
                dmp = self.source(plan)
                v = np.array(self.sample(plan, s, int(dmp.get_param_vector_size())), dtype=float)
                return self.result(self.solver(plan, dmp).perform_rollout(v))

            want[s] = ctx.ok(k.run((f"fresh{s}", fresh, 100 + s)))[0].result
        ctx.ok(k.run(("worker", lambda: self.work(plan, ctx, d, want), 1)))

    def work(self, plan, ctx, d, want):
        spec = plan["dmp"]
        dmp = self.source(plan)
        size = int(dmp.get_param_vector_size())
        if spec.get("preselect"):  # only what is selected last counts
            other = self.source(dict(plan, dmp=dict(spec, preselect=None)))
            got, exp = np.atleast_1d(dmp.get_param_vector()), np.atleast_1d(other.get_param_vector())
            ctx.check(size == other.get_param_vector_size() and same_num(got, exp), "selection",
                      lambda: f"the parameters {got} are not those selected last, {exp}")
        solver = self.solver(plan, dmp)
        kept = []  # results returned earlier, and what they were
        buffer = np.zeros(size)
        for n, op in enumerate(plan["ops"]):
            kind = op["op"]
            if kind == "rollout":
                v = self.sample(plan, op["s"], size)
                if op.get("buffer"):  # the caller uses the same array for all its samples
                    buffer[:] = v
                    v = buffer
                before = np.array(v)
                res = solver.perform_rollout(v)
                got = self.result(res)
                ctx.check(same_num(np.array(v), before), "sample-modified", "a rollout modified the sample")
                ctx.check(same_num(got, want[op["s"]]), "rollout-differs",
                          lambda: f"operation {n}: rollout of sample {op['s']} differs from the same"
                          f" rollout in a fresh process: max. deviation"
                          f" {np.max(np.abs(got - want[op['s']])) if got.shape == want[op['s']].shape else 'shape'}")
                ctx.record(got)
                ctx.state(got)
                ctx.count("rollouts")
                for m, old, was in kept:
                    ctx.check(same_num(self.result(old), was), "result-modified",
                              lambda: f"the rollout of operation {n} changed the result of {m}")
                if not op["scribble"]:
                    kept.append((n, res, got.copy()))
                else:
                    ctx.nontrivial()
                    if isinstance(res, np.ndarray):
                        res.fill(1e55)
                    if isinstance(v, np.ndarray):
                        v.fill(7)
                    elif isinstance(v, list):
                        v[:] = [7.0] * len(v)
            elif kind == "interrupt":
                v = self.sample(plan, op["s"], size)
                if interrupt(lambda: solver.perform_rollout(v), op["n"]):
                    ctx.count("fault:exception_in_rollout")
                    ctx.nontrivial()
            elif kind == "malformed":
                bad = {"short": np.ones(max(0, size - 1)), "long": np.ones(size + 2), "none": None,
                       "text": "sample"}[op["kind"]]
                if op["kind"] == "short" and size == 0:
                    continue
                try:
                    solver.perform_rollout(bad)
                except Exception:  # noqa
                    ctx.count("fault:malformed_sample")
                    ctx.nontrivial()
                    continue
                ctx.check(False, "malformed-accepted", f"a sample {op['kind']} was accepted")
            elif kind == "source":
                ctx.count("fault:source_dmp_changed")
                apply_set(dmp, op, spec)
            elif kind == "reload":
                ctx.count("fault:process_replaced")
                if op["how"] == "json":
                    p = os.path.join(d, "solver.json")
                    lib.jc.savejson(p, solver)
                    solver = lib.jc.loadjson(p)
                else:
                    solver = copy.deepcopy(solver)
            elif kind == "direct":
                # the same solver is used for another DMP, which may also start and end elsewhere
                def other_dmp():
                    r = rs(op["seed"])
                    other = self.source(plan)
                    other.set_param_vector(r.standard_normal(size))
                    if op.get("move"):
                        other.y_init = r.standard_normal(spec["dim"])
                        other.y_attr = r.standard_normal(spec["dim"]) + 3.0
                        ctx.nontrivial()
                    if op.get("tau", 1.0) != 1.0:
                        other.tau = other.tau * op["tau"]
                    return other

                given = other_dmp()
                got = self.result(solver.perform_rollout_dmp(given))
                new = self.result(self.solver(plan, self.source(plan)).perform_rollout_dmp(other_dmp()))
                ctx.check(same_num(got, new), "rollout-differs",
                          f"operation {n}: rollout of another DMP differs from one by a new solver")
            elif kind == "readback":
                self.readback(plan, op, ctx, n, size)
            elif kind == "selection":
                self.selection(plan, op, ctx, n)

    def selection(self, plan, op, ctx, n):
        """Training and selecting parameters in any order, with queries in between."""
        spec = plan["dmp"]
        r = random.Random(op["seed"])
        ctx.nontrivial()
        if spec.get("n_sched") or not spec.get("trained", True):
            return self.consistent(ctx, n, self.source(plan), r)
        own = [nm for nm in spec["selected"] if nm != "goal"]
        traj = demo_trajectory(spec)
        fas = make_fas(spec, spec["dim"])
        # Not trained or selected yet
        dmp = lib.Dmp(traj.ts[-1], traj.ys[0, :], traj.ys[-1, :], fas, dmp_type=spec["type"])
        goal, sel, trained = False, [], False
        for _ in range(r.randint(1, 6)):
            what = r.choice(["new", "train", "train", "select", "select", "none", "goal", "reload"])
            if what == "new":
                fas = make_fas(dict(spec, n_bfs=r.randint(2, 6)), spec["dim"])
                dmp.train(traj, function_approximators=fas)
                sel, trained = [], True
            elif what == "train":
                dmp.train(traj)
                trained = True
            elif what == "reload":
                dmp = copy.deepcopy(dmp)
            else:
                sel = own if what == "select" else []
                goal = what == "goal" or (what == "select" and r.random() < 0.4)
                dmp.set_selected_param_names(sel + (["goal"] if goal else []))
            self.consistent(ctx, n, dmp, r)
            exp = sum(np.size(fa._model_params[nm]) for fa in dmp._function_approximators
                      for nm in sel) if trained else 0
            exp += spec["dim"] if goal else 0
            ctx.check(int(dmp.get_param_vector_size()) == exp, "parameter-size",
                      lambda: f"operation {n}: {dmp.get_param_vector_size()} parameters, not {exp}")

    @staticmethod
    def consistent(ctx, n, dmp, r):
        v = np.asarray(dmp.get_param_vector())
        size = int(dmp.get_param_vector_size())
        ctx.check(v.shape == (size,), "parameter-size",
                  lambda: f"operation {n}: parameter vector {v}, but its size is {size}")
        w = v + r.uniform(-1, 1)
        dmp.set_param_vector(w.copy())
        got = np.asarray(dmp.get_param_vector())
        ctx.check(same_num(got, w), "parameters-differ",
                  lambda: f"operation {n}: parameters read back are {got}, those set {w}")
        ctx.count("selections")

    def readback(self, plan, op, ctx, n, size):
        dmp = self.source(plan)
        v = np.array(self.sample(plan, op["s"], size), dtype=float)
        w = rs(op["seed"]).standard_normal(size)
        order = [w, v] if op["seed"] % 2 else [v]
        for u in order:
            dmp.set_param_vector(u.copy())
        given = v.copy()
        dmp.set_param_vector(given)
        given.fill(-3.0)
        for _ in range(2):
            got = np.atleast_1d(dmp.get_param_vector())
            ctx.check(same_num(got, v), "parameters-differ",
                      lambda: f"operation {n}: parameters read back are {got}, those set {v}")
            ctx.check(int(dmp.get_param_vector_size()) == v.size, "parameter-size",
                      "size of the parameter vector")
            got.fill(11.0)
            dmp.analytical_solution(np.linspace(0, dmp.tau, 3))
        # a refused vector changes nothing
        for bad in (w[:-1], np.append(w, 1.0), np.tile(w, 3), np.zeros(0)):
            if bad.size == size:
                continue
            try:
                dmp.set_param_vector(bad)
            except Exception:  # noqa
                ctx.count("fault:malformed_sample")
                got = np.atleast_1d(dmp.get_param_vector())
                ctx.check(same_num(got, v), "refused-but-applied",
                          lambda: f"operation {n}: after a refused vector of {bad.size} values"
                          f" the parameters are {got}, not {v}")
            else:
                ctx.check(False, "malformed-accepted", f"a vector of {bad.size} values was accepted, not {size}")


# -- D06 ----------------------------------------------------------------------------------------
def bound_arrays(spec):
    lo, hi = sched_bounds(spec)
    k = spec["n_sched"]
    lo = np.full(k, -np.inf) if lo is None else np.broadcast_to(np.asarray(lo, float), (k,))
    hi = np.full(k, np.inf) if hi is None else np.broadcast_to(np.asarray(hi, float), (k,))
    return lo, hi


class D06(ControlCheck):
    id = "D06"
    runs = {"quick": 3000, "thorough": 100000}
    rule = ("Online movements of DMPs with 1-3 schedules and all kinds of bounds, with irregular"
            " steps, perturbations, restarts, reloads and extreme parameters; each schedule value"
            " is compared with an independent prediction at the current phase, clipped to the"
            " bounds, and with the offline solution at equal phase.")

    def plan(self, rng, tier, i):
        spec = gen_spec(rng, sched=True)
        if not any(n.startswith("sched_") for n in spec["selected"]) and rng.random() < 0.7:
            spec["selected"] = spec["selected"] + sched_names(rng, spec["fa"])
        plan = {"dmp": spec, "ops": []}
        ops = plan["ops"]
        for _ in range(rng.choice([0, 0, 1])):
            ops.append(gen_set(rng, spec))
        ops.append({"op": "start"})
        p = rng.choice([0.03, 0.1, 0.25])
        for _ in range(rng.randint(5, 40)):
            x = rng.random()
            if x < p:
                ops.append(gen_set(rng, spec, rng.choice(
                    ["params", "params", "goal", "tau", "y_init"])))
            elif x < p + 0.08:
                ops.append(gen_perturb(rng))
            elif x < p + 0.11:
                ops.append({"op": rng.choice(["start", "startat"]), "seed": rng.randrange(2**31)})
            elif x < p + 0.15:
                ops.append({"op": rng.choice(["reload", "other", "interrupt"]),
                            "n": int(10 ** rng.uniform(0, 3)), "seed": rng.randrange(2**31)})
            else:
                h = gen_h(rng, spec["type"])
                if rng.random() < 0.05:
                    h = rng.choice([0.3, 1.0, 2.5])
                ops.append({"op": "step", "h": h})
        return plan

    def simulate(self, plan, ctx):
        k = ctx.kernel()
        d = ctx.dir("sched")
        ctx.ok(k.run(("controller", lambda: self.run_it(plan, ctx, d), 1)))

    def run_it(self, plan, ctx, d):
        spec = plan["dmp"]
        dmp = make_dmp(spec)
        ref = make_ref(dmp, spec)
        lo, hi = bound_arrays(spec)
        x = None
        ctx.nontrivial()
        for n, op in enumerate(plan["ops"]):
            kind = op["op"]
            out = None
            if kind == "set":
                v = apply_set(dmp, op, spec)
                ref = ref_set(ref, op, spec, v, dmp)
                ctx.count("fault:change_" + op["what"])
            elif kind in ("start", "startat"):
                y = start_y(op, spec) if kind == "startat" else None
                out = do_start(dmp, y, "sched")
            elif x is None:
                continue
            elif kind == "perturb":
                ctx.count("fault:perturbation")
                x = perturb(dmp, x, op, spec)
            elif kind == "reload":
                ctx.count("fault:process_replaced")
                p = os.path.join(d, "dmp.json")
                lib.jc.savejson(p, dmp)
                dmp = lib.jc.loadjson(p)
            elif kind == "other":
                other = copy.deepcopy(dmp)
                apply_set(other, dict(op, what="params", scale=500.0), spec)
                o = other.integrate_start_sched(start_y(op, spec))
                other.integrate_step_sched(0.05 * other.tau, o[0])
                dmp.analytical_solution_sched(np.linspace(0, dmp.tau, 4))
            elif kind == "interrupt":
                ctx.count("fault:exception_in_step")
                interrupt(lambda: do_step(dmp, 0.01, x, "sched"), op["n"])
            elif kind == "step":
                out = do_step(dmp, op["h"], x, "sched")
                ctx.sim_time += op["h"] * dmp.tau
            if out is None:
                continue
            x, s = np.array(out[0]), np.array(out[2])
            if not np.all(np.isfinite(x)):
                # the spring-damper or gating got unstable because of a huge step; not the phase
                x = None
            ctx.check(s.shape == (spec["n_sched"],), "shape", lambda: f"schedules {s}")
            ctx.check(bool(np.all(s >= lo) and np.all(s <= hi)), "out-of-bounds",
                      lambda: f"operation {n}: schedules {s} are not within {lo} and {hi}")
            phase = float(np.asarray(out[0])[dmp.PHASE][0])
            if not np.isfinite(phase):
                continue
            want = np.array([fa.predict(phase) for fa in ref.scheds])
            tol = 1e-9 * np.array([1 + fa.scale(phase) * (1 + abs(phase)) for fa in ref.scheds])
            want = np.clip(want, lo, hi)
            ctx.check(bool(np.all(np.abs(s - want) <= tol)), "not-prediction",
                      lambda: f"operation {n} {op}: schedules {s} instead of {want} at phase {phase}")
            self.offline(ctx, n, dmp, ref, phase, s, tol)
            if kind in ("start", "startat"):
                self.default_times(ctx, n, dmp, ref, lo, hi)
            ctx.state(s)
            ctx.record(s)
            s_old = s.copy()
            out[2].fill(-5.0)
            del s_old

    @staticmethod
    def default_times(ctx, n, dmp, ref, lo, hi):
        """The offline solution at the times of the demonstration."""
        xs, _, sched, _, _ = dmp.analytical_solution_sched()
        for row, phase in zip(sched, xs[:, dmp.PHASE][:, 0]):
            want = np.clip([fa.predict(phase) for fa in ref.scheds], lo, hi)
            tol = 1e-6 * np.array([1 + fa.scale(phase) * (1 + abs(phase)) for fa in ref.scheds])
            ctx.check(bool(np.all(np.abs(row - want) <= tol)), "offline-differs",
                      lambda: f"operation {n}: offline schedules {row} instead of {want} at phase {phase}")

    def offline(self, ctx, n, dmp, ref, phase, s, tol):
        """The offline solution at the time at which the phase has this value."""
        tau = dmp.tau
        if ref.phase == "exp":
            if phase < 1e-8:
                return
            t = -np.log(phase) / 4 * tau
        else:
            t = (phase if ref.phase == "up" else 1.0 - phase) * tau
        if t < 0 or t > tau * (5 if ref.phase == "exp" else 1):
            return
        ts = np.array([0.0, 0.5 * t, t])
        off = dmp.analytical_solution_sched(ts)[2][2]
        ctx.check(bool(np.all(np.abs(off - s) <= 1e3 * tol)), "offline-differs",
                  lambda: f"operation {n}: schedules {s} online, {off} offline at phase {phase}")


# -- D07 ----------------------------------------------------------------------------------------
class D07(ControlCheck):
    id = "D07"
    runs = {"quick": 2500, "thorough": 90000}
    rule = ("Two executions of the same program of steps (relative to the time constant) and"
            " disturbances, in one of which the time constant changes at arbitrary moments;"
            " states have to be equal, rates have to scale inversely, also for offline solutions.")

    def plan(self, rng, tier, i):
        spec = gen_spec(rng, custom=0.2)
        plan = {"dmp": spec, "ops": []}
        ops = plan["ops"]
        for _ in range(rng.choice([0, 1, 2])):
            ops.append(gen_set(rng, spec, "tau"))
        ops.append({"op": "start"})
        p = rng.choice([0.05, 0.15, 0.4])
        for _ in range(rng.randint(4, 40)):
            x = rng.random()
            if x < p:
                op = gen_set(rng, spec, "tau")
                if rng.random() < 0.3:
                    op["what"] = "restore"
                elif rng.random() < 0.3:
                    op["f"] = round(10 ** rng.uniform(-2, 2), 4)
                ops.append(op)
            elif x < p + 0.04:
                ops.append(gen_set(rng, spec, rng.choice(["goal", "params", "y_init"] + ([] if "custom" in spec else ["dyn"]))))
            elif x < p + 0.08:
                ops.append(gen_perturb(rng))
            elif x < p + 0.10:
                ops.append({"op": "start"})
            elif x < p + 0.15:
                ops.append({"op": "offline", "n": rng.randint(3, 12), "seed": rng.randrange(2**31)})
            elif x < p + 0.17:
                ops.append({"op": "reload"})
            else:
                ops.append({"op": "step", "h": gen_h(rng, spec["type"]),
                            "mode": rng.choice(["step", "step", "rk", "euler"])})
        ops.append({"op": "offline", "n": 9, "seed": rng.randrange(2**31)})
        if rng.random() < 0.5:
            ops += [{"op": "set", "what": "restore", "seed": 0}, {"op": "start"}]
            ops += [{"op": "step", "h": gen_h(rng, spec["type"]), "mode": "step"} for _ in range(5)]
        return plan

    def simulate(self, plan, ctx):
        k = ctx.kernel()
        d = ctx.dir("tau")
        ctx.ok(k.run(("controllers", lambda: self.run_it(plan, ctx, d), 1)))

    def run_it(self, plan, ctx, d):
        spec = plan["dmp"]
        a, b = make_dmp(spec), make_dmp(spec)  # tau of b never changes
        xa = xb = None
        big = 1.0
        for n, op in enumerate(plan["ops"]):
            kind = op["op"]
            if kind == "set":
                apply_set(a, op, spec)
                if op["what"] in ("tau", "restore"):
                    ctx.count("fault:change_tau")
                    ctx.nontrivial()
                else:
                    apply_set(b, op, spec)
                    ctx.count("fault:change_" + op["what"])
                continue
            if kind == "reload":
                p = os.path.join(d, "a.json")
                lib.jc.savejson(p, a)
                a = lib.jc.loadjson(p)
                continue
            if kind == "offline":
                self.offline(ctx, n, op, a, b)
                continue
            if kind == "start":
                (xa, da), (xb, db) = do_start(a, None, "step"), do_start(b, None, "step")
                big = 1.0
            elif xa is None:
                continue
            elif kind == "perturb":
                ctx.count("fault:perturbation")
                xa, xb = perturb(a, np.array(xa), op, spec), perturb(b, np.array(xb), op, spec)
                continue
            else:
                if self.switching(b, spec, xb, op["h"]):
                    ctx.count("ended_at_phase_switch")
                    xa = None
                    continue
                xa, da = do_step(a, op["h"], xa, op["mode"])
                xb, db = do_step(b, op["h"], xb, op["mode"])
                ctx.sim_time += op["h"] * a.tau
            if not np.all(np.abs(xb) < 1e9):
                ctx.count("diverged")
                xa = None
                continue
            big = max(big, float(np.max(np.abs(xb))), float(np.max(np.abs(db))) * b.tau)
            ctx.check(bool(np.all(np.abs(xa - xb) <= 1e-7 * big)), "state-differs",
                      lambda: f"operation {n} {op}: with changes of tau {xa}, without {xb}")
            ctx.check(bool(np.all(np.abs(da * a.tau - db * b.tau) <= 1e-7 * big)), "rates-differ",
                      lambda: f"operation {n} {op}: rates x tau are {da * a.tau} with and"
                      f" {db * b.tau} without changes of tau")
            ctx.record(np.asarray(xa))
            ctx.state(np.asarray(xa))

    def switching(self, dmp, spec, x, h):
        kind = phase_kind(spec)
        if kind == "exp":
            return False
        s = 1.0 if kind == "time" else -1.0
        end = 1.0 if kind == "time" else 0.0
        ph = float(x[dmp.PHASE][0])
        return any(abs(ph + s * f * h - end) < 1e-7 for f in (0, 0.5, 1, 1 / 6, 1 / 3, 2 / 3, 5 / 6))

    def offline(self, ctx, n, op, a, b):
        r = rs(op["seed"])
        s = np.concatenate(([0.0], np.cumsum(r.uniform(0.01, 0.05, op["n"]))))
        s *= r.choice([1.0, 3.0])
        ra, rb = a.analytical_solution(s * a.tau), b.analytical_solution(s * b.tau)
        for k, what in enumerate(("states", "rates", "forcing", "predictions")):
            u, v = ra[k], rb[k]
            if k == 1:
                u, v = u * a.tau, v * b.tau
                keep = np.abs(s - 1.0) > 1e-9
                u, v = u[keep], v[keep]
            ok = np.abs(v) < 1e9
            scale = 1.0 + (float(np.max(np.abs(v[ok]))) if np.any(ok) else 0.0)
            ctx.check(bool(np.all(np.abs(u - v)[ok] <= 1e-7 * scale)), "offline-" + what,
                      lambda: f"operation {n}: offline {what} differ (tau {a.tau} and {b.tau})")
        ctx.record(ra[0])


# -- D08 ----------------------------------------------------------------------------------------
class D08(ControlCheck):
    id = "D08"
    runs = {"quick": 500, "thorough": 16000}
    rule = ("After any history of parameter changes, movements and reloads, a movement is integrated"
            " online with irregular steps and computed offline (analytical solution, twice, with"
            " extrapolation to step size zero); positions, velocities and the states of the"
            " subsystems have to agree.")

    def plan(self, rng, tier, i):
        spec = gen_spec(rng, custom=0.2)
        plan = {"dmp": spec, "ops": [], "hs": []}
        for _ in range(rng.choice([0, 1, 2, 3, 5])):
            x = rng.random()
            if x < 0.6:
                op = gen_set(rng, spec, dyn=True)
                if op["what"] == "params":
                    op["scale"] = rng.choice([1.0, 30.0, 100.0])
                plan["ops"].append(op)
            elif x < 0.8:
                plan["ops"].append({"op": "move", "n": rng.randint(1, 20), "seed": rng.randrange(2**31),
                                    "at": rng.random() < 0.5})
            elif x < 0.9 and spec["trained"]:
                plan["ops"].append({"op": "set", "what": "train", "seed": rng.randrange(2**31)})
            else:
                plan["ops"].append({"op": "reload"})
        t, m = 0.0, 0.02 if refdmp.SPRING_TYPES[spec["type"]][1] != "richards" else 0.008
        if spec.get("custom"):
            m = 0.008
        end = rng.choice([0.3, 0.8, 1.1])
        while t < end:
            h = round(rng.uniform(0.3, 1.0) * m, 6)
            plan["hs"].append(h)
            t += h
        return plan

    def simulate(self, plan, ctx):
        k = ctx.kernel()
        d = ctx.dir("offline")
        ctx.ok(k.run(("controller", lambda: self.run_it(plan, ctx, d), 1)))

    def run_it(self, plan, ctx, d):
        spec = plan["dmp"]
        dmp = make_dmp(spec)
        for op in plan["ops"]:
            if op["op"] == "set":
                apply_set(dmp, op, spec)
                ctx.count("fault:change_" + op["what"])
            elif op["op"] == "move":
                x, _ = do_start(dmp, start_y(op, spec) if op["at"] else None, "step")
                for _ in range(op["n"]):
                    x, _ = do_step(dmp, 0.01, x, "step")
            else:
                p = os.path.join(d, "dmp.json")
                lib.jc.savejson(p, dmp)
                dmp = lib.jc.loadjson(p)
                ctx.count("fault:process_replaced")
        if not plan["hs"]:
            return
        x, xd = do_start(dmp, None, "step")
        xs, xds = [np.array(x)], [np.array(xd)]
        for h in plan["hs"]:
            x, xd = do_step(dmp, h, x, "step")
            xs.append(np.array(x))
            xds.append(np.array(xd))
        on, on_d = np.array(xs), np.array(xds)
        s = np.concatenate(([0.0], np.cumsum(plan["hs"])))
        ctx.sim_time += s[-1] * dmp.tau
        # about 1000 steps per time constant, which hit all times of the online movement
        m = max(1, int(np.ceil(max(plan["hs"]) / 1e-3)))
        off = []
        for mult in (m, 2 * m):
            fine = np.concatenate(
                [s[k] + (s[k + 1] - s[k]) * np.arange(mult) / mult for k in range(len(s) - 1)]
                + [s[-1:]]
            )
            res = dmp.analytical_solution(fine * dmp.tau)
            off.append((res[0][::mult], res[1][::mult]))
        ext = 2 * off[1][0] - off[0][0]
        ext_d = 2 * off[1][1] - off[0][1]
        self.coarse(ctx, dmp, s, off[1][0], plan)
        ctx.nontrivial()
        y, g = dmp.SPRING_Y, dmp.y_attr
        span = float(np.max(np.abs(on[:, y] - on[0, y]))) + float(np.max(np.abs(g - on[0, y])))
        span += 1e-3
        zspan = float(np.max(np.abs(on[:, dmp.SPRING_Z]))) + span
        end = np.abs(s - 1.0) < 1.5 * max(plan["hs"])  # where the phase stops
        worst = {}
        loose = 8 if spec.get("custom") else 1  # the forcing term may still be large at the end
        for name, idx, scale in (
            ("y", y, span), ("z", dmp.SPRING_Z, zspan), ("goal", dmp.GOAL, span + 1.0),
            ("phase", dmp.PHASE, 1.0), ("gating", dmp.GATING, 1.0), ("damping", dmp.DAMPING, 30.0),
        ):
            e = np.max(np.abs(on[:, idx] - ext[:, idx]), axis=1)
            tol = np.full(len(s), TOL8[name] * scale * loose)
            if name == "phase":
                tol[s > 1.0 - 1.5 * max(plan["hs"])] = 1.01 * max(plan["hs"])
            w = float(np.max(e / tol))
            worst[name] = w
            ctx.check(w <= 1.0, f"offline-{name}",
                      lambda: f"{name} deviates by {np.max(e)} (allowed {np.max(tol)}) between the"
                      f" online and the offline movement; type {spec['type']}, tau {dmp.tau}")
        v_on, v_off = on_d[:, y] * dmp.tau, ext_d[:, y] * dmp.tau
        e = float(np.max(np.abs(v_on - v_off))) / (TOL8["z"] * zspan * loose)
        ctx.check(e <= 1.0, "offline-velocity", lambda: f"velocities differ, {e} x tolerance")
        a_on, a_off = on_d[:, dmp.SPRING_Z] * dmp.tau, ext_d[:, dmp.SPRING_Z] * dmp.tau
        ascale = float(np.max(np.abs(a_on))) + 10 * zspan
        e = float(np.max(np.abs(a_on - a_off)[~end])) / (TOL8["acc"] * ascale * loose) if np.any(~end) else 0
        worst["acc"] = e
        ctx.check(e <= 1.0, "offline-acceleration", lambda: f"accelerations differ, {e} x tolerance")
        ctx.record(on, ext)
        ctx.state(on[-1])
        self.worst = {k: max(v, getattr(self, "worst", {}).get(k, 0)) for k, v in worst.items()}


    def coarse(self, ctx, dmp, s, fine, plan):
        """Subsystems do not depend on the times at which the offline solution is computed."""
        r = rs(len(s))
        keep = sorted({0, len(s) - 1} | set(r.randint(0, len(s), 4).tolist()))
        other = keep  # the same number of times, in the same range
        if len(s) > len(keep):
            middle = r.choice(np.arange(1, len(s) - 1), len(keep) - 2, replace=False)
            other = [0] + sorted(middle.tolist()) + [len(s) - 1]
        for idx in (keep, other, [0, len(s) - 1]):
            xs = dmp.analytical_solution(s[idx] * dmp.tau)[0]
            for name in ("GOAL", "PHASE", "GATING", "DAMPING"):
                i = getattr(dmp, name)
                ctx.check(
                    np.allclose(xs[:, i], fine[idx][:, i], rtol=1e-6, atol=1e-7),
                    "offline-times",
                    lambda: f"offline {name} at {s[idx]} is {xs[:, i]}, but {fine[idx][:, i]} when"
                    f" computed at more times; type {plan['dmp']['type']}, tau {dmp.tau}")


# At least 10 times the deviations which were observed (see tools/calib.py).
TOL8 = {"y": 3e-4, "z": 2e-3, "goal": 2e-4, "phase": 1e-6, "gating": 1e-3, "damping": 1e-6,
        "acc": 3e-3}
