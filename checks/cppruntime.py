"""C01: the C++ implementation, driven by the same simulated control loop as Python."""

import json
import os

import numpy as np

from checks.control import (
    ControlCheck, apply_set, gen_h, gen_perturb, gen_set, perturb, start_y,
)
from simkit import cppsim
from simkit.kernel import Violation
from simkit.repo import lib
from simkit.scenario import cpp_custom, gen_dmp, make_dmp, make_fas, phase_kind, rs

TYPES = ["IJSPEERT_2002_MOVEMENT", "KULVICIUS_2012_JOINING", "COUNTDOWN_2013"]
TOL = 1e-6  # relative to the magnitude of the states; observed deviations are below 1e-8


def cpp_text(obj, d):
    path = os.path.join(d, "obj.json")
    lib.jc.savejson_for_cpp(path, obj)
    with open(path) as f:
        return f.read()


# -- single dynamical systems -------------------------------------------------------------------
def gen_system(rng):
    s = {"class": rng.choice(["Exponential", "Sigmoid", "SpringDamper", "Time"]),
         "dim": rng.choice([1, 1, 2, 3]), "tau": rng.choice([0.5, 1.0, 2.0, 0.8]),
         "seed": rng.randrange(2**31)}
    if s["class"] == "Exponential":
        s["alpha"] = rng.choice([1.0, 4.0, 6, 15.0])
    elif s["class"] == "Sigmoid":
        s["rate"] = rng.choice([-1, 1]) * rng.choice([2.0, 5.0, 10.0, 15.0])
        s["ratio"] = rng.choice([0.2, 0.5, 0.8, 0.9])
    elif s["class"] == "SpringDamper":
        s["damping"] = rng.choice([10.0, 12, 20.0])
        s["spring"] = rng.choice(["CRITICALLY_DAMPED", "CRITICALLY_DAMPED", 80.0, 30.0])
        s["mass"] = rng.choice([1.0, 1.0, 2.5])
    else:
        s["dim"] = 1
        s["down"] = rng.random() < 0.5
    return s


def make_system(s):
    r = rs(s["seed"])
    y0, y1 = r.uniform(0.2, 2, s["dim"]), r.uniform(-2, 2, s["dim"])
    if s["class"] == "Exponential":
        return lib.ExponentialSystem(s["tau"], y0, y1, s["alpha"])
    if s["class"] == "Sigmoid":
        return lib.SigmoidSystem(s["tau"], y0, s["rate"] / s["tau"], s["ratio"])
    if s["class"] == "SpringDamper":
        return lib.SpringDamperSystem(s["tau"], y0, y1, s["damping"], s["spring"], s["mass"])
    return lib.TimeSystem(s["tau"], s["down"])


class C01(ControlCheck):
    id = "C01"
    runs = {"quick": 2500, "thorough": 90000}
    real = ["dmpbbo and the C++ implementation (src/) from /repo's working tree", "numpy",
            "Eigen", "nlohmann::json", "statically linked libstdc++"]
    stub = ["control loop, clock and disturbances (simulated)",
            "the C++ allocator: counted, failing on demand, garbage-filled, with guard words",
            "assert, abort and signals in C++ (end the call and are reported)"]
    rule = ("Simulated control loops drive C++ objects, loaded from the file that Python wrote, and"
            " their Python counterparts through the same interleaved steps, disturbances and"
            " changes, with allocations failing during control steps; results have to agree, no"
            " control step may allocate memory, and the heap has to stay intact.")
    _sim = None

    def setup(self, base_tmp):
        self.path = cppsim.build(os.path.join(base_tmp, "cpp"))

    @property
    def sim(self):
        if C01._sim is None:
            C01._sim = cppsim.Sim(self.path)
        return C01._sim

    # -- plans ------------------------------------------------------------------------------
    def plan(self, rng, tier, i):
        x = rng.random()
        if x < 0.14:
            return self.plan_system(rng)
        if x < 0.2:
            return self.plan_fa(rng)
        objects = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            spec = gen_dmp(rng, small=rng.random() < 0.6, types=TYPES)
            if rng.random() < 0.1:
                spec["trained"] = False
            if rng.random() < 0.2:
                cpp_custom(rng, spec)
            elif rng.random() < 0.15:
                spec["alpha"] = 20.0
                spec["construct"] = rng.choice([0, 0, 1, 2])
                if spec["construct"] == 2:
                    spec.update(type="IJSPEERT_2002_MOVEMENT", trained=False, scaling="NO_SCALING")
            elif spec["trained"] and spec["dim"] > 1 and rng.random() < 0.1:
                spec["untrained"] = sorted(
                    rng.sample(range(spec["dim"]), rng.randrange(1, spec["dim"])))
            if rng.random() < 0.05:
                spec["n_bfs"] = 1
            objects.append(spec)
        n_c = rng.choice([1, 2, 3]) if len(objects) == 1 else len(objects)
        owner = [c % len(objects) for c in range(n_c)]
        ops = [{"op": "start", "c": c} for c in range(n_c)]
        p_set = rng.choice([0.0, 0.05, 0.15])
        p_fail = rng.choice([0.0, 0.1, 0.5])
        for _ in range(rng.randint(10, 60)):
            c = rng.randrange(n_c)
            spec = objects[owner[c]]
            x = rng.random()
            if x < p_set:
                ops.append(dict(gen_set(rng, spec, m=owner[c]), c=c))
                if ops[-1]["what"] == "goal":
                    ops[-1]["fail"] = rng.random() < p_fail
            elif x < p_set + 0.05:
                ops.append(gen_perturb(rng, c))
            elif x < p_set + 0.08:
                ops.append({"op": "start", "c": c})
            elif x < p_set + 0.10:
                ops.append({"op": "startat", "c": c, "seed": rng.randrange(2**31)})
            elif x < p_set + 0.13:
                ops.append(self.gen_offline(rng, c))
            elif x < p_set + 0.16:
                ops.append({"op": "reload", "c": c})
            else:
                ops.append(self.gen_step(rng, c, spec["type"], p_fail))
        return {"objects": objects, "owner": owner, "ops": ops}

    @staticmethod
    def gen_step(rng, c, dmp_type, p_fail):
        return {"op": "step", "c": c, "h": gen_h(rng, dmp_type) or 0.001,
                "mode": rng.choice(["step", "step", "rk", "euler"]),
                "in_place": rng.random() < 0.6,
                "fail": rng.choice([1, 1, 2, 5]) if rng.random() < p_fail else 0}

    @staticmethod
    def gen_offline(rng, c):
        return {"op": "offline", "c": c, "n": rng.randint(1, 15), "seed": rng.randrange(2**31),
                "transposed": rng.random() < 0.3, "traj": rng.random() < 0.6, "how": rng.randrange(5),
                "span": rng.choice([0.5, 1.0, 2.0])}

    def plan_system(self, rng):
        s = gen_system(rng)
        ops = [{"op": "start", "c": 0}]
        for _ in range(rng.randint(5, 30)):
            x = rng.random()
            if x < 0.08:
                op = gen_set(rng, {}, rng.choice(["goal", "tau", "y_init", "x_init"]))
                ops.append(dict(op, c=0))
            elif x < 0.14:
                ops.append(gen_perturb(rng))
            elif x < 0.18:
                ops.append({"op": "start", "c": 0})
            elif x < 0.21:
                ops.append({"op": "startat", "c": 0, "seed": rng.randrange(2**31)})
            elif x < 0.27:
                ops.append(self.gen_offline(rng, 0))
            elif x < 0.31:
                ops.append({"op": "reload", "c": 0})
            else:
                ops.append(self.gen_step(rng, 0, "COUNTDOWN_2013", 0.2))
        return {"system": s, "owner": [0], "ops": ops}

    def plan_fa(self, rng):
        dim = rng.choice([1, 1, 2])
        return {"fa": rng.choice(["RBFN", "LWR"]), "dim": dim,
                "n_bfs": rng.choice([1, 2, 3, 5, 9] if dim == 1 else [1, 2, 3, 4]), "seed": rng.randrange(2**31),
                "ops": [{"op": "predict", "seed": rng.randrange(2**31), "n": rng.randint(1, 6),
                         "rt": rng.random() < 0.7, "fail": rng.random() < 0.3,
                         "far": rng.choice([0.2, 0.2, 1.0, 2.0, 10.0])}
                        for _ in range(rng.randint(1, 10))]}

    # -- execution --------------------------------------------------------------------------
    def simulate(self, plan, ctx):
        k = ctx.kernel()
        d = ctx.dir("cpp")
        body = self.run_fa if "fa" in plan else self.run_it
        ctx.ok(k.run(("controllers", lambda: body(plan, ctx, d), 1)))
        ctx.check(self.sim.heap_ok(), "heap-corrupt",
                  "memory outside of a block was written, or memory was released twice")

    def call(self, ctx, what, fn, armed=False):
        try:
            res = fn()
        except cppsim.CppError as e:
            if armed:
                raise Violation("allocation-failure", f"{what} fails when allocations fail: {e}")
            raise Violation("cpp-error", f"{what}: {e}")
        return res

    def real_time(self, ctx, what, o, fn, fail=0):
        """A call during the control loop; the n-th allocation fails."""
        if fail:
            o.fail_at = int(fail)
            ctx.count("fault:allocation_failure_armed")
        res = self.call(ctx, what, fn, armed=bool(fail))
        ctx.check(o.allocated == 0, "allocates", f"{what}: {o.allocated} dynamic allocations")
        ctx.count("real_time_calls")
        return res

    def load(self, ctx, py, d, kind):
        return self.call(ctx, "loading", lambda: self.sim.load(cpp_text(py, d), kind))

    def run_it(self, plan, ctx, d):
        is_dmp = "objects" in plan
        kind = 0 if is_dmp else 1
        specs = plan["objects"] if is_dmp else [plan["system"]]
        py, cpp = [], []
        for s in specs:
            if s.get("construct") is not None:
                both = self.construct(ctx, s, d)
            else:
                p = make_dmp(s) if is_dmp else make_system(s)
                both = p, self.load(ctx, p, d, kind)
            py.append(both[0])
            cpp.append(both[1])
        n = [o.dim for o in cpp]
        for m, o in enumerate(cpp):
            exp = 3 * py[m].dim_y + 2 if is_dmp else py[m].dim_x
            ctx.check(o.dim == exp and o.dim_y == py[m].dim_y, "dimensions",
                      f"dimensions are {o.dim} and {o.dim_y} in C++")
        state = {}  # controller -> state in C++, state in Python
        big = {}
        try:
            for i, op in enumerate(plan["ops"]):
                c = op["c"]
                m = plan["owner"][c]
                self.one(plan, ctx, d, i, op, c, m, specs[m], py, cpp, n, state, big, is_dmp)
        finally:
            for o in cpp:
                try:
                    o.unload()
                except cppsim.CppError as e:
                    raise Violation("cpp-error", f"unloading: {e}")
        if len(plan["owner"]) > 1 or any(o["op"] not in ("start", "step") for o in plan["ops"]):
            ctx.nontrivial()

    def construct(self, ctx, spec, d):
        """The same DMP from the constructors in Python and C++."""
        trained = make_dmp(spec)
        text = json.loads(cpp_text(trained, d))
        fas, n = "", trained.dim_y
        if spec["trained"]:
            fas = json.dumps(text["_function_approximators"])
        tau, which, kind = float(trained.tau), spec["construct"], spec["type"]
        y0, g = trained.y_init.copy(), trained.y_attr.copy()
        own = {"dmp_type": kind, "forcing_term_scaling": spec["scaling"]}
        amplitudes = None
        if spec["scaling"] == "AMPLITUDE_SCALING":
            amplitudes = own["scaling_amplitudes"] = np.array(trained._scaling_amplitudes, float)
        if kind != "IJSPEERT_2002_MOVEMENT":
            own["gating_system"] = lib.SigmoidSystem(tau, np.ones(1), -10.0 / tau, 0.9)
        if which == 2:
            own["goal_system"] = lib.ExponentialSystem(tau, y0.copy(), g.copy(), 15)
        p = lib.Dmp(tau, y0.copy(), g.copy(),
                    trained._function_approximators if spec["trained"] else None, **own)
        p.set_selected_param_names([s for s in spec["selected"] if spec["trained"] or s == "goal"])
        ctx.count("constructed")
        return p, self.call(ctx, "constructing", lambda: self.sim.construct(
            fas, which, tau, y0, g, kind, spec["scaling"], amplitudes))

    def one(self, plan, ctx, d, i, op, c, m, spec, py, cpp, n, state, big, is_dmp):
        p, o = py[m], cpp[m]
        kind = op["op"]
        if kind == "set":
            self.set(ctx, d, op, m, spec, py, cpp, is_dmp)
            for cc in list(state):
                if plan["owner"][cc] == m:
                    big[cc] += 10.0
            return
        if kind == "reload":
            ctx.count("fault:process_replaced")
            self.replace(ctx, d, m, py, cpp, is_dmp)
            return
        if kind == "offline":
            self.offline(ctx, i, op, p, o, n[m], spec, is_dmp)
            return
        if kind in ("start", "startat"):
            y = None
            if kind == "startat":
                y = start_y(op, spec)
                if not is_dmp:
                    if spec["class"] == "Time":
                        return
                    y = np.abs(y) + 0.1
            xp, dp = p.integrate_start(None if y is None else y.copy())
            xc, dc = self.call(ctx, "integrateStart", lambda: o.start(y))
            big[c] = 1.0
        elif c not in state:
            return
        elif kind == "perturb":
            ctx.count("fault:perturbation")
            xc, xp = state[c]
            delta = self.delta(p, xp, op, spec, is_dmp)
            state[c] = (xc + delta[: n[m]], xp + delta)
            return
        else:
            xc, xp = state[c]
            dt = op["h"] * p.tau
            if self.switching(p, xp, op["h"], spec, is_dmp):
                ctx.count("ended_at_phase_switch")
                del state[c]
                return
            xp, dp = getattr(p, {"step": "integrate_step", "rk": "integrate_step_runge_kutta",
                                 "euler": "integrate_step_euler"}[op["mode"]])(dt, xp)
            xc, dc = self.real_time(ctx, f"operation {i}: control step ({op['mode']})", o,
                                    lambda: o.step(dt, xc, op["mode"], op["in_place"]),
                                    op.get("fail", 0))
            ctx.sim_time += dt
        xp, dp = np.asarray(xp, float).reshape(-1), np.asarray(dp, float).reshape(-1)
        if not np.all(np.abs(xp) < 1e7):
            ctx.count("diverged")
            state.pop(c, None)
            return
        self.compare(ctx, i, op, p, o, n[m], xc, xp, dc, dp, big, c, is_dmp)
        state[c] = (xc, xp)
        ctx.state(xc)

    def compare(self, ctx, i, op, p, o, n, xc, xp, dc, dp, big, c, is_dmp):
        big[c] = max(big[c], float(np.max(np.abs(xp[:n]))), float(np.max(np.abs(dp[:n]))) * p.tau)
        tol = TOL * big[c]
        ctx.check(abs(o.tau - p.tau) <= 1e-12 * p.tau, "tau", f"tau is {o.tau} instead of {p.tau}")
        ctx.check(bool(np.all(np.abs(xc - xp[:n]) <= tol)), "state-differs",
                  lambda: f"operation {i} {op}: state {xc} in C++, {xp[:n]} in Python")
        ctx.check(bool(np.all(np.abs(dc - dp[:n]) * p.tau <= tol)), "rates-differ",
                  lambda: f"operation {i} {op}: rates {dc} in C++, {dp[:n]} in Python")
        if is_dmp and op["op"] == "step":
            got = self.real_time(ctx, "stateAsPosVelAcc", o, o.pos_vel_acc, op.get("fail", 0))
            exp = p.states_as_pos_vel_acc(xp, dp)
            for what, a, b, f in zip(("position", "velocity", "acceleration"), got, exp,
                                     (1, p.tau, p.tau**2)):
                ctx.check(bool(np.all(np.abs(a - b) * f <= tol)), what + "-differs",
                          lambda: f"operation {i} {op}: {what} {a} in C++, {b} in Python")
        if op["op"] == "step" and op["mode"] != "euler":
            again = self.real_time(ctx, "differentialEquation", o, lambda: o.rates(xc))
            ctx.check(bool(np.all(np.abs(again - dc) * p.tau <= tol)), "rates-differ",
                      lambda: f"operation {i}: rates {dc}, but differentialEquation gives {again}")
        ctx.record(np.round(xc / (1e-3 * big[c])))

    def delta(self, p, xp, op, spec, is_dmp):
        before = np.array(xp, float)
        if is_dmp:
            return perturb(p, before.copy(), op, spec) - before
        if spec["class"] == "Time":
            return np.zeros(1)
        return rs(op["seed"]).uniform(0, 0.1, before.size) * op["size"] * (
            before if spec["class"] == "Sigmoid" else 1.0)

    def switching(self, p, xp, h, spec, is_dmp):
        if is_dmp:
            kind = phase_kind(spec)
            if kind == "exp":
                return False
            up, ph = kind == "time", float(xp[p.PHASE][0])
        else:
            if spec["class"] != "Time":
                return False
            up, ph = not spec["down"], float(np.asarray(xp).reshape(-1)[0])
        s, end = (1.0, 1.0) if up else (-1.0, 0.0)
        return any(abs(ph + s * f * h - end) < 1e-7 for f in (0, 0.5, 1, 1 / 6, 1 / 3, 2 / 3, 5 / 6))

    def set(self, ctx, d, op, m, spec, py, cpp, is_dmp):
        p, o = py[m], cpp[m]
        what = op["what"]
        ctx.count("fault:change_" + what)
        if is_dmp:
            apply_set(p, op, spec)
            goal, y0 = getattr(p, "y_attr", None), p.y_init
        else:
            r = rs(op["seed"])
            goal, y0 = r.uniform(-2, 2, spec["dim"]), r.uniform(0.2, 2, spec["dim"])
            if what == "tau":
                p.tau = spec["tau"] * op["f"]
            elif what == "goal":
                if spec["class"] in ("Exponential", "SpringDamper"):
                    p.y_attr = goal.copy()
                else:
                    return
            elif what == "x_init" and spec["class"] == "SpringDamper":
                p.x_init = np.concatenate((y0, r.uniform(-5, 5, spec["dim"])))  # moving already
            elif spec["class"] != "Time":
                p.y_init = y0.copy()
            else:
                return
        if what == "goal":
            self.real_time(ctx, "set_y_attr", o, lambda: o.set_goal(goal), op.get("fail", 0))
        elif what == "tau":
            self.call(ctx, "set_tau", lambda: o.set_tau(p.tau))
        elif what == "y_init":
            self.call(ctx, "set_y_init", lambda: o.set_y_init(y0))
        else:
            self.replace(ctx, d, m, py, cpp, is_dmp)

    def replace(self, ctx, d, m, py, cpp, is_dmp):
        """Python stores the object, a new C++ process loads it."""
        new = self.load(ctx, py[m], d, 0 if is_dmp else 1)
        old, cpp[m] = cpp[m], new
        self.call(ctx, "unloading", old.unload)

    def offline(self, ctx, i, op, p, o, n, spec, is_dmp):
        r = rs(op["seed"])
        if not is_dmp and spec["class"] == "SpringDamper" and (
                spec["spring"] != "CRITICALLY_DAMPED"):
            return
        s = np.concatenate(([0.0], np.cumsum(r.uniform(0.2, 1.0, op["n"]))))
        s *= op["span"] / s[-1]
        if op["span"] == 1.0:
            s *= 0.999
        if is_dmp and np.max(np.diff(s)) > 0.08:
            s = np.linspace(0.0, op["span"] * 0.999, 60)
        ts = s * p.tau
        res = p.analytical_solution(ts)
        xs, xds = np.asarray(res[0])[:, :n], np.asarray(res[1])[:, :n]
        if not np.all(np.abs(xs) < 1e7):
            return
        big = 1.0 + float(np.max(np.abs(xs))) + float(np.max(np.abs(xds))) * p.tau
        got = self.call(ctx, "analyticalSolution", lambda: o.analytical(ts, op["transposed"]))
        for what, a, b, f in zip(("states", "rates"), got, (xs, xds), (1.0, p.tau)):
            ctx.check(a.shape == b.shape and bool(np.all(np.abs(a - b) * f <= TOL * big)),
                      "offline-" + what, lambda: f"operation {i} {op}: {what} differ by"
                      f" {np.max(np.abs(a - b))} at {np.argwhere(~(np.abs(a - b) * f <= TOL * big))[:3]}")
        if is_dmp and op["traj"]:
            a, *terms = self.call(ctx, "trajectory", lambda: o.trajectory(ts, op.get("how", 0)))
            b = p.states_as_trajectory(ts, res[0], res[1]).as_matrix()
            f = np.array([1.0] + [1.0] * p.dim_y + [p.tau] * p.dim_y + [p.tau**2] * p.dim_y)
            ctx.check(a.shape == b.shape and bool(np.all(np.abs(a - b) * f <= TOL * big)),
                      "trajectory-differs", f"operation {i}: trajectories differ")
            for what, a, b in zip(("forcing terms", "function approximators"), terms, res[2:4]):
                ctx.check(a is None or bool(np.all(np.abs(a - b) <= TOL * (
                    big + np.max(np.abs(b))))), "terms-differ", f"operation {i}: {what} differ")
        ctx.count("offline_solutions")

    # -- function approximators -------------------------------------------------------------
    def run_fa(self, plan, ctx, d):
        r = rs(plan["seed"])
        k = plan["dim"]
        cls = {"RBFN": lib.FunctionApproximatorRBFN, "LWR": lib.FunctionApproximatorLWR}[plan["fa"]]
        fa = cls([plan["n_bfs"]] * k, r.choice([0.5, 0.7]))
        inputs = r.uniform(0, 1, (60 if k == 1 else 400, k))
        fa.train(inputs, np.sin(5 * inputs[:, 0]) + inputs.sum(axis=1))
        o = self.load(ctx, fa, d, 2)
        for i, op in enumerate(plan["ops"]):
            far = op["far"]
            x = rs(op["seed"]).uniform(-far, 1.0 + far, (op["n"], k))
            exp = np.asarray(fa.predict(x), float).reshape(-1)
            if op["rt"]:
                got = self.real_time(ctx, f"operation {i}: predictRealTime", o,
                                     lambda: o.predict(x, True), int(op["fail"]))
            else:
                got = self.call(ctx, "predict", lambda: o.predict(x))
            big = 1.0 + float(np.max(np.abs(exp)))
            big += float(np.max(np.abs(np.asarray(fa.get_param_vector(), float)), initial=0.0))
            ctx.check(bool(np.all(np.abs(got - exp) <= TOL * big)), "prediction-differs",
                      lambda: f"operation {i} {op}: {got} in C++, {exp} in Python")
            ctx.record(np.round(got / (1e-3 * big)))
            ctx.state(got)
        self.call(ctx, "unloading", o.unload)
        ctx.nontrivial()
