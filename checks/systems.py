"""D09: single dynamical systems, integrated online and offline."""

import copy
import math
import os

import numpy as np

from checks.control import ControlCheck, frozen, interrupt, shared
from simkit.kernel import Violation
from simkit.repo import lib
from simkit.scenario import rs, same_num

KINDS = ["exp", "exp", "sigmoid", "sigmoid", "gating", "richards", "richards", "time", "spring",
         "spring", "spring_free"]


# -- specifications -----------------------------------------------------------------------------
def gen_system(rng):
    kind = rng.choice(KINDS)
    d = 1 if kind == "time" else rng.choice([1, 1, 2, 3])
    spec = {"kind": kind, "dim": d, "seed": rng.randrange(2**31), "vec": rng.random() < 0.4,
            "tau": rng.choice([1.0, 0.5, 2.0, rng.uniform(0.2, 4.0)])}
    if kind == "time":
        spec["down"] = rng.random() < 0.5
    if kind == "richards":
        spec["left"] = rng.random() < 0.2
    return spec


def vec_or(spec, r, lo, hi):
    v = r.uniform(lo, hi, spec["dim"])
    return v if spec["vec"] else float(v[0])


def params(spec):
    """The parameters that the specification stands for."""
    r = rs(spec["seed"])
    d = spec["dim"]
    p = {"y0": r.uniform(0.3, 1.5, d) * r.choice([-1, 1], d), "g": r.uniform(-2, 2, d)}
    k = spec["kind"]
    if k == "exp":
        p["alpha"] = vec_or(spec, r, 1, 15)
    if k == "sigmoid":
        p["rate"] = vec_or(spec, r, 2, 15) * r.choice([-1, 1])  # times tau
        p["infl"] = vec_or(spec, r, 0.1, 0.6)
    if k == "richards":
        p["alpha"] = vec_or(spec, r, 2, 10)
        p["v"] = vec_or(spec, r, 0.5, 4)
        p["infl"] = vec_or(spec, r, 0.1, 1.0)
        p["g"] = p["y0"] + r.choice([-1, 1], d) * r.uniform(0.5, 2, d)
        if spec.get("left"):
            p["left"] = p["y0"] - (p["g"] - p["y0"]) * r.uniform(0.05, 0.5, d)
    if k.startswith("spring"):
        p["d"] = vec_or(spec, r, 5, 20)
        p["m"] = vec_or(spec, r, 0.5, 2)
        p["k"] = p["d"] ** 2 / (4 * p["m"])
        if k == "spring_free":
            p["k"] = p["k"] * vec_or(spec, r, 0.5, 3)
    return p


def make_system(spec):
    p, tau, k = params(spec), spec["tau"], spec["kind"]
    if k == "exp":
        return lib.ExponentialSystem(tau, p["y0"], p["g"], p["alpha"])
    if k == "sigmoid":
        return lib.SigmoidSystem(tau, p["y0"], p["rate"] / tau, p["infl"])
    if k == "gating":
        return lib.SigmoidSystem.for_gating(tau, 0.1, spec["dim"])
    if k == "richards":
        s = lib.RichardsSystem(tau, p["y0"], p["g"], p["infl"], p["alpha"], p["v"])
        if "left" in p:
            s.set_left_asymp(p["left"])
        return s
    if k == "time":
        return lib.TimeSystem(tau, spec["down"])
    if k == "spring" and not spec["vec"] and rs(spec["seed"]).rand() < 0.5:
        return lib.SpringDamperSystem(tau, p["y0"], p["g"], p["d"] / p["m"])
    if k == "spring" and not spec["vec"] and spec["seed"] % 3 == 0:
        return lib.SpringDamperSystem(tau, p["y0"], p["g"], p["d"], "CRITICALLY_DAMPED", p["m"])
    if spec["vec"] and spec["seed"] % 2:  # per-dimension parameters, set after decoupling
        s = lib.SpringDamperSystem(tau, p["y0"], p["g"], 20.0)
        s.decouple_parameters()
        s.damping_coefficient, s.spring_constant, s.mass = p["d"], p["k"], p["m"]
        return s
    return lib.SpringDamperSystem(tau, p["y0"], p["g"], p["d"], p["k"], p["m"])


# -- the reference ------------------------------------------------------------------------------
class RefSystem:
    """Closed-form solutions, from any state, and differential equations; per dimension."""

    def __init__(self, spec):
        p = params(spec)
        d = spec["dim"]
        self.spec, self.kind, self.dim = spec, spec["kind"], d
        self.tau = spec["tau"]
        self.x0 = p["y0"].copy()
        self.g = p["g"].copy()
        self.p = {n: np.full(d, v) if np.isscalar(v) else np.array(v)
                  for n, v in p.items() if n not in ("y0", "g")}
        if self.kind == "gating":
            self.x0 = np.ones(d)
            small = 1e-6
            rate = -math.log((((1 + small) / 0.1) - 1) / small)
            self.p["rate"] = np.full(d, rate)
            self.p["infl"] = np.full(d, -math.log(1 / small) / rate)
        if self.kind == "time":
            self.x0 = np.array([1.0 if spec["down"] else 0.0])
        if self.kind.startswith("spring"):
            self.x0 = np.concatenate((self.x0, np.zeros(d)))
            if self.kind == "spring" and not spec["vec"] and rs(spec["seed"]).rand() < 0.5:
                m = self.p["m"]
                self.p = {"d": self.p["d"] / m, "m": np.ones(d), "k": self.p["k"] / m}
        self.goal = self.g

    def cap(self):
        """Capacities of sigmoid systems."""
        return self.x0 * (1.0 + np.exp(self.p["rate"] * self.p["infl"]))

    def left(self):
        if "left" in self.p:
            return self.p["left"]
        v, a, t = self.p["v"], self.p["alpha"], self.p["infl"]
        z = (v * np.exp(a * v * t) + 1.0) ** (1.0 / v)
        return (z * self.x0 - self.g) / (z - 1.0)

    def inside(self, x):
        """Is the state in the range in which the system is well-defined?"""
        if self.kind in ("sigmoid", "gating"):
            u = x / self.cap()
            return bool(np.all(u > 1e-9) and np.all(u < 1.0))
        if self.kind == "richards":
            left = self.left()
            if np.any(np.abs(self.g - left) < 1e-3):
                return False
            r = (x - left) / (self.g - left)
            return bool(np.all(r > 1e-3) and np.all(r < 3))
        return True

    def fastest(self):
        if self.kind == "exp":
            return float(np.max(self.p["alpha"]))
        if self.kind in ("sigmoid", "gating"):
            return float(np.max(np.abs(self.p["rate"])))
        if self.kind == "richards":
            # up to 3 times the asymptote
            v = self.p["v"]
            return float(np.max(self.p["alpha"] * (v + 1) * np.maximum(1.0, 3.0**v / 3)))
        if self.kind == "time":
            return 1.0
        return float(np.max(np.sqrt(self.p["k"] / self.p["m"]) + self.p["d"] / self.p["m"]))

    def flow(self, x, s):
        """The state a duration s (times tau) after x."""
        k, p, g = self.kind, self.p, self.g
        if k == "exp":
            return g + (x - g) * np.exp(-p["alpha"] * s)
        if k in ("sigmoid", "gating"):
            c = self.cap()
            return c / (1.0 + (c - x) / x * np.exp(-p["rate"] * s))
        if k == "richards":
            left, v = self.left(), p["v"]
            r = (x - left) / (g - left)
            q = r**-v - 1.0
            return left + (g - left) * (1.0 + q * np.exp(-p["alpha"] * v * s)) ** (-1.0 / v)
        if k == "time":
            return np.maximum(x - s, np.minimum(x, 0)) if self.spec["down"] else np.minimum(
                x + s, np.maximum(x, 1.0))
        n = self.dim
        out = np.zeros(2 * n)
        for i in range(n):
            y, z = x[i] - g[i], x[n + i]
            w2, c = p["k"][i] / p["m"][i], p["d"][i] / (2 * p["m"][i])
            e, disc = math.exp(-c * s), c * c - w2
            if abs(disc) < 1e-9 * w2:
                a, b = 1.0, s
            elif disc > 0:
                w = math.sqrt(disc)
                a, b = math.cosh(w * s), math.sinh(w * s) / w
            else:
                w = math.sqrt(-disc)
                a, b = math.cos(w * s), math.sin(w * s) / w
            out[i] = g[i] + e * (y * a + (z + c * y) * b)
            out[n + i] = e * (z * a - (w2 * y + c * z) * b)
        return out

    def rate(self, x):
        k, p, g = self.kind, self.p, self.g
        if k == "exp":
            r = p["alpha"] * (g - x)
        elif k in ("sigmoid", "gating"):
            r = p["rate"] * x * (1.0 - x / self.cap())
        elif k == "richards":
            left = self.left()
            r = p["alpha"] * (1.0 - ((x - left) / (g - left)) ** p["v"]) * (x - left)
        elif k == "time":
            r = np.where(x > 0, -1.0, 0.0) if self.spec["down"] else np.where(x < 1, 1.0, 0.0)
        else:
            n = self.dim
            r = np.concatenate((x[n:], (-p["k"] * (x[:n] - g) - p["d"] * x[n:]) / p["m"]))
        return r / self.tau

    def scale(self, x):
        s = 1e-12 + float(np.max(np.abs(x))) + float(np.max(np.abs(self.x0)))
        if self.kind == "time":
            s += 1.0
        if self.kind not in ("time", "sigmoid", "gating"):
            s += float(np.max(np.abs(self.g)))
        if self.kind in ("sigmoid", "gating"):
            s += float(np.max(np.abs(self.cap())))
        if self.kind == "richards":
            gap = float(np.min(np.abs(self.g - self.left())))
            s += float(np.max(np.abs(self.left())))
            s *= 1 + s / gap
        return s

    def switching(self, *xs):
        end = 0.0 if self.spec.get("down") else 1.0
        return self.kind == "time" and any(abs(float(x[0]) - end) < 1e-9 for x in xs)


# -- the check ----------------------------------------------------------------------------------
class D09(ControlCheck):
    id = "D09"
    runs = {"quick": 8000, "thorough": 150000}
    rule = ("Single dynamical systems (exponential, sigmoid, gating, Richards, time, spring-damper)"
            " and copies of them are integrated online with irregular steps, stalls, perturbations,"
            " changes of time constant, attractor and initial state, decoupled parameters, reloads,"
            " and exceptions; each step is compared with an independent closed-form solution from"
            " the state before the step, rates with the differential equation, and offline"
            " solutions with the closed-form solution from the initial state.")
    stub = ControlCheck.stub + ["closed-form solutions (checks/systems.py) as oracle"]
    state_measure = "hash of the state after each step"

    def plan(self, rng, tier, i):
        n_m = rng.choice([1, 1, 2])
        plan = {"sys": [gen_system(rng)], "ops": []}
        if n_m == 2 and rng.random() < 0.6:
            plan["sys"].append(gen_system(rng))
        ops = plan["ops"]
        for m in range(n_m):
            ops.append({"op": "start", "m": m})
        p = rng.choice([0.05, 0.15, 0.3])
        for _ in range(rng.randint(5, 40)):
            m = rng.randrange(n_m)
            x = rng.random()
            seed = rng.randrange(2**31)
            if x < p:
                ops.append({"op": "set", "m": m, "seed": seed,
                            "what": rng.choice(["tau", "tau", "attr", "attr", "y_init", "x_init",
                                                "decouple"]),
                            "f": rng.choice([0.5, 2.0, 1.0, rng.uniform(0.1, 5.0)])})
            elif x < p + 0.08:
                ops.append({"op": "perturb", "m": m, "seed": seed})
            elif x < p + 0.14:
                ops.append({"op": rng.choice(["start", "startat"]), "m": m, "seed": seed})
            elif x < p + 0.26:
                ops.append({"op": "offline", "m": m, "seed": seed,
                            "n": rng.choice([1, 2, 5, 9]),
                            "order": rng.choice(["sorted", "sorted", "any"])})
            elif x < p + 0.32:
                ops.append({"op": "integrate", "m": m, "seed": seed, "n": rng.choice([1, 2, 6]),
                            "method": rng.choice(["Runge-Kutta", "Euler", None])})
            elif x < p + 0.36:
                ops.append({"op": "reload", "m": m, "how": rng.choice(["json", "json", "copy"])})
            elif x < p + 0.42:
                ops.append({"op": "interrupt", "m": m, "n": int(10 ** rng.uniform(0, 2.2)),
                            "what": rng.choice(["step", "rate", "offline", "start"])})
            else:
                h = rng.choice([1.0, 1.0, 0.3, 0.0, 1e-4, rng.random()])
                ops.append({"op": "step", "m": m, "h": h,
                            "mode": rng.choice(["rk", "step", "step", "euler"])})
        return plan

    def simulate(self, plan, ctx):
        k = ctx.kernel()
        d = ctx.dir("systems")
        ctx.ok(k.run(("controllers", lambda: self.run_it(plan, ctx, d), 1)))

    def run_it(self, plan, ctx, d):
        n_m = max([op["m"] for op in plan["ops"]], default=-1) + 1
        specs = [plan["sys"][m % len(plan["sys"])] for m in range(n_m)]
        systems = [make_system(s) for s in specs]
        refs = [RefSystem(s) for s in specs]
        if n_m == 2 and len(plan["sys"]) == 1:
            systems[1] = copy.deepcopy(systems[0])
        xs = [None] * n_m
        for n, op in enumerate(plan["ops"]):
            m, kind = op["m"], op["op"]
            s, ref = systems[m], refs[m]

            def tell(text, got, want):
                return f"operation {n} {op}, {specs[m]['kind']} system: {text} {got} instead of {want}"

            if kind in ("start", "startat"):
                y = None
                if kind == "startat":
                    y = self.new_y(ref, op["seed"])
                    self.set_y(ref, y)
                x, xd = s.integrate_start(None if y is None else frozen(y))
                x, xd = self.flat(ctx, ref, x), self.flat(ctx, ref, xd)
                ctx.check(same_num(x, ref.x0), "start", lambda: tell("started at", x, ref.x0))
                self.rates(ctx, ref, x, xd, tell)
                xs[m] = x.copy()
                x.fill(1e55)  # what is returned belongs to the caller
            elif kind == "set":
                ctx.count("fault:change_" + op["what"])
                self.change(s, ref, op)
            elif kind == "reload":
                ctx.count("fault:process_replaced")
                if op["how"] == "copy":
                    systems[m] = copy.deepcopy(s)
                else:
                    p = os.path.join(d, "system.json")
                    lib.jc.savejson(p, s)
                    systems[m] = lib.jc.loadjson(p)
            elif kind == "offline":
                self.offline(ctx, s, ref, op, tell)
            elif kind == "integrate":
                self.integrate(ctx, s, ref, op, tell)
            elif kind == "interrupt":
                x = ref.x0 if xs[m] is None else xs[m]
                if not ref.inside(x):
                    continue
                call = {"step": lambda: s.integrate_step(0.001, x.copy()),
                        "rate": lambda: s.differential_equation(x.copy()),
                        "offline": lambda: s.analytical_solution(np.array([0.0, 0.1])),
                        "start": lambda: s.integrate_start()}[op["what"]]
                if interrupt(call, op["n"]):
                    ctx.count("fault:exception_in_step")
            elif xs[m] is None or not ref.inside(xs[m]):
                xs[m] = None
            elif kind == "perturb":
                ctx.count("fault:perturbation")
                xs[m] = self.perturb(ref, xs[m], op["seed"])
            elif kind == "step":
                xs[m] = self.step(ctx, s, ref, xs[m], op, tell)

    def flat(self, ctx, ref, x):
        x = np.asarray(x)
        ctx.check(x.size == ref.x0.size, "shape", lambda: f"{x} has {x.size} elements")
        return np.array(x, dtype=float).reshape(-1)

    def new_y(self, ref, seed):
        r = rs(seed)
        y = r.uniform(0.3, 1.5, ref.dim) * r.choice([-1, 1], ref.dim)
        if ref.kind == "time":
            y = np.array([r.choice([0.0, 0.5, 1.0, r.rand()])])
        if ref.kind == "sigmoid":
            c = r.rand()
            if c < 0.25:  # small in absolute terms
                y *= 10.0 ** r.uniform(-10, 0)
            elif c < 0.5:  # almost what it was
                y = ref.x0[:ref.dim] * (1 + 10.0 ** r.uniform(-7, -1))
        if ref.kind == "richards":
            # on the other side of the attractor than the attractor is of it now, or not
            y = ref.g + r.choice([-1, 1], ref.dim) * r.uniform(0.3, 2, ref.dim)
            if "left" in ref.p:
                y = ref.p["left"] + (ref.g - ref.p["left"]) * r.uniform(0.05, 0.9, ref.dim)
        return y

    def set_y(self, ref, y):
        ref.x0 = np.concatenate((y, np.zeros(ref.x0.size - y.size)))

    def change(self, s, ref, op):
        r = rs(op["seed"])
        what = op["what"]
        if what == "tau":
            ref.tau = ref.spec["tau"] * op["f"]
            s.tau = ref.tau
        elif what == "attr":
            if ref.kind in ("exp", "spring", "spring_free"):
                g = r.uniform(-2, 2, ref.dim)
            elif ref.kind == "richards":
                g = ref.x0 + r.choice([-1, 1], ref.dim) * r.uniform(0.5, 2, ref.dim)
                if "left" in ref.p:
                    g = ref.p["left"] + (ref.x0 - ref.p["left"]) * r.uniform(1.5, 10, ref.dim)
            else:
                return
            ref.g = g
            given = g.copy()
            if ref.kind == "exp" and op["seed"] % 2:
                s.x_attr = given
            else:
                s.y_attr = given
        elif what == "y_init":
            y = self.new_y(ref, op["seed"])
            self.set_y(ref, y)
            s.y_init = y.copy()
        elif what == "x_init":
            y = self.new_y(ref, op["seed"])
            self.set_y(ref, y)
            if ref.kind.startswith("spring"):
                ref.x0[ref.dim:] = r.uniform(-5, 5, ref.dim)
            s.x_init = ref.x0.copy()
        elif what == "decouple":
            s.decouple_parameters()

    def perturb(self, ref, x, seed):
        r = rs(seed)
        if ref.kind in ("sigmoid", "gating"):
            return ref.cap() * r.uniform(0.01, 0.99, ref.dim)
        if ref.kind == "richards":
            left = ref.left()
            return left + (ref.g - left) * r.uniform(0.01, 1.5, ref.dim)
        if ref.kind == "time":
            return np.array([r.uniform(0, 1)])
        return x + r.uniform(-1, 1, x.size)

    def rates(self, ctx, ref, x, xd, tell):
        if not ref.inside(x) or ref.switching(x):
            return
        want = ref.rate(x)
        tol = 1e-10 * ref.scale(x) * (1 + ref.fastest()) ** 2 / ref.tau
        ctx.check(bool(np.all(np.abs(xd - want) <= tol)), "rates",
                  lambda: tell(f"at state {x}: rates", xd, want))

    def step(self, ctx, s, ref, x, op, tell):
        h = op["h"] * 0.05 / ref.fastest()
        given = frozen(x)
        fn = {"rk": s.integrate_step_runge_kutta, "step": s.integrate_step,
              "euler": s.integrate_step_euler}[op["mode"]]
        new, xd = fn(h * ref.tau, given)
        for a in (new, xd):
            if shared(np.asarray(a), given) or shared(np.asarray(a), s.x_init):
                raise Violation("shared-memory", "a returned array shares memory with the given"
                                " state or with the system")
        if not same_num(given, x):
            raise Violation("state-modified", "integrating modified the state it was given")
        new, xd = self.flat(ctx, ref, new), self.flat(ctx, ref, xd)
        ctx.sim_time += h * ref.tau
        ctx.nontrivial()
        sc = ref.scale(x)
        if op["mode"] == "euler":
            want = x + h * ref.tau * ref.rate(x)
            tol = 1e-10 * sc
            self.rates(ctx, ref, x, xd, tell)
            if ref.switching(x):
                return new
        else:
            want = ref.flow(x, h)
            # A step which passes the end of a time system may end anywhere in between.
            tol = 2e-8 * sc
            if ref.kind == "time" and (want[0] in (0.0, 1.0) or ref.switching(x, want)):
                tol = 1.01 * h + 1e-9
            self.rates(ctx, ref, new, xd, tell)
        ctx.check(bool(np.all(np.abs(new - want) <= tol)), "state",
                  lambda: tell(f"a step of {h} tau from {x} leads to", new, want))
        ctx.state(new)
        ctx.record(new, xd)
        return new

    def offline(self, ctx, s, ref, op, tell):
        if ref.kind == "spring_free" or not ref.inside(ref.x0):
            return
        if ref.kind == "time" and ref.x0[0] != (1.0 if ref.spec["down"] else 0.0):
            return  # the offline solution of time systems always starts at the beginning
        r = rs(op["seed"])
        ss = r.uniform(0, r.choice([0.1, 1.0, 1.5]), op["n"])
        if op["order"] == "sorted":
            ss = np.sort(ss)
            ss[0] = 0.0
        ts = frozen(ss * ref.tau)
        out, out_d = s.analytical_solution(ts)
        shape = (op["n"], ref.x0.size)
        ctx.check(out.shape == shape and out_d.shape == shape, "shape",
                  lambda: tell("offline solutions of shape", (out.shape, out_d.shape), shape))
        sc = ref.scale(ref.x0)
        for k, t in enumerate(ss):
            want = ref.flow(ref.x0, t)
            tol = 1e-9 * sc * (1 + ref.fastest())
            ctx.check(bool(np.all(np.abs(out[k] - want) <= tol)), "offline-state",
                      lambda: tell(f"offline from {ref.x0} after {t} tau:", out[k], want))
            if ref.kind == "time" and abs(t - 1.0) < 1e-9:
                continue
            want_d = ref.rate(want)
            tol = 1e-9 * sc * (1 + ref.fastest()) ** 2 / ref.tau
            ctx.check(bool(np.all(np.abs(out_d[k] - want_d) <= tol)), "offline-rates",
                      lambda: tell(f"offline rates from {ref.x0} after {t} tau:", out_d[k], want_d))
        ctx.record(out, out_d)
        out.fill(1e55)

    def integrate(self, ctx, s, ref, op, tell):
        if not ref.inside(ref.x0):
            return
        r = rs(op["seed"])
        m = 0.05 / ref.fastest()
        ts = np.concatenate(([0.0], np.cumsum(r.uniform(0.1, 1, op["n"] - 1) * m * ref.tau)))
        kw = {} if op["method"] is None else {"integration_method": op["method"]}
        xs, xds = s.integrate(frozen(ts), **kw)
        x, xd = s.integrate_start()
        for k in range(op["n"]):
            if k:
                fn = s.integrate_step_euler if op["method"] == "Euler" else s.integrate_step_runge_kutta
                x, xd = fn(ts[k] - ts[k - 1], x)
            a, b = self.flat(ctx, ref, x), self.flat(ctx, ref, xd)
            ctx.check(same_num(xs[k], a) and same_num(xds[k], b), "integrate",
                      lambda: tell(f"step {k} of integrate()", (xs[k], xds[k]), (a, b)))
        ctx.record(xs)
