"""D10, D11: training of function approximators and (contextual) DMPs, after any history."""

import copy
import json
import math
import os

import numpy as np

from checks.control import (
    ControlCheck, Interrupted, apply_set, at_line, do_step, frozen, gen_h, gen_set, gen_spec,
    interrupt, start_y,
)
from simkit import refdmp, repo
from simkit.kernel import Violation
from simkit.reffa import RefFa, Unsure
from simkit.repo import lib
from simkit.scenario import demo_trajectory, gen_dmp, make_dmp, make_fas, rs, same_num

# -- function approximators ---------------------------------------------------------------------
FA_NAMES = {"RBFN": ["weights", "centers", "widths"], "LWR": ["offsets", "slopes", "centers"],
            "WLS": ["slope", "offset"], "GPR": ["gram_inv_targets"]}


def gen_fa(rng):
    kind = rng.choice(["RBFN", "LWR", "LWR", "WLS", "GPR", "RBFN"])
    spec = {"fa": kind, "dim": rng.choice([1, 1, 1, 2]), "seed": rng.randrange(2**31)}
    if kind in ("RBFN", "LWR"):
        spec["n_bfs"] = rng.choice([1, 2, 3, 4, 6])
        if spec["dim"] == 2:
            spec["n_bfs"] = rng.choice([2, 3, [2, 3], [3, 1], [1, 2]])
        spec["height"] = rng.choice([0.3, 0.5, 0.7, 0.8])
    if kind != "GPR":
        spec["reg"] = rng.choice([0.0, 0.0, 1e-6, 1e-3, 0.1, 1.0])
    if kind == "WLS":
        spec["offset"] = rng.random() < 0.6
    if kind == "GPR":
        spec["max_cov"] = rng.choice([1.0, 0.3, 5.0])
        spec["vec"] = rng.random() < 0.4
    return spec


def spread(spec):
    r = rs(spec["seed"])
    return 10 ** r.uniform(-1, 1, spec["dim"]), r.uniform(-2, 2, spec["dim"])


def fa_lengths(spec):
    w, _ = spread(spec)
    return w * (0.15 if spec["vec"] else np.full(spec["dim"], 0.15 * np.min(w) / w))


def make_fa(spec):
    k = spec["fa"]
    n = spec.get("n_bfs")
    n = np.array(n) if isinstance(n, list) else n
    if k == "RBFN":
        return lib.FunctionApproximatorRBFN(n, spec["height"], spec["reg"])
    if k == "LWR":
        return lib.FunctionApproximatorLWR(n, spec["height"], spec["reg"])
    if k == "WLS":
        return lib.FunctionApproximatorWLS(spec["offset"], spec["reg"])
    le = fa_lengths(spec)
    return lib.FunctionApproximatorGPR(spec["max_cov"], le if spec["vec"] else float(le[0]))


def ref_fa(spec):
    if spec["fa"] == "GPR":
        return RefFa("GPR", lengths=fa_lengths(spec), max_covariance=spec["max_cov"])
    return RefFa(spec["fa"], spec.get("n_bfs"), spec.get("height"), spec["reg"],
                 spec.get("offset", True))


def gen_data(rng, spec):
    lo = {"RBFN": 14, "LWR": 14, "WLS": 4, "GPR": 3}[spec["fa"]]
    n = rng.randint(lo, lo + 10) if spec["dim"] == 1 else rng.randint(2 * lo, 2 * lo + 8)
    if rng.random() < 0.02:  # a lot of data
        n = rng.choice([101, 256, 430, 600])
    dup = rng.randint(1, 4) if spec["fa"] != "GPR" and rng.random() < 0.15 else 0
    return {"seed": rng.randrange(2**31), "n": n, "flat": rng.random() < 0.5,
            "weights": rng.random() < 0.5, "save": rng.random() < 0.2,
            "same_x": rng.random() < 0.3, "dup": dup}


def make_data(spec, data):
    r = rs(data["seed"])
    w, c = spread(spec)
    n, d = data["n"], spec["dim"]
    grid = np.array([np.linspace(0, 1, n)] + [r.permutation(np.linspace(0, 1, n))
                                              for _ in range(d - 1)]).T
    x = c + w * (grid + r.uniform(-0.3, 0.3, (n, d)) / n)
    if data["same_x"]:  # the same inputs as in other trainings, but different targets
        x = c + w * np.array([np.linspace(0, 1, n), np.linspace(0, 1, n) ** 2])[:d].T
    u = (x - c) / w
    y = r.uniform(-2, 2) + np.sin(r.uniform(1, 5) * u[:, 0] + r.uniform(0, 6)) * r.uniform(0.2, 3)
    y = (y + u[:, -1] * r.uniform(-2, 2)) * 10 ** r.uniform(-2, 2)
    kw = {}
    n_dup = data.get("dup", 0)
    if n_dup:  # several targets for the same input
        k = r.randint(0, n, n_dup)
        x = np.vstack((x, x[k]))
        y = np.concatenate((y, y[k] + r.uniform(-1, 1, n_dup) * (np.max(y) - np.min(y))))
    if spec["fa"] == "WLS" and data["weights"]:
        kw["weights"] = r.uniform(0.1, 2, n + n_dup)
    if data["save"]:
        kw["save_training_data"] = True
    if data["flat"] and d == 1:
        x = x[:, 0]
    return x, y, kw


def query_points(spec, seed, n):
    r = rs(seed)
    w, c = spread(spec)
    u = r.uniform(-0.3, 1.3, (n, spec["dim"]))
    if seed % 4 == 0:  # some of them so far away that no basis function is active
        u = np.where(r.rand(n, 1) < 0.4, r.choice([-1, 1], u.shape) * r.uniform(60, 200, u.shape), u)
    return c + w * u


def set_params(fa, op):
    fa.set_selected_param_names(list(op["names"]))
    v = fa.get_param_vector()
    r = rs(op["seed"])
    v = v * r.uniform(0.5, 1.5, v.size) + r.uniform(-0.1, 0.1, v.size) * np.max(np.abs(v))
    if "widths" in op["names"]:
        v = np.abs(v) + 0.1
    fa.set_param_vector(v)
    return v


def in_fa_code(fn, n):
    """Call fn, with an exception at the n-th line executed in a function approximator."""
    prefix = os.path.join(repo.ROOT, "dmpbbo", "functionapproximators")

    def action():
        raise Interrupted()

    try:
        return at_line(fn, n, action, prefix)[1]
    except Interrupted:
        return True


# -- DMPs ---------------------------------------------------------------------------------------
def closed_form(spec, ts, tau, y0, g):
    """Phase, gating, goal and damping over time."""
    s = ts / tau
    phase, gating, goal, damping = refdmp.SPRING_TYPES[spec["type"]]
    e4 = np.exp(-4 * s)
    ph = {"exp": e4, "up": np.minimum(s, 1.0), "down": np.maximum(1 - s, 0.0)}[phase]

    def richards(x0, right, t_infl, alpha, v):
        left = refdmp.richards_left(x0, right, t_infl, alpha, v)
        q = ((x0 - left) / (right - left)) ** -v - 1
        return left + (right - left) * (1 + q * np.exp(-alpha * v * s)) ** (-1 / v)

    if gating == "exp":
        gt = e4
    elif gating == "sigmoid":
        d = 1e-6
        r = -math.log((((1 + d) / 0.1) - 1) / d)
        gt = (1 + d) / (1 + d * np.exp(-r * s))
    else:
        gt = richards(1.0, 0.0, 1.0, 10.0, 10.0)
    goals = np.zeros((len(s), len(y0)))
    for i, (a, b) in enumerate(zip(y0, g)):
        if goal is None:
            goals[:, i] = b
        elif goal == "exp":
            goals[:, i] = b + (a - b) * np.exp(-spec["goal_alpha"][i] * s)
        elif goal == "scaled":
            goals[:, i] = a + (b - a) * richards(0.0, 1.0, 0.3, 10.0, 1.0)
        else:
            goals[:, i] = richards(a, b, 0.3, 10.0, 1.0)
    dc = np.tile(spec["dc"], (len(s), 1))
    if damping:
        dc = spec["d0"] * (1 - 0.9 * np.exp(-np.outer(s, spec["damping_alpha"])))
    return ph, gt, goals, dc


def reference_training(spec, traj):
    """The phase during the demonstration, and reference function approximators for each output."""
    r = refdmp.RefDmp(spec, 1.0, np.zeros(spec["dim"]), np.zeros(spec["dim"]), None, None,
                      per_dim=per_dim(spec))
    full = dict(spec, goal_alpha=r.goal_alpha, dc=r.dc, d0=r.d_end, damping_alpha=r.damping_alpha)
    ts, tau = traj.ts, traj.ts[-1]
    y0, g = traj.ys[0], traj.ys[-1]
    ph, gt, goals, dc = closed_form(full, ts, tau, y0, g)
    f = tau**2 * traj.ydds + (r.k * (traj.ys - goals) + dc * tau * traj.yds) / r.m
    f = f / gt[:, None]
    if spec["scaling"] == "G_MINUS_Y0_SCALING":
        f = f / (g - y0)
    elif spec["scaling"] == "AMPLITUDE_SCALING":
        f = f / (traj.ys.max(axis=0) - traj.ys.min(axis=0))
    h = {"RBFN": 0.7, "LWR": 0.5}[spec["fa"]]
    return ph, [RefFa(spec["fa"], spec["n_bfs"], h).train(ph, f[:, i]) for i in range(spec["dim"])]


def per_dim(spec):
    from simkit.scenario import per_dim_params
    return per_dim_params(spec) if spec.get("per_dim") else None


def gen_demo(rng, spec):
    return {"seed": rng.randrange(2**31), "n_ts": rng.choice([21, 31, spec["n_ts"] + 10]),
            "tau": rng.choice([spec["tau"], 1.0, rng.uniform(0.3, 3.0)]),
            "still": rng.randrange(spec["dim"]) if can_stand_still(spec) and rng.random() < 0.3
            else None}


def can_stand_still(spec):
    return spec["scaling"] == "NO_SCALING" and not spec.get("n_sched") and sets_goal(spec)


def demo_of(spec):
    """The demonstration; one dimension may not move in it."""
    traj = demo_trajectory(spec)
    i = spec.get("still")
    if i is None:
        return traj
    ys, yds, ydds = np.array(traj.ys), np.array(traj.yds), np.array(traj.ydds)
    ys[:, i] = ys[0, i]
    yds[:, i] = ydds[:, i] = 0.0
    return lib.Trajectory(traj.ts, ys, yds, ydds)


def with_demo(spec, demo):
    return dict(spec, seed=demo["seed"], tau=demo["tau"], n_ts=demo["n_ts"],
                still=demo.get("still"))


def close(a, b, rel, scale=None):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    if scale is None:
        scale = 1e-300 + float(np.max(np.abs(b), initial=0.0))
    return bool(np.all(np.abs(a - b) <= rel * scale))


class D11(ControlCheck):
    id = "D11"
    runs = {"quick": 3000, "thorough": 80000}
    rule = ("Function approximators and DMPs are trained, interrupted while training (at any line),"
            " given unusable data, re-trained, changed, moved, copied, stored and re-loaded, and"
            " trained in the middle of each other's training; predictions afterwards are compared"
            " with a new object trained once in a process of its own, and with an independent"
            " implementation of the training.")
    stub = ControlCheck.stub + ["independent training of the models (simkit/reffa.py) as oracle"]
    state_measure = "hash of the predictions after each training"

    # -- plans
    def plan(self, rng, tier, i):
        if rng.random() < 0.6:
            return self.plan_fa(rng)
        return self.plan_dmp(rng)

    def plan_fa(self, rng):
        specs = [gen_fa(rng)]
        n_m = rng.choice([1, 2, 2, 3])
        for _ in range(n_m - 1):
            specs.append(dict(specs[0]) if rng.random() < 0.6 else gen_fa(rng))
            if rng.random() < 0.4:  # for the same data, but with other settings
                other = gen_fa(rng)
                for key in ("height", "reg", "offset", "max_cov"):
                    if key in specs[-1] and key in other:
                        specs[-1][key] = other[key]
        plan = {"part": "fa", "fas": specs, "ops": []}
        ops = plan["ops"]
        for m in range(n_m):
            ops.append({"op": "train", "m": m, "data": gen_data(rng, specs[m])})
        for _ in range(rng.randint(4, 22)):
            m = rng.randrange(n_m)
            s = specs[m]
            x = rng.random()
            seed = rng.randrange(2**31)
            if x < 0.2:
                ops.append({"op": "train", "m": m, "data": gen_data(rng, s)})
            elif x < 0.3:
                names = [n for n in FA_NAMES[s["fa"]] if n != "offset" or s["offset"]]
                k = rng.randint(1, len(names))
                ops.append({"op": "set", "m": m, "seed": seed, "names": rng.sample(names, k)})
            elif x < 0.42:
                ops.append({"op": "interrupt", "m": m, "data": gen_data(rng, s),
                            "n": int(10 ** rng.uniform(0, rng.choice([2.0, 3.5])))})
            elif x < 0.5:
                ops.append({"op": "fail", "m": m, "data": gen_data(rng, s),
                            "what": rng.choice(["length", "singular", "dim"])})
            elif x < 0.52:
                ops.append({"op": "other_dim", "m": m, "data": gen_data(rng, s)})
            elif x < 0.58 and n_m > 1:
                ops.append({"op": "nest", "m": m, "data": gen_data(rng, s),
                            "m2": rng.choice([k for k in range(n_m) if k != m]),
                            "n": int(10 ** rng.uniform(0, 3.0)), "seed": seed,
                            "inner": rng.choice(["train", "train", "query"])})
            elif x < 0.68:
                ops.append({"op": "modify", "m": m})
            elif x < 0.75:
                ops.append({"op": "reload", "m": m, "how": rng.choice(["json", "copy"])})
            elif x < 0.8:
                ops.append({"op": "interrupt_query", "m": m, "seed": seed,
                            "n": int(10 ** rng.uniform(0, 2.5))})
            elif x < 0.805:
                ops.append({"op": "plot", "m": m, "seed": seed, "n": rng.choice([2, 5, 50]),
                            "model": rng.random() < 0.7})
            else:
                ops.append({"op": "query", "m": m, "seed": seed, "n": rng.choice([1, 2, 5, 17])})
        for m in range(n_m):
            ops.append({"op": "query", "m": m, "seed": rng.randrange(2**31), "n": 9})
        return plan

    def plan_dmp(self, rng):
        spec = gen_spec(rng, sched=rng.random() < 0.2, untrained=0.0)
        if spec.get("n_sched"):  # their bounds would depend on the demonstration
            spec["bounds"] = "none"
        n_m = rng.choice([1, 1, 2])
        plan = {"part": "dmp", "dmp": spec, "ops": []}
        plan["members"] = ["fresh"] + [rng.choice(["copy", "fresh"])] * (n_m - 1)
        ops = plan["ops"]
        for _ in range(rng.randint(3, 12)):
            m = rng.randrange(n_m)
            x = rng.random()
            if x < 0.3:
                ops.append({"op": "train", "m": m, "demo": gen_demo(rng, spec)})
            elif x < 0.5:
                ops.append(gen_set(rng, spec, m=m))
            elif x < 0.6:
                ops.append({"op": "interrupt", "m": m, "demo": gen_demo(rng, spec),
                            "n": int(10 ** rng.uniform(0, 3.8))})
            elif x < 0.7:
                ops.append({"op": "move", "m": m, "seed": rng.randrange(2**31),
                            "n": rng.randint(1, 6), "at": rng.random() < 0.5})
            elif x < 0.8:
                ops.append({"op": "reload", "m": m, "how": rng.choice(["json", "copy"])})
            elif x < 0.88:
                ops.append({"op": "fail", "m": m, "demo": gen_demo(rng, spec)})
            elif x < 0.94:
                ops.append({"op": "offline", "m": m, "seed": rng.randrange(2**31)})
            else:
                ops.append({"op": "select", "m": m})
        m = rng.randrange(n_m)
        ops.append({"op": "train", "m": m, "demo": gen_demo(rng, spec)})
        return plan

    def simulate(self, plan, ctx):
        k = ctx.kernel()
        d = ctx.dir("training")
        if plan["part"] == "fa":
            seen = ctx.ok(k.run(("trainer", lambda: self.run_fas(plan, ctx, d), 1)))[0].result
            ctx.ok(k.run(("fresh", lambda: self.judge_fas(plan, ctx, seen), 1)))
        else:
            seen = ctx.ok(k.run(("trainer", lambda: self.run_dmps(plan, ctx, d), 1)))[0].result
            ctx.ok(k.run(("fresh", lambda: self.judge_dmps(plan, ctx, seen), 1)))

    # -- function approximators
    def run_fas(self, plan, ctx, d):
        specs = plan["fas"]
        fas = [make_fa(s) for s in specs]
        recipes = [[None] for _ in fas]  # possible models: None (untrained), or list of operations
        given = [[] for _ in fas]
        selected = [None] * len(fas)
        seen = []

        def train(m, data, keep=True):
            x, y, kw = make_data(specs[m], data)
            if keep:
                given[m] = [x, y] + [v for v in kw.values() if isinstance(v, np.ndarray)]
            x0, y0 = x.copy(), y.copy()
            fas[m].train(x, y, **kw)
            if not (same_num(x, x0) and same_num(y, y0)):
                raise Violation("data-modified", "training modified the training data")

        def query(m, seed, n):
            x = query_points(specs[m], seed, n)
            rec = {"m": m, "x": x, "recipes": copy.deepcopy(recipes[m]), "names": selected[m]}
            if recipes[m] == [None]:
                try:
                    fas[m].predict(frozen(x))
                except Exception:  # noqa
                    return
                raise Violation("untrained", "a function approximator whose training failed or was"
                                " interrupted makes predictions")
            try:
                rec["out"] = np.array(fas[m].predict(frozen(x)))
                rec["single"] = [float(np.squeeze(fas[m].predict(frozen(row[None, :])))) for row in x]
            except Exception:  # noqa
                if None not in recipes[m]:
                    raise
                rec["out"] = None
            else:
                ctx.state(rec["out"])
                if selected[m]:
                    rec["vector"] = np.array(fas[m].get_param_vector())
            seen.append(rec)

        for op in plan["ops"]:
            m, kind = op["m"], op["op"]
            spec = specs[m]
            if kind == "train":
                train(m, op["data"])
                recipes[m] = [[["train", op["data"]]]]
                query(m, op["data"]["seed"], 4)
            elif kind == "query":
                query(m, op["seed"], op["n"])
            elif kind == "set":
                if len(recipes[m]) == 1 and recipes[m] != [None]:
                    v = set_params(fas[m], op)
                    selected[m] = list(op["names"])
                    recipes[m][0] = recipes[m][0] + [["set", op]]
                    if not same_num(np.asarray(fas[m].get_param_vector()), v):
                        raise Violation("parameters", "parameters read back differ from those set")
                    v.fill(1e50)
                    query(m, op["seed"], 3)
            elif kind in ("interrupt", "fail"):
                before = copy.deepcopy(recipes[m])
                if kind == "interrupt":
                    done = [False]

                    def call():
                        train(m, op["data"], keep=False)
                        done[0] = True

                    interrupt(call, op["n"])
                    if done[0]:
                        recipes[m] = [[["train", op["data"]]]]
                    else:
                        ctx.count("fault:exception_in_training")
                        ctx.nontrivial()
                        recipes[m] = before + [[["train", op["data"]]]]
                else:
                    if not self.try_bad_data(fas[m], spec, op):
                        recipes[m] = [None]
                        selected[m] = None
                        fas[m] = make_fa(spec)  # was accepted
                    else:
                        ctx.count("fault:unusable_data")
                        ctx.nontrivial()
                query(m, op["data"]["seed"], 4)
            elif kind == "other_dim":
                x, y, kw = make_data(dict(spec, dim=3 - spec["dim"]), op["data"])
                try:
                    fas[m].train(x, y, **kw)
                    ctx.count("fault:other_dimensionality")
                except Exception:  # noqa
                    ctx.count("fault:unusable_data")
                train(m, op["data"])
                recipes[m] = [[["train", op["data"]]]]
                query(m, op["data"]["seed"], 3)
            elif kind == "nest":
                ctx.count("fault:preemption")
                m2 = op["m2"]

                def inner():
                    if op["inner"] == "train":
                        data = gen_data_like(specs[m2], op)
                        train(m2, data)
                        recipes[m2] = [[["train", data]]]
                    query(m2, op["seed"], 3)

                _, fired = at_line(lambda: train(m, op["data"]), op["n"], inner)
                recipes[m] = [[["train", op["data"]]]]
                query(m, op["seed"], 4)
                ctx.nontrivial()
            elif kind == "modify":
                if given[m]:
                    ctx.count("fault:caller_modifies_data")
                for a in given[m]:
                    a.fill(1e33)
                query(m, 5, 3)
            elif kind == "reload":
                ctx.count("fault:process_replaced")
                if op["how"] == "copy":
                    fas[m] = copy.deepcopy(fas[m])
                else:
                    p = os.path.join(d, "fa.json")
                    lib.jc.savejson(p, fas[m])
                    fas[m] = lib.jc.loadjson(p)
            elif kind == "plot":
                if None not in recipes[m] and spec["dim"] <= 2:
                    import matplotlib.pyplot as plt

                    x = query_points(spec, op["seed"], op["n"])
                    try:
                        fas[m].plot(frozen(x), targets=[], plot_model_parameters=op["model"])
                    finally:
                        plt.close("all")
                    query(m, op["seed"], 3)
            elif kind == "interrupt_query":
                if None not in recipes[m]:
                    x = query_points(spec, op["seed"], 3)
                    if interrupt(lambda: fas[m].predict(x), op["n"]):
                        ctx.count("fault:exception_in_step")
        return seen

    def try_bad_data(self, fa, spec, op):
        """Returns whether the data was refused."""
        x, y, kw = make_data(spec, op["data"])
        if op["what"] in ("length", "dim"):
            if op["what"] == "dim":
                x, y, kw = make_data(dict(spec, dim=3 - spec["dim"]), op["data"])
            y = np.append(y, 1.0)
            kw.pop("weights", None)
        else:
            x = np.full(x.shape, 2.0)
        try:
            fa.train(x, y, **kw)
        except Exception:  # noqa
            return True
        return False

    def judge_fas(self, plan, ctx, seen):
        models, refs = {}, {}

        def model(m, recipe):
            key = json.dumps([m, recipe])
            if key not in models:
                spec = plan["fas"][m]
                fa = make_fa(spec)
                for kind, arg in recipe:
                    if kind == "train":
                        x, y, kw = make_data(spec, arg)
                        fa.train(x, y, **kw)
                    else:
                        set_params(fa, arg)
                models[key] = fa
            return models[key]

        def reference(m, recipe):
            key = json.dumps([m, recipe])
            if key not in refs:
                x, y, kw = make_data(plan["fas"][m], recipe[0][1])
                try:
                    refs[key] = ref_fa(plan["fas"][m]).train(x, y, kw.get("weights"))
                    refs[key].data = y
                except Unsure:
                    refs[key] = None
            return refs[key]

        resolved = {}
        for n, rec in enumerate(seen):
            m, spec = rec["m"], plan["fas"][rec["m"]]
            fit = []
            for recipe in rec["recipes"]:
                if recipe is None:
                    fit.append(rec["out"] is None)
                    continue
                want = np.array(model(m, recipe).predict(rec["x"]))
                fit.append(rec["out"] is not None and same_num(rec["out"], want))
            key = json.dumps([m, rec["recipes"]])
            ok = [a and b for a, b in zip(fit, resolved.get(key, fit))]
            resolved[key] = ok
            ctx.check(any(ok), "history" if len(ok) == 1 else "interrupted-training",
                      lambda: f"query {n}, {spec}: predictions {rec['out']} are not those of a new"
                      f" function approximator trained once: {rec['recipes']}; {want}")
            if rec["out"] is None:
                continue
            recipe = rec["recipes"][ok.index(True)]
            if "vector" in rec and ok.count(True) == 1:
                fa = copy.deepcopy(model(m, recipe))
                fa.set_selected_param_names(rec["names"])
                want = np.array(fa.get_param_vector())
                ctx.check(same_num(rec["vector"], want), "parameters",
                          lambda: f"query {n}, {spec}: values of {rec['names']} {rec['vector']}"
                          f" instead of {want}")
            ref = reference(m, recipe)
            if ref is None:
                continue
            scale = ref.scale(rec["x"]) + float(np.max(np.abs(ref.data)))
            if len(recipe) == 1:
                want = ref.predict(rec["x"])
                tol = scale * (1e-9 + 1e-14 * ref.cond)
                ctx.check(close(rec["out"], want, 1.0, tol), "training",
                          lambda: f"query {n}, {spec}: predictions {rec['out']} instead of {want}"
                          f" (tolerance {tol})")
            grow = 4.0 ** (len(recipe) - 1) * (1 + 3 * len(recipe))
            tol = 1e-11 * scale * grow * (1 + float(np.max(np.abs(rec["x"]))))
            ctx.check(close(rec["out"], rec["single"], 1.0, tol), "batch",
                      lambda: f"query {n}, {spec}: predictions for a batch {rec['out']} differ from"
                      f" those for single inputs {rec['single']}")
            ctx.record(rec["out"])

    # -- DMPs
    def run_dmps(self, plan, ctx, d):
        spec = plan["dmp"]
        dmps = [make_dmp(spec)]
        for kind in plan["members"][1:]:
            dmps.append(copy.deepcopy(dmps[0]) if kind == "copy" else make_dmp(spec))
        sched = bool(spec.get("n_sched"))
        last = spec
        trajs = {}
        seen = []
        if not spec.get("per_dim"):  # which are set after training
            seen.append(self.observe(dmps[0], spec, plan))

        def demo(op):
            s = with_demo(spec, op["demo"])
            return s, demo_of(s)

        def train(dmp, traj):
            dmp.train_sched(traj) if sched else dmp.train(traj)

        for op in plan["ops"]:
            m, kind = op["m"], op["op"]
            dmp = dmps[m]
            if kind == "train":
                last, traj = demo(op)
                train(dmp, traj)
                seen.append(self.observe(dmp, last, plan))
                ctx.state(seen[-1]["fa"])
            elif kind == "set":
                if op["what"] == "goal" and not sets_goal(spec):
                    continue
                apply_set(dmp, op, spec)
            elif kind == "interrupt":
                _, traj = demo(op)
                if in_fa_code(lambda: train(dmp, traj), op["n"]):
                    ctx.count("fault:exception_in_training")
                    ctx.nontrivial()
            elif kind == "move":
                x, _ = dmp.integrate_start(start_y(op, spec) if op["at"] else None)
                for _ in range(op["n"]):
                    x, _ = do_step(dmp, 0.02, x, "step")
            elif kind == "offline":
                dmp.analytical_solution(np.sort(rs(op["seed"]).uniform(0, 2, 5)))
            elif kind == "fail":
                s = with_demo(spec, op["demo"])
                traj = demo_trajectory(dict(s, dim=spec["dim"] + 1, n_sched=0))
                try:
                    train(dmp, traj)
                except Exception:  # noqa
                    ctx.count("fault:unusable_data")
            elif kind == "select":
                dmp.set_selected_param_names(list(spec["selected"]))
            elif kind == "reload":
                ctx.count("fault:process_replaced")
                if op["how"] == "copy":
                    dmps[m] = copy.deepcopy(dmp)
                else:
                    p = os.path.join(d, "dmp.json")
                    lib.jc.savejson(p, dmp)
                    dmps[m] = lib.jc.loadjson(p)
        return seen

    def observe(self, dmp, spec, plan):
        """What a DMP that has just been trained with a demonstration does."""
        ts = np.concatenate((np.linspace(0, spec["tau"], spec["n_ts"]), [1.3 * spec["tau"]]))
        if spec.get("n_sched"):
            xs, xds, sched, forcing, fa = dmp.analytical_solution_sched(ts)
        else:
            (xs, xds, forcing, fa), sched = dmp.analytical_solution(ts), np.zeros(0)
        default = dmp.analytical_solution()[0]
        return {"spec": spec, "tau": float(dmp.tau), "y_init": np.array(dmp.y_init),
                "y_attr": np.array(dmp.y_attr), "xs": xs, "fa": fa, "forcing": forcing,
                "default": default, "sched": sched, "n": int(dmp.get_param_vector_size())}

    def judge_dmps(self, plan, ctx, seen):
        for n, rec in enumerate(seen):
            spec = rec["spec"]
            traj = demo_of(spec)
            new = make_dmp(spec, traj)
            if spec.get("per_dim"):
                new.train_sched(traj) if spec.get("n_sched") else new.train(traj)
            want = self.observe(new, spec, plan)
            for what in ("tau", "y_init", "y_attr", "xs", "fa", "forcing", "default", "sched", "n"):
                tol = 1e-12 if what in ("tau", "y_init", "y_attr", "n") else 1e-6
                ctx.check(close(rec[what], want[what], tol), "history",
                          lambda: f"training {n}: {what} of a DMP with a history is {rec[what]}"
                          f" instead of {want[what]}, that of a new DMP")
            try:
                phase, refs = reference_training(spec, traj)
            except Unsure:
                continue
            least = 1e-9 * max(ref.scale(phase) for ref in refs)
            for i, ref in enumerate(refs):
                w = ref.predict(phase)
                tol = ref.scale(phase) * (1e-9 + 1e-13 * ref.cond) + least
                ctx.check(close(rec["fa"][:-1, i], w, 1.0, tol), "training",
                          lambda: f"training {n}: function approximator {i} predicts"
                          f" {rec['fa'][:-1, i]} instead of {w} (tolerance {tol})")
            ctx.record(rec["xs"])


def gen_data_like(spec, op):
    r = rs(op["seed"])
    lo = {"RBFN": 14, "LWR": 14, "WLS": 4, "GPR": 3}[spec["fa"]]
    return {"seed": op["seed"], "n": spec["dim"] * lo + int(r.randint(0, 8)),
            "flat": bool(r.rand() < 0.5), "weights": bool(r.rand() < 0.5), "save": False,
            "same_x": bool(r.rand() < 0.5)}


def sets_goal(spec):
    return not refdmp.is_unscaled_richards(spec["type"])


# -- contextual DMPs ----------------------------------------------------------------------------
def gen_context(rng):
    """Demonstrations for several values of the task parameters."""
    spec = gen_dmp(rng, small=True)
    spec["n_bfs"] = rng.choice([2, 3])
    tp = rng.choice([1, 1, 2])
    return spec, tp


def gen_demos(rng, spec, tp):
    n = rng.randint(2, 4) if tp == 1 else rng.randint(4, 6)
    return {"seed": rng.randrange(2**31), "n": n, "same_tau": rng.random() < 0.5}


def task_params(tp, demos):
    r = rs(demos["seed"] + 3)
    n = demos["n"]
    if tp == 1:
        return (np.linspace(0, 1, n) + r.uniform(-0.3, 0.3, n) / n)[:, None] * 2 - 0.5
    corners = np.array([[0, 0], [1, 0], [0, 1], [1, 1], [0.5, 0.4], [0.3, 0.9]])[:n]
    return corners + r.uniform(-0.1, 0.1, (n, 2))


def make_demos(spec, tp, demos):
    """Task parameters, the specifications of DMPs for each demonstration, and trajectories."""
    r = rs(demos["seed"])
    cs = task_params(tp, demos)
    specs = []
    for k in range(demos["n"]):
        tau = spec["tau"] if demos["same_tau"] else spec["tau"] * float(r.uniform(0.7, 1.4))
        specs.append(dict(spec, seed=int(r.randint(0, 2**31 - 1)), tau=tau))
    return cs, specs, [demo_trajectory(s) for s in specs]


def gen_ppf(rng, tp):
    k = rng.choice(["WLS", "WLS", "GPR", "LWR", "RBFN"]) if tp == 1 else rng.choice(["WLS", "GPR"])
    return {"fa": k, "reg": rng.choice([0.0, 1e-6, 0.01]) if k in ("WLS",) else 1e-3,
            "list": rng.random() < 0.2}


def make_ppf(spec):
    k = spec["fa"]
    if k == "WLS":
        return lib.FunctionApproximatorWLS(regularization=spec["reg"])
    if k == "GPR":
        return lib.FunctionApproximatorGPR(2.0, 0.7)
    if k == "LWR":
        return lib.FunctionApproximatorLWR(2, 0.5, spec["reg"])
    return lib.FunctionApproximatorRBFN(2, 0.7, spec["reg"])


def ref_ppf(spec, tp):
    k = spec["fa"]
    if k == "WLS":
        return RefFa("WLS", reg=spec["reg"])
    if k == "GPR":
        return RefFa("GPR", lengths=0.7, max_covariance=2.0)
    return RefFa(k, 2, {"LWR": 0.5, "RBFN": 0.7}[k], spec["reg"])


def as_task_param(c, style):
    c = np.array(c)
    if c.size == 1 and style == "flat":
        return c.copy()
    return c[None, :].copy()


def make_pairs(plan, demos):
    """The demonstrations, as passed to the code."""
    cs, specs, trajs = make_demos(plan["dmp"], plan["tp"], demos)
    style = demos["seed"] % 2
    return [(float(c[0]) if c.size == 1 and style else c.copy(), t) for c, t in zip(cs, trajs)]


class D10(ControlCheck):
    id = "D10"
    runs = {"quick": 1600, "thorough": 50000}
    rule = ("Contextual DMPs are trained with demonstrations, re-trained, interrupted, copied, stored"
            " and re-loaded, and executed for changing task parameters with irregular steps; every"
            " result is compared with that of a contextual DMP, trained in a process of its own,"
            " which was only given the current task parameters, and the predicted parameters with"
            " an independent regression on those of separately trained DMPs.")
    stub = ControlCheck.stub + ["independent regression (simkit/reffa.py) as oracle"]
    state_measure = "hash of the state after each step"

    def plan(self, rng, tier, i):
        spec, tp = gen_context(rng)
        n_m = rng.choice([1, 1, 2])
        plan = {"dmp": spec, "tp": tp, "ppf": gen_ppf(rng, tp), "demos": gen_demos(rng, spec, tp),
                "how": rng.choice(["trajs", "trajs", "dmp", "ctor"]),
                "members": ["fresh"] + [rng.choice(["copy", "json", "fresh"])] * (n_m - 1),
                "ops": []}
        ops = plan["ops"]

        used = []

        def c():
            if not used or rng.random() < 0.6:
                used.append([rng.choice([rng.uniform(-0.5, 1.5), rng.uniform(-1, 3)])
                             for _ in range(tp)])
                if rng.random() < 0.12:  # all far away, or all tiny
                    f = rng.choice([100.0, 20.0, 1e-3])
                    used[-1] = [f * v for v in used[-1]]
            return used[-1]

        for m in range(n_m):
            ops.append({"op": "start", "m": m, "c": c(), "style": "flat"})
        for _ in range(rng.randint(5, 25)):
            m = rng.randrange(n_m)
            x = rng.random()
            style = rng.choice(["flat", "row"])
            if x < 0.17:
                ops.append({"op": "start", "m": m, "c": c(), "style": style})
                if rng.random() < 0.3:
                    ops[-1]["seed"] = rng.randrange(2**31)
            elif x < 0.3:
                ops.append({"op": "offline", "m": m, "c": c(), "style": style,
                            "n": rng.choice([0, 1, 4, 9]), "suppress": rng.random() < 0.2})
            elif x < 0.35:
                ops.append({"op": "set", "m": m, "c": c(), "style": style})
            elif x < 0.42:
                ops.append({"op": "train", "m": m, "demos": gen_demos(rng, spec, tp)})
            elif x < 0.48:
                ops.append({"op": "reload", "m": m, "how": rng.choice(["json", "copy"])})
            elif x < 0.58:
                ops.append({"op": "interrupt", "m": m, "c": c(), "style": style,
                            "what": rng.choice(["start", "start", "offline", "step", "rates", "train"]),
                            "n": int(10 ** rng.uniform(0, rng.choice([2.0, 3.3]))),
                            "demos": gen_demos(rng, spec, tp)})
            elif x < 0.62:
                ops.append({"op": "modify", "m": m})
            elif x < 0.625:
                ops.append({"op": "plot", "m": m, "what": rng.choice(["movements", "movements", "ppf"])})
            else:
                ops.append({"op": "step", "m": m, "h": gen_h(rng, spec["type"]),
                            "mode": rng.choice(["rk", "step", "step", "euler"])})
                if rng.random() < 0.1:
                    ops.append({"op": "perturb", "m": m, "seed": rng.randrange(2**31)})
        return plan

    def make(self, plan, demos, trainer=None):
        spec = plan["dmp"]
        kw = {"dmp_type": spec["type"], "forcing_term_scaling": spec["scaling"],
              "alpha_spring_damper": spec["alpha"]}
        fas = make_fas(spec, spec["dim"])
        pairs = make_pairs(plan, demos)
        names = list(spec["selected"])
        ppf = make_ppf(plan["ppf"])
        if plan["ppf"]["list"]:
            n = spec["dim"] * (spec["n_bfs"] * len([x for x in names if x != "goal"])
                               + ("goal" in names))
            ppf = [make_ppf(plan["ppf"]) for _ in range(n)]
        cls = lib.DmpContextualTwoStep
        if trainer is not None:
            trainer.train(pairs, names, ppf)
            return trainer, pairs
        if plan["how"] == "dmp":
            dmp = lib.Dmp(1.0, np.zeros(spec["dim"]), np.ones(spec["dim"]), fas, **kw)
            return cls.from_dmp(pairs, dmp, names, ppf), pairs
        if plan["how"] == "ctor":
            ctxl = cls(1.0, np.zeros(spec["dim"]), np.ones(spec["dim"]), fas, **kw)
            ctxl.train(pairs, names, ppf)
            return ctxl, pairs
        return cls.from_trajs(pairs, fas, names, ppf, **kw), pairs

    def simulate(self, plan, ctx):
        k = ctx.kernel()
        d = ctx.dir("contextual")
        seen = ctx.ok(k.run(("controllers", lambda: self.run_it(plan, ctx, d), 1)))[0].result
        ctx.ok(k.run(("fresh", lambda: self.judge(plan, ctx, seen), 1)))

    def run_it(self, plan, ctx, d):
        spec = plan["dmp"]
        first, pairs = self.make(plan, plan["demos"])
        pool, given = [first], [pairs]
        p = os.path.join(d, "contextual.json")
        for kind in plan["members"][1:]:
            if kind == "copy":
                pool.append(copy.deepcopy(first))
            elif kind == "json":
                lib.jc.savejson(p, first)
                pool.append(lib.jc.loadjson(p))
            else:
                pool.append(self.make(plan, plan["demos"])[0])
            given.append([])
        n_m = len(pool)
        demos = [plan["demos"]] * n_m
        now = [None] * n_m  # current task parameters
        y0 = [None] * n_m  # initial state that was set since training
        xs = [None] * n_m
        seen = []

        def note(op, m, **kw):
            seen.append(dict({"op": op, "demos": demos[m], "c": now[m], "y0": y0[m]}, **kw))

        for op in plan["ops"]:
            m, kind = op["m"], op["op"]
            s = pool[m]
            tp = as_task_param(op["c"], op["style"]) if "c" in op else None
            if kind == "start":
                if "seed" in op:
                    y0[m] = start_y(op, spec).tolist()
                    out = s.integrate_start(frozen(tp), np.array(y0[m]))
                else:
                    out = s.integrate_start(frozen(tp))
                now[m] = op["c"]
                note(op, m, out=[np.array(o) for o in out], params=np.array(s.dmp.get_param_vector()))
                xs[m] = np.array(out[0])
                for o in out:
                    o.fill(1e44)
            elif kind == "offline":
                ts = np.linspace(0, 1.2 * spec["tau"], op["n"]) if op["n"] else None
                out = s.analytical_solution(frozen(tp), ts, op["suppress"])
                now[m] = op["c"]
                note(op, m, out=[np.array(o) for o in out], params=np.array(s.dmp.get_param_vector()))
            elif kind == "set":
                s.set_task_params(frozen(tp))
                now[m] = op["c"]
                note(op, m, out=[], params=np.array(s.dmp.get_param_vector()))
            elif kind == "train":
                demos[m] = op["demos"]
                s, given[m] = self.make(plan, op["demos"], s)
                now[m] = y0[m] = xs[m] = None
            elif kind == "reload":
                ctx.count("fault:process_replaced")
                if op["how"] == "copy":
                    pool[m] = copy.deepcopy(s)
                else:
                    lib.jc.savejson(p, s)
                    pool[m] = lib.jc.loadjson(p)
            elif kind == "plot":
                import matplotlib.pyplot as plt

                try:
                    if op["what"] == "ppf":
                        if plan["tp"] == 1 and s.ppf is not None:
                            axs = [plt.axes()] * len(s.ppf)
                            x = np.linspace(0, 1, 5).reshape(-1, 1)
                            s.plot_policy_parameter_function(axs=axs, inputs=x,
                                                             targets=[])
                    else:
                        s.plot(make_pairs(plan, demos[m]))
                finally:
                    plt.close("all")
            elif kind == "modify":
                if given[m]:
                    ctx.count("fault:caller_modifies_data")
                for c, traj in given[m]:
                    if isinstance(c, np.ndarray):
                        c.fill(1e22)
            elif kind == "interrupt":
                if op["what"] in ("step", "rates"):
                    if xs[m] is None:
                        continue
                    call = {"step": lambda: s.integrate_step(0.001, xs[m].copy()),
                            "rates": lambda: s.differential_equation(xs[m].copy())}[op["what"]]
                    if interrupt(call, op["n"]):
                        ctx.count("fault:exception_in_step")
                    continue
                if op["what"] == "train":
                    hit = in_fa_code(lambda: self.make(plan, op["demos"], s), op["n"])
                    if hit:
                        ctx.count("fault:exception_in_training")
                    # whatever the outcome: training again has to give the new model
                    demos[m] = op["demos"]
                    s, given[m] = self.make(plan, op["demos"], s)
                    now[m] = y0[m] = xs[m] = None
                    continue
                call = {"start": lambda: s.integrate_start(tp),
                        "offline": lambda: s.analytical_solution(tp, np.linspace(0, 1, 3))}[op["what"]]
                if interrupt(call, op["n"]):
                    ctx.count("fault:exception_in_start")
                    now[m] = xs[m] = None  # which task parameters are used is unknown
                else:
                    now[m] = op["c"]
            elif now[m] is None or xs[m] is None:
                continue
            elif kind == "perturb":
                ctx.count("fault:perturbation")
                xs[m][: 2 * spec["dim"]] += rs(op["seed"]).uniform(-1, 1, 2 * spec["dim"])
            elif kind == "step":
                h = op["h"] * spec["tau"]
                x = xs[m].copy()
                fn = {"rk": s.integrate_step_runge_kutta, "euler": s.integrate_step_euler,
                      "step": s.integrate_step}[op["mode"]]
                out = [np.array(o) for o in fn(h, frozen(x))]
                ctx.sim_time += h
                ctx.nontrivial()
                ctx.state(out[0])
                note(op, m, x=x, dt=h, out=out)
                xs[m] = out[0].copy()
        return seen

    def judge(self, plan, ctx, seen):
        spec = plan["dmp"]
        trained, refs = {}, {}
        for n, rec in enumerate(seen):
            op = rec["op"]
            key = json.dumps(rec["demos"])
            if key not in trained:
                trained[key] = self.make(plan, rec["demos"])[0]
                refs[key] = self.reference(plan, rec["demos"])
                self.means(ctx, plan, trained[key], rec["demos"])
            s = copy.deepcopy(trained[key])
            tp = as_task_param(rec["c"], "row")
            if rec["y0"] is not None:
                s.integrate_start(tp, np.array(rec["y0"]))
            if op["op"] == "start":
                want = s.integrate_start(tp)
            elif op["op"] == "offline":
                ts = np.linspace(0, 1.2 * spec["tau"], op["n"]) if op["n"] else None
                want = s.analytical_solution(tp, ts, op["suppress"])
            elif op["op"] == "set":
                s.set_task_params(tp)
                want = []
            else:
                s.integrate_start(tp)
                fn = {"rk": s.integrate_step_runge_kutta, "euler": s.integrate_step_euler,
                      "step": s.integrate_step}[op["mode"]]
                want = fn(rec["dt"], rec["x"].copy())
            if self.switching(s.dmp, spec, rec):
                continue
            for k, (a, b) in enumerate(zip(rec["out"], want)):
                a, b = np.array(a), np.array(b)
                if k == 1 and refdmp.SPRING_TYPES[spec["type"]][0] != "exp":
                    # rates of the phase jump at the end of the movement
                    p = np.atleast_2d(want[0])[:, s.dmp.PHASE[0]]
                    jump = (np.abs(p) < 1e-9) | (np.abs(p - 1) < 1e-9)
                    np.atleast_2d(a)[jump, s.dmp.PHASE[0]] = 0.0
                    np.atleast_2d(b)[jump, s.dmp.PHASE[0]] = 0.0
                ctx.check(close(a, b, 1e-6), "movement",
                          lambda: f"result {n} of {op}: {a} instead of {b}, that of a new contextual"
                          " DMP with these task parameters")
                ctx.record(a)
            if "params" in rec:
                ref = refs[key]
                got = rec["params"]
                ctx.check(got.size == ref["n"], "parameters", "number of parameters")
                for i, fa in enumerate(ref["fas"]):
                    if fa is None:
                        continue
                    want = float(fa.predict(np.array([rec["c"]]))[0])
                    tol = (fa.scale(np.array([rec["c"]])) + fa.data) * (1e-9 + 1e-13 * fa.cond)
                    tol += ref["tol"][i] * 100
                    ctx.check(abs(got[i] - want) <= tol, "regression",
                              lambda: f"result {n} of {op}: parameter {i} is {got[i]} instead of"
                              f" {want} (tolerance {tol})")

    def switching(self, dmp, spec, rec):
        """Does a step contain a moment at which the phase stops, up to rounding?"""
        kind = refdmp.SPRING_TYPES[spec["type"]][0]
        if rec["op"]["op"] != "step" or kind == "exp":
            return False
        end, sign = (1.0, 1) if kind == "up" else (0.0, -1)
        p = rec["x"][dmp.PHASE[0]]
        return any(abs(p + f * sign * rec["dt"] / dmp.tau - end) < 1e-9 for f in (0, 0.5, 1))

    def means(self, ctx, plan, s, demos):
        _, _, trajs = make_demos(plan["dmp"], plan["tp"], demos)
        want = (np.mean([t.ts[-1] for t in trajs]), np.mean([t.ys[0] for t in trajs], axis=0),
                np.mean([t.ys[-1] for t in trajs], axis=0))
        ctx.check(s.dim_dmp() == plan["dmp"]["dim"], "dim", lambda: f"dimensionality {s.dim_dmp()}")
        got = (s.dmp.tau, s.dmp.y_init, s.dmp.y_attr)
        ctx.check(all(close(a, b, 1e-9) for a, b in zip(got, want)), "means",
                  lambda: f"time constant, initial state and attractor {got} are not the means {want}"
                  " of those of the demonstrations")

    def reference(self, plan, demos):
        spec = plan["dmp"]
        cs, specs, _ = make_demos(spec, plan["tp"], demos)
        targets = []
        for s in specs:
            dmp = make_dmp(s)
            targets.append(dmp.get_param_vector())
        targets = np.array(targets)
        fas = []
        for i in range(targets.shape[1]):
            try:
                fas.append(ref_ppf(plan["ppf"], plan["tp"]).train(cs, targets[:, i]))
                fas[-1].data = float(np.max(np.abs(targets[:, i])))
            except Unsure:
                fas.append(None)
        size = np.max(np.abs(targets))
        return {"fas": fas, "n": targets.shape[1], "tol": np.full(targets.shape[1], 1e-9 * size)}
