"""U01, U02: histories of distribution updates under adversarial draws and costs."""

import contextlib
import os
import random

import numpy as np

from simkit import refs
from simkit.kernel import Violation
from simkit.repo import lib
from simkit.runner import Check
from simkit.scenario import (
    deep_equal, gen_distribution, gen_updater, make_distribution, make_updater, rs, same_num,
)

COSTS = ["plain", "plain", "ties", "all_ties", "equal", "huge", "tiny", "offset", "negative", "zero",
         "ints", "one_best", "sorted", "reverse", "wide", "subnormal"]
FORMS = ["float", "list", "listparts", "array", "matrix", "npscalar", "tuple"]
DRAWS = ["normal", "normal", "stretch", "shrink", "same", "mean", "line", "outlier", "grid"]


def gen_costs(r, kind, n):
    x = r.uniform(0.0, 10.0, n)
    if kind == "ties":
        x = np.round(x / 4)
    elif kind == "all_ties":
        x = np.where(x > 5, 1.0, 2.0)
    elif kind == "equal":
        x = np.full(n, x[0])
    elif kind == "huge":
        x = x * 1e300
    elif kind == "tiny":
        x = x * 1e-300
    elif kind == "offset":
        x = 1e9 + x
    elif kind == "negative":
        x = -x - 5
    elif kind == "zero":
        x = x * 0.0
    elif kind == "ints":
        x = np.round(x * 3)
    elif kind == "one_best":
        x = 1e6 + x
        x[int(r.randint(n))] = 0.0
    elif kind == "sorted":
        x = np.sort(x)
    elif kind == "reverse":
        x = np.sort(x)[::-1].copy()
    elif kind == "wide":
        x = 10.0 ** r.uniform(-150, 150, n)
    elif kind == "subnormal":
        x = x * 5e-324 * 10
    return x


def in_form(total, form, r):
    """The same total costs in another form: components never matter."""
    n = len(total)
    parts = r.uniform(-100, 100, (n, 2))
    if form == "float":
        return [float(c) for c in total]
    if form == "npscalar":
        return [np.float64(c) for c in total]
    if form == "list":
        return [[float(c)] for c in total]
    if form == "tuple":
        return [(float(c), float(p[0])) for c, p in zip(total, parts)]
    if form == "listparts":
        return [[float(c), float(p[0]), float(p[1])] for c, p in zip(total, parts)]
    if form == "array":
        return np.array(total)
    return np.column_stack((total, parts))


@contextlib.contextmanager
def draws(kind, r, ctx):
    """Let the random generator return extreme draws."""
    real = np.random.multivariate_normal

    def fake(mean, cov, size=None, *a, **kw):
        x = real(mean, cov, size, *a, **kw)
        ctx.count("fault:draw_" + kind)
        mean = np.asarray(mean)
        e = x - mean
        if kind == "stretch":
            return mean + e * 10.0 ** r.uniform(0, 6)
        if kind == "shrink":
            return mean + e * 10.0 ** -r.uniform(0, 9)
        if kind == "same":
            return np.array(np.broadcast_to(x[:1], x.shape)) if x.ndim > 1 else x
        if kind == "mean":
            return np.array(np.broadcast_to(mean, x.shape))
        if kind == "line" and x.ndim > 1:
            return mean + np.outer(r.standard_normal(len(x)), e[0])
        if kind == "outlier" and x.ndim > 1:
            x[int(r.randint(len(x)))] *= 1e7
            return x
        if kind == "grid":
            return mean + np.round(e * 2) / 2
        return x

    np.random.multivariate_normal = fake
    try:
        yield
    finally:
        np.random.multivariate_normal = real


def gen_history(rng, tier):
    n = rng.choice([1, 2, 3, 5, 10, 10, 20])
    dim = rng.choice([1, 1, 2, 3, 5])
    upd = gen_updater(rng, n, dim)
    if upd["weighting_method"] == "PI-BB":
        upd["eliteness"] = rng.choice([1, 10, 0.5, 30, 700, 10])
    return {
        "n": n,
        "dim": dim,
        "dist": gen_distribution(rng, dim, False),
        "updater": upd,
        "seed": rng.randrange(2**31),
        "ops": [],
    }


class U01(Check):
    id = "U01"
    runs = {"quick": 6000, "thorough": 250000}
    rule = ("Histories of 1-12 updates by all updaters, weighting methods and limits, with extreme"
            " draws of the random generator, adversarial and failed (nan) costs in all accepted"
            " forms, and restarts in between; each update is compared with independently written"
            " formulas and validity conditions.")
    stub = ["random generator's draws may be replaced by extreme ones", "costs"]
    state_measure = "hash of (weights, new mean)"
    shrink_lists = [("ops",)]

    def plan(self, rng, tier, i):
        plan = gen_history(rng, tier)
        for _ in range(rng.randint(1, rng.choice([3, 6, 12, 12, 40]))):
            plan["ops"].append({
                "costs": rng.choice(COSTS), "form": rng.choice(FORMS), "form2": rng.choice(FORMS),
                "draw": rng.choice(DRAWS), "seed": rng.randrange(2**31),
                "nan": rng.choice([None] * 6 + ["one", "all", "rest"]),
                "restart": rng.random() < 0.15,
            })
        return plan

    def execute(self, plan, ctx):
        ctx.nontrivial()
        d = ctx.dir("session")
        k = ctx.kernel("main")

        def init():
            s = lib.LearningSession(plan["n"], d)
            s.tell(make_distribution(plan["dist"]), "distribution")
            s.tell(make_updater(plan["updater"]), "updater")

        ctx.ok(k.run(("init", init, plan["seed"])))
        ops = list(enumerate(plan["ops"]))
        while ops:
            part = [ops.pop(0)]
            while ops and not ops[0][1]["restart"]:
                part.append(ops.pop(0))

            def body(part=part):
                s = lib.LearningSession.from_dir(d)
                dist, upd = s.ask("distribution"), s.ask("updater")
                for j, op in part:
                    dist = self.update(plan, op, dist, upd, ctx, j)
                s.tell(dist, "distribution")

            ctx.ok(k.run((f"part{part[0][0]}", body, plan["seed"] + part[0][0])))

    def update(self, plan, op, dist, upd, ctx, j):
        r = rs(op["seed"])
        us = plan["updater"]
        n, dim = plan["n"], plan["dim"]
        where = f"update {j}"
        with draws(op["draw"], r, ctx):
            samples = dist.generate_samples(n)
        if np.shape(samples) != (n, dim):
            raise Violation("samples", f"{where}: samples of shape {np.shape(samples)}")
        total = gen_costs(r, op["costs"], n)
        mean0, covar0, samples0 = dist.mean.copy(), dist.covar.copy(), samples.copy()

        def unchanged(what):
            if not (same_num(dist.mean, mean0) and same_num(dist.covar, covar0)):
                raise Violation("modified", f"{where}: {what} modified the previous distribution")
            if not same_num(samples, samples0):
                raise Violation("modified", f"{where}: {what} modified the samples")

        if op["nan"] and us["weighting_method"] == "PI-BB":
            bad = total.copy()
            i = int(r.randint(n))
            if op["nan"] == "one":
                bad[i] = np.nan
            elif op["nan"] == "rest":
                keep = bad[i]
                bad[:] = np.nan
                if n > 1:
                    bad[i] = keep
            else:
                bad[:] = np.nan
            ctx.count("fault:nan_costs")
            try:
                new, w = upd.update_distribution(dist, samples, in_form(bad, op["form"], r))
            except Exception:  # noqa
                pass
            else:
                raise Violation("nan-accepted", f"{where}: costs {bad} gave weights {w} mean {new.mean}")
            unchanged("a refused update")

        costs = in_form(total, op["form"], r)
        new, w = upd.update_distribution(dist, samples, costs)
        unchanged("the update")
        if not deep_equal(in_form(total, op["form"], rs(0)) if op["form"] in ("float", "list") else None,
                          costs if op["form"] in ("float", "list") else None):
            raise Violation("modified", f"{where}: costs were modified")

        # weights
        w = np.atleast_1d(np.asarray(w, float))
        if w.shape != (n,) or not np.all(np.isfinite(w)) or np.any(w < 0):
            raise Violation("weights", f"{where}: {w} for costs {total}")
        if abs(float(np.sum(w)) - 1.0) > 1e-9:
            raise Violation("weights", f"{where}: sum of weights is {np.sum(w)}")
        order = np.argsort(total, kind="stable")
        for a, b in zip(order[:-1], order[1:]):
            if total[a] < total[b] and w[a] < w[b] * (1 - 1e-12):
                raise Violation("order", f"{where}: cost {total[a]} has weight {w[a]}, cost {total[b]} has {w[b]}")
        ref = refs.weights(total, us["weighting_method"], us["eliteness"])
        if ref is not None and not refs.close(w, ref, 1e-7):
            raise Violation("weights", f"{where}: weights {w} not {ref} for costs {total}")
        new2, w2 = upd.update_distribution(dist, samples, in_form(total, op["form2"], r))
        if not (same_num(np.atleast_1d(w2), w) and same_num(new2.mean, new.mean)
                and same_num(new2.covar, new.covar)):
            raise Violation("components", f"{where}: result depends on more than the total costs or on earlier updates")
        # mean
        scale = float(np.max(np.abs(samples))) if samples.size else 1.0
        exp = refs.mean_new(samples, w)
        if new.mean.shape != (dim,) or np.max(np.abs(new.mean - exp)) > 1e-9 * scale + 1e-300:
            raise Violation("mean", f"{where}: {new.mean} not {exp}")
        # covariance
        c = new.covar
        if c.shape != (dim, dim) or not np.all(np.isfinite(c)):
            raise Violation("covar", f"{where}: {c}")
        size = float(np.max(np.abs(c)))
        if np.max(np.abs(c - c.T)) > 1e-9 * size:
            raise Violation("symmetric", f"{where}: {c}")
        psd = float(np.min(np.linalg.eigvalsh(0.5 * (c + c.T))))
        if psd < -1e-9 * size - 1e-300:
            raise Violation("psd", f"{where}: covariance matrix has eigenvalue {psd}: {c}")
        self.covariance(plan, where, mean0, covar0, samples, w, c)
        # the old and the new distribution share no memory
        if np.shares_memory(new.mean, dist.mean) or np.shares_memory(new.covar, dist.covar):
            raise Violation("shared", f"{where}: new and previous distribution share memory")
        ctx.state(w, new.mean)
        ctx.record(w, new.mean, c)
        return new

    @staticmethod
    def covariance(plan, where, mean0, covar0, samples, w, c):
        us = plan["updater"]

        def same(exp, rtol=1e-8):
            tol = rtol * max(float(np.max(np.abs(exp))), 1e-300)
            return np.max(np.abs(c - exp)) <= tol

        if us["kind"] == "mean":
            if not same_num(c, covar0):
                raise Violation("covar", f"{where}: covariance matrix was not kept")
            return
        if us["kind"] == "decay":
            exp = us["covar_decay_factor"] ** 2 * covar0
            if not same(exp):
                raise Violation("covar", f"{where}: {c} is not the decayed {covar0}")
            return
        exp = refs.covar_sample(mean0, samples, w)
        if us["diag_only"]:
            exp = np.diag(np.diag(exp))
        lr = us["learning_rate"]
        exp = (1 - lr) * covar0 + lr * exp
        dim = plan["dim"]
        hi = us.get("diagonal_max")
        lo = us.get("diagonal_min")
        hi = None if hi is None else np.broadcast_to(np.asarray(hi, float), (dim,)) ** 2
        lo = None if lo is None else np.broadcast_to(np.asarray(lo, float), (dim,)) ** 2
        diag = np.diag(exp).copy()
        active = np.zeros(dim, bool)
        tol = 1e-8
        if hi is not None:
            if np.any(np.diag(c) > hi * (1 + tol)):
                raise Violation("limit-max", f"{where}: diagonal {np.diag(c)} above {hi}")
            active |= diag > hi * (1 - tol)
            diag = np.minimum(diag, hi)
        if lo is not None:
            if np.any(np.diag(c) < lo * (1 - tol)):
                raise Violation("limit-min", f"{where}: diagonal {np.diag(c)} below {lo}")
            active |= diag < lo * (1 + tol)
            diag = np.maximum(diag, lo)
        big = max(float(np.max(np.abs(exp))), 1e-300)
        if np.max(np.abs(np.diag(c) - diag)) > 1e-7 * max(big, float(np.max(np.abs(diag)))):
            raise Violation("covar", f"{where}: diagonal {np.diag(c)} not {diag}")
        free = ~active
        sub = np.ix_(free, free)
        if np.any(free) and np.max(np.abs(c[sub] - exp[sub])) > 1e-8 * big:
            raise Violation("covar", f"{where}: {c} not {exp}")
        if us["diag_only"] and lr == 1.0 and np.max(np.abs(c - np.diag(np.diag(c)))) > 0:
            raise Violation("covar", f"{where}: {c} is not diagonal")

    def simplify(self, plan):
        for n in (1, 2, 3):
            if n < plan["n"] and (us := plan["updater"]) and (
                    us["weighting_method"] == "PI-BB" or us["eliteness"] <= n):
                yield {**plan, "n": n}
        for j, op in enumerate(plan["ops"]):
            for key, v in (("draw", "normal"), ("costs", "plain"), ("form", "float"), ("nan", None),
                           ("restart", False)):
                if op[key] != v:
                    ops = [dict(o) for o in plan["ops"]]
                    ops[j][key] = v
                    yield {**plan, "ops": ops}


BOUNDS = ["scalar", "lower", "upper", "vector", "list", "mixed", "inf", "int", "row", "narrow",
          "zero_lower", "zero_upper", "zeros", "zero_some"]


class U02(Check):
    id = "U02"
    runs = {"quick": 6000, "thorough": 200000}
    rule = ("Histories of draws and updates of bounded distributions (all kinds of bounds) with"
            " extreme draws, wide covariances, adversarial costs, restarts with re-loading from"
            " json, re-loading from sessions, and complete optimization loops.")
    stub = ["random generator's draws may be replaced by extreme ones", "costs"]
    state_measure = "hash of (mean, number of samples at the bounds)"
    shrink_lists = [("ops",)]

    def plan(self, rng, tier, i):
        plan = gen_history(rng, tier)
        plan["bounds"] = rng.choice(BOUNDS)
        plan["sigma"] = rng.choice([0.1, 1.0, 10.0, 1e3])
        plan["outside"] = rng.random() < 0.2
        for x in ("diagonal_max", "diagonal_min"):
            plan["updater"].pop(x, None)
        for _ in range(rng.randint(1, rng.choice([2, 4, 8]))):
            plan["ops"].append({
                "do": rng.choice(["update", "update", "update", "draw", "json", "session", "copy", "loop"]),
                "costs": rng.choice(COSTS), "draw": rng.choice(DRAWS), "seed": rng.randrange(2**31),
            })
        return plan

    @staticmethod
    def bounds(plan):
        r = rs(plan["seed"] + 3)
        d = plan["dim"]
        mean = r.uniform(-1, 1, d)
        w = r.uniform(0.2, 2, d)
        w2 = r.uniform(0.2, 2, d)
        lo, hi = mean - w, mean + w2
        kind = plan["bounds"]
        if kind == "scalar":
            lo, hi = float(np.min(lo)), float(np.max(hi))
        elif kind == "lower":
            hi = None
        elif kind == "upper":
            lo, hi = None, float(np.max(hi))
        elif kind == "list":
            lo, hi = lo.tolist(), hi.tolist()
        elif kind == "mixed":
            lo = float(np.min(lo))
        elif kind == "inf":
            lo = np.where(r.rand(d) < 0.5, -np.inf, lo)
            hi = np.where(r.rand(d) < 0.5, np.inf, hi)
        elif kind == "int":
            lo, hi = -2, 3
        elif kind == "row":
            lo = tuple(lo.tolist())
        elif kind == "zero_lower":  # e.g. gains, which may not be negative
            mean = w.copy()
            lo, hi = [0, 0.0, -0.0][r.randint(3)], [None, mean + w2][r.randint(2)]
        elif kind == "zero_upper":
            mean = -w
            lo, hi = [None, mean - w2][r.randint(2)], [0, 0.0][r.randint(2)]
        elif kind == "zeros":
            mean = w.copy()
            lo, hi = np.zeros(d), None
        elif kind == "zero_some":
            some = r.rand(d) < 0.5
            mean = np.where(some, w, mean)
            lo, hi = np.where(some, 0.0, mean - w), mean + w2
        elif kind == "narrow":
            lo, hi = mean - 1e-9, mean + 1e-9
        if plan["outside"]:
            mean = mean + 5
        return mean, lo, hi

    def execute(self, plan, ctx):
        ctx.nontrivial()
        d = ctx.dir("session")
        k = ctx.kernel("main")
        mean, lo, hi = self.bounds(plan)
        dim = plan["dim"]
        lo_v = np.broadcast_to(np.asarray(-np.inf if lo is None else lo, float), (dim,))
        hi_v = np.broadcast_to(np.asarray(np.inf if hi is None else hi, float), (dim,))
        state = {"drawn": not plan["outside"]}

        def check_samples(x, n, where):
            x = np.asarray(x, float).reshape(n, dim)
            if np.any(x < lo_v) or np.any(x > hi_v) or np.any(np.isnan(x)):
                raise Violation("outside", f"{where}: samples {x} not within {lo_v} .. {hi_v}")
            return int(np.sum((x == lo_v) | (x == hi_v)))

        def check_dist(dist, where):
            for nm, exp, val in (("lower", lo, dist.lower_bound), ("upper", hi, dist.upper_bound)):
                if (exp is None) != (val is None) or (
                        exp is not None and not np.array_equal(
                            np.broadcast_to(np.asarray(val, float), (dim,)),
                            np.broadcast_to(np.asarray(exp, float), (dim,)))):
                    raise Violation("bounds-changed", f"{where}: {nm} bound is {val} not {exp}")
            if state["drawn"]:
                tol = 1e-12 * (1 + np.abs(dist.mean))
                if np.any(dist.mean < lo_v - tol) or np.any(dist.mean > hi_v + tol):
                    raise Violation("mean-outside", f"{where}: mean {dist.mean} not within {lo_v} .. {hi_v}")

        def init():
            c = np.diag(rs(plan["seed"]).uniform(0.5, 2, dim)) * plan["sigma"] ** 2
            dist = lib.DistributionGaussianBounded(mean, c, lo, hi)
            lib.LearningSession(plan["n"], d).tell(dist, "dist0")
            check_dist(dist, "initially")

        ctx.ok(k.run(("init", init, plan["seed"])))
        ops = list(enumerate(plan["ops"]))
        part_no = 0
        while ops:
            part = [ops.pop(0)]
            while ops and ops[0][1]["do"] not in ("session", "json"):
                part.append(ops.pop(0))

            def body(part=part, part_no=part_no):
                import copy

                s = lib.LearningSession.from_dir(d)
                if part[0][1]["do"] == "json" and part_no:
                    dist = lib.jc.loadjson(os.path.join(d, "dist.json"))
                else:
                    dist = s.ask(f"dist{part_no}")
                check_dist(dist, f"re-loaded before operation {part[0][0]}")
                upd = make_updater(plan["updater"])
                for j, op in part:
                    r = rs(op["seed"])
                    where = f"operation {j} ({op['do']})"
                    if op["do"] == "copy":
                        dist = copy.deepcopy(dist)
                        check_dist(dist, where)
                    with draws(op["draw"], r, ctx):
                        if op["do"] == "loop":
                            sess = self.loop(plan, op, dist, upd, ctx, j)
                            for u in range(2):
                                n_at = check_samples(sess.ask("samples", u), plan["n"], where)
                                check_dist(sess.ask("distribution", u), where)
                            dist = sess.ask("distribution_new", 1)
                        else:
                            n = plan["n"] if op["do"] != "draw" else 3
                            x = dist.generate_samples(n)
                            n_at = check_samples(x, n, where)
                            if op["do"] == "draw":
                                check_samples(dist.generate_samples(), 1, where)
                            if op["do"] == "update":
                                dist, _ = upd.update_distribution(dist, x, list(gen_costs(r, op["costs"], n)))
                    if op["do"] in ("update", "loop"):
                        state["drawn"] = True
                    check_dist(dist, where)
                    ctx.state(n_at, dist.mean)
                    ctx.record(dist.mean)
                s.tell(dist, f"dist{part_no + 1}")
                lib.jc.savejson(os.path.join(d, "dist.json"), dist)

            ctx.ok(k.run((f"part{part_no}", body, plan["seed"] + part_no)))
            part_no += 1

    @staticmethod
    def loop(plan, op, dist, upd, ctx, j):
        cost = lib.user.SimCost(np.full(plan["dim"], 3.0), 1)
        sub = ctx.dir(f"loop{j}") if op["seed"] % 2 else None
        lib.run_optimization(cost, dist, upd, 2, plan["n"], sub)
        s = lib.run_optimization(cost, dist, upd, 2, plan["n"], sub)
        return lib.LearningSession.from_dir(sub) if sub else s
