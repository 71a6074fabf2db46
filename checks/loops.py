"""O05, O06: optimization loops, their histories and their progress reports."""

import os
import random

import numpy as np

from simkit import refs
from simkit.kernel import Kernel, Violation
from simkit.repo import lib
from simkit.runner import Check
from simkit.scenario import (
    brief, deep_equal, gen_distribution, gen_dmp, gen_updater, make_distribution, make_dmp,
    make_updater, same_num, stored_equal,
)


class UserError(Exception):
    pass


def gen_loop(rng, tier):
    kind = rng.choice(["cf", "cf", "dmp", "solver"])
    n = rng.choice([1, 2, 3, 5])
    plan = {
        "kind": kind,
        "n": n,
        "n_updates": rng.choice([1, 2, 3, 4]) if kind != "dmp" else rng.choice([1, 2]),
        "seed": rng.randrange(2**31),
        "noise": rng.choice([0.0, 0.0, 0.3]),
        "n_components": rng.choice([0, 1, 2, 3]),
        "as_array": rng.random() < 0.4,
        "as_scalar": rng.random() < 0.15,
        "ops": [],
    }
    if kind == "dmp":
        plan["dmp"] = gen_dmp(rng, dim=rng.choice([1, 2]), small=True)
        plan["dataframe"] = rng.random() < 0.15
        from checks.stepwise import n_params

        p = n_params(plan["dmp"])
    else:
        p = rng.choice([1, 1, 2, 3, 8])
    plan["dim"] = p
    plan["dist"] = gen_distribution(rng, p)
    plan["updater"] = gen_updater(rng, n, p)
    return plan


class Loop:
    """One optimization loop; the methods are to be called inside of a simulated process."""

    def __init__(self, plan, d=None):
        self.plan = plan
        self.d = d
        self.n = plan["n"]
        self.m = plan["n_updates"]
        self.cf = plan["kind"] == "cf"

    def dist(self):
        if self.plan["kind"] == "dmp":
            p0 = np.atleast_1d(make_dmp(self.plan["dmp"]).get_param_vector())
            return make_distribution(self.plan["dist"], p0)
        return make_distribution(self.plan["dist"])

    def cost(self):
        p = self.plan
        if self.cf:
            return lib.user.SimCost(0.3 * np.ones(p["dim"]), p["n_components"], p["as_scalar"],
                                    p["noise"], p["as_array"] and not p["as_scalar"])
        d = p["dmp"]["dim"] if p["kind"] == "dmp" else p["dim"]
        return lib.user.SimTask(0.3 * np.ones(d), 1.0, p["n_components"], p["as_array"])

    def solver(self):
        p = self.plan
        if p["kind"] == "dmp":
            s = p["dmp"]
            return lib.TaskSolverDmp(make_dmp(s), s["tau"] / 8, 1.2, p["dataframe"])
        return lib.user.SimSolver(p["dim"], 5, p["noise"])

    def run(self, directory):
        dist, upd = self.dist(), make_updater(self.plan["updater"])
        if self.cf:
            return lib.run_optimization(self.cost(), dist, upd, self.m, self.n, directory)
        return lib.run_optimization_task(
            self.cost(), self.solver(), dist, upd, self.m, self.n, directory)

    def open(self, d=None):
        cls = lib.LearningSession if self.cf else lib.LearningSessionTask
        return cls.from_dir(d or self.d)

    def keys(self, updates):
        """The results of an update; the loop has finished the update when all are stored."""
        out = []
        for u in updates:
            out += [(nm, u, None) for nm in (
                "distribution", "samples", "costs", "weights", "distribution_new", "eval_cost",
                "eval_sample")]
            if not self.cf:
                out.append(("eval_cost_vars", u, None))
                for i in range(self.n):
                    out += [(nm, u, i) for nm in ("sample", "cost_vars", "cost")]
        return out

    def history(self, session, updates=None, strict=True):
        out = {}
        for k in self.keys(range(self.m) if updates is None else updates):
            if not strict and not session.exists(*k):
                continue
            out[k] = session.ask(*k)
        return out

    def costs_seen(self, log, sample, cost, cv=None):
        """Did the user's cost function return this cost for this sample?"""
        s = np.atleast_1d(np.asarray(sample, float))
        c = np.atleast_1d(np.asarray(cost, float))
        for e_s, e_cv, e_c in log:
            if same_num(np.atleast_1d(e_s), s) and same_num(np.atleast_1d(e_c), c):
                if cv is None or same_num(e_cv, np.asarray(cv, float)):
                    return True
        return False

    def check_definition(self, hist, log, ctx):
        """Every update satisfies the definition of the loop."""
        us = self.plan["updater"]
        p = self.plan["dim"]
        prev = self.dist()
        for u in range(self.m):
            h = {k[0]: v for k, v in hist.items() if k[1] == u and k[2] is None}
            where = f"update {u}"
            dist, new = h["distribution"], h["distribution_new"]
            if not deep_equal(vars(dist), vars(prev)):
                raise Violation("chain", f"{where}: starts from {brief(dist)} not {brief(prev)}")
            samples = np.asarray(h["samples"], float)
            if samples.size != self.n * p:
                raise Violation("samples", f"{where}: samples of shape {samples.shape}")
            samples = samples.reshape(self.n, p)
            if self.n > 1 and not self.plan["dist"].get("bounds"):
                if len({s.tobytes() for s in samples}) < self.n and np.max(np.diag(dist.covar)) > 1e-12:
                    raise Violation("samples", f"{where}: the same sample twice")
            why = refs.plausible(samples, dist.mean, dist.covar, getattr(dist, "lower_bound", None),
                                 getattr(dist, "upper_bound", None))
            if why:
                raise Violation("samples", f"{where}: {why}")
            if not same_num(np.atleast_1d(h["eval_sample"]), dist.mean):
                raise Violation("eval", f"{where}: evaluated {h['eval_sample']} not {dist.mean}")
            if not self.costs_seen(log, dist.mean, h["eval_cost"], h.get("eval_cost_vars")):
                raise Violation("eval", f"{where}: {h['eval_cost']} is not the cost of the mean")
            if len(h["costs"]) != self.n:
                raise Violation("costs", f"{where}: {len(h['costs'])} costs")
            for i in range(self.n):
                cv = None
                if not self.cf:
                    cv = hist[("cost_vars", u, i)]
                    if not same_num(np.atleast_1d(hist[("sample", u, i)]), samples[i]):
                        raise Violation("samples", f"{where}: sample {i} of the rollout differs")
                    a, b = hist[("cost", u, i)], h["costs"][i]
                    if not same_num(np.atleast_1d(np.asarray(a, float)), np.atleast_1d(np.asarray(b, float))):
                        raise Violation("costs", f"{where}: cost {i} of rollout {a} is not {b}")
                if not self.costs_seen(log, samples[i], h["costs"][i], cv):
                    raise Violation("costs", f"{where}: {h['costs'][i]} is not the cost of sample {i}")
            costs = refs.total_costs(h["costs"])
            w = np.atleast_1d(np.asarray(h["weights"], float))
            ref = refs.weights(costs, us["weighting_method"], us["eliteness"])
            if w.shape != (self.n,) or (ref is not None and not refs.close(w, ref, 1e-7)):
                raise Violation("weights", f"{where}: weights {w} not {ref} for costs {costs}")
            exp_new, _ = make_updater(us).update_distribution(dist, samples, list(costs))
            if not refs.close(new.mean, refs.mean_new(samples, w), 1e-7, 1e-9):
                raise Violation("mean", f"{where}: new mean {new.mean} not {refs.mean_new(samples, w)}")
            if not refs.close(new.covar, exp_new.covar, 1e-8):
                raise Violation("covar", f"{where}: covar {new.covar} not {exp_new.covar}")
            prev = new
            ctx.state(u, w, new.mean)

    def complete(self, u):
        """Are all results of update u stored in the directory (looking at the files only)?"""
        for k in self.keys([u]):
            base = os.path.join(self.d, str(lib.LearningSession.get_base_name(*k)))
            if not any(_isfile(base + e) for e in (".json", ".csv", ".txt")):
                return False
        return True

    def n_complete(self):
        u = 0
        while self.complete(u):
            u += 1
        return u


def _isfile(path):
    from simkit import simfs

    try:
        simfs.real["os.stat"](path)
    except OSError:
        return False
    return True


class LoopCheck(Check):
    stub = ["clock and pid", "process scheduler (seeded baton passing)",
            "user's cost function and task (deterministic or with seeded noise; may raise)"]
    assumptions = ["process-crash model: completed system calls survive",
                   "a directory is used by one optimization"]
    state_measure = "hash of (update number, weights, new mean)"

    def simplify(self, plan):
        for n in range(1, plan["n_updates"]):
            yield {**plan, "n_updates": n}
        for n in range(1, min(plan["n"], 4)):
            if plan["updater"]["eliteness"] <= n or plan["updater"]["weighting_method"] == "PI-BB":
                yield {**plan, "n": n}
        if plan["noise"]:
            yield {**plan, "noise": 0.0}
        if plan.get("observers"):
            yield {**plan, "observers": 0}


class O05(LoopCheck):
    id = "O05"
    runs = {"quick": 900, "thorough": 16000}
    rule = ("The same seeded optimization loop (cost function, DMP task, other task) executed in"
            " memory, exported, in a directory with concurrent observers and other optimizations,"
            " re-opened, and cut short by a crash or I/O error at a file operation, an exception,"
            " interrupt or nan of the user's cost function, then repeated.")

    def plan(self, rng, tier, i):
        plan = gen_loop(rng, tier)
        plan["observers"] = rng.choice([0, 1, 2])
        plan["other"] = rng.random() < 0.3
        plan["cut"] = rng.choice(["crash", "crash", "error", "raise", "raise", "interrupt", "nan"])
        if plan["cut"] == "nan":
            plan["updater"].update(weighting_method="PI-BB", eliteness=10)
        plan["at"] = rng.random()
        plan["how"] = rng.choice(["crash_before", "crash_after", "torn"]) if plan["cut"] == "crash" else (
            rng.choice(["eio", "enospc"]))
        plan["frac"] = rng.choice([0.0, 0.4, 0.9])
        plan["again"] = rng.random() < 0.5
        plan["in_solver"] = rng.random() < 0.5
        return plan

    def execute(self, plan, ctx):
        ctx.nontrivial()
        res = {}
        log = []

        def in_memory():
            lp = Loop(plan)
            lib.user.SimCost.log = log
            s = lp.run(None)
            res["mem"] = lp.history(s)
            lp.check_definition(res["mem"], log, ctx)
            s.save_all(ctx.dir("export"))
            if plan["again"]:  # the same again in the same process
                np.random.seed(plan["seed"] % 2**32)
                again = lp.history(lp.run(None))
                self.same(res["mem"], again, "second run in the same process", bits=True)

        k = ctx.kernel("memory")
        ctx.ok(k.run(("mem", in_memory, plan["seed"])))
        mem = res["mem"]

        # in a directory, with other processes around
        lp = Loop(plan, os.path.join(ctx.dir("disk"), "session"))
        k = ctx.kernel("disk")

        def on_disk():
            s = lp.run(lp.d)
            self.same(mem, lp.history(s), "directory", bits=True)

        specs = [("disk", on_disk, plan["seed"])]
        for o in range(plan["observers"]):
            specs.append((f"obs{o}", self.observer(plan, lp, k), 5 + o, {"readonly": True}))
        if plan["other"]:
            def other():
                Loop({**plan, "n_updates": 1}).run(os.path.join(ctx.dir("other"), "session"))
            specs.append(("other", other, 99))
        counts = ctx.ok(k.run(*specs))[0].n_mut

        def reopened(d, what):
            def body():
                self.same(mem, lp.history(lp.open(d)), what)
            return body

        ctx.ok(k.run(("reopen", reopened(lp.d, "re-opened directory"), 6)))
        ctx.ok(k.run(("export", reopened(os.path.join(ctx.scratch, "export"), "exported"), 6)))

        # cut short
        cut = Loop(plan, os.path.join(ctx.dir("cut"), "session"))
        fault = {"at": plan["at"], "cut": plan["cut"], "how": plan["how"]}
        faults = []
        total = plan["n_updates"] * (plan["n"] + 1)
        j = int(plan["at"] * total)
        if plan["cut"] in ("crash", "error"):
            faults = [{"proc": "cut", "k": int(plan["at"] * counts), "kind": plan["how"],
                       "frac": plan["frac"]}]
        k = ctx.kernel("cut", faults=faults)
        calls = {"n": 0}

        def hook(sample):
            calls["n"] += 1
            if calls["n"] == j + 1:
                ctx.count("fault:user_" + plan["cut"])
                k.event(f"user code fails in evaluation {j}")
                raise (UserError("evaluation failed") if plan["cut"] == "raise" else KeyboardInterrupt())

        def cut_run():
            if plan["cut"] in ("raise", "interrupt"):
                target = lib.user.SimCost
                if plan["kind"] == "solver" and plan["in_solver"]:
                    target = lib.user.SimSolver
                target.hook = hook
            elif plan["cut"] == "nan":
                lib.user.SimCost.nan_at = j
            cut.run(cut.d)

        (p,) = k.run(("cut", cut_run, plan["seed"]))
        must_be = None  # number of finished updates, if known
        if plan["cut"] in ("raise", "interrupt"):
            if not isinstance(p.exc, (UserError, KeyboardInterrupt)):
                raise Violation("swallowed", f"exception of the cost function became {p.exc!r}")
            must_be = j // (plan["n"] + 1)
        elif plan["cut"] == "nan":
            is_eval = j % (plan["n"] + 1) == 0
            if p.exc is None and not is_eval:
                raise Violation("nan-accepted", f"evaluation {j} was nan")
            if p.exc is not None:
                must_be = j // (plan["n"] + 1)
                if is_eval:
                    ctx.ok([p])
            ctx.count("fault:user_nan")
        elif not p.crashed and p.exc is None:
            pass  # the faulty operation was not reached
        elif p.exc is not None and not isinstance(p.exc, OSError):
            ctx.ok([p])

        def after():
            try:
                s = cut.open()
            except OSError:
                if cut.n_complete() or must_be:
                    raise Violation("lost", "the session cannot be opened after the failure")
                return
            n = cut.n_complete() if must_be is None else must_be
            upto = n if plan["cut"] == "nan" else plan["n_updates"]
            have = cut.history(s, range(min(n, plan["n_updates"])))  # raises if incomplete
            if plan["cut"] == "nan" and p.exc is None:
                have = {}
            have.update(cut.history(s, range(n, upto), strict=False))
            ctx.state("cut", n)
            for key, v in have.items():
                if not stored_equal(v, mem[key]):
                    raise Violation("prefix-differs", f"{key} is {brief(v)}, undisturbed {brief(mem[key])}")

        ctx.ok(k.run(("after", after, 8)))
        if plan["again"]:
            def repeat():
                cut.run(cut.d)

            ctx.ok(k.run(("repeat", repeat, plan["seed"])))
            ctx.ok(k.run(("after2", reopened(cut.d, "repeated run"), 8)))
        for key, v in mem.items():
            if isinstance(v, np.ndarray):
                ctx.record(v)

    @staticmethod
    def same(a, b, what, bits=False):
        for key, v in a.items():
            if key not in b:
                raise Violation("history-differs", f"{what}: no {key}")
            if not (deep_equal(v, b[key]) if bits else stored_equal(b[key], v)):
                raise Violation("history-differs", f"{what}: {key} is {brief(b[key])} not {brief(v)}")

    def observer(self, plan, lp, k):
        def body():
            for _ in range(3):
                try:
                    s = lp.open()
                except OSError:
                    continue
                n = s.get_n_updates()
                s.get_learning_curve()
                lp.history(s, range(n))
                np.random.standard_normal(3)
        return body

    def simplify(self, plan):
        yield from super().simplify(plan)
        for key in ("other", "again"):
            if plan[key]:
                yield {**plan, key: False}


class O06(LoopCheck):
    id = "O06"
    runs = {"quick": 1300, "thorough": 30000}
    rule = ("Progress reports (number of updates, learning curve, costs before/after) asked in the"
            " optimizing process from inside the cost function, by observers between any two file"
            " operations, after crashes, errors and re-opening, for both loops, step-by-step"
            " optimization and sessions filled by add_update, compared with the completely stored"
            " updates and the costs that the user's code returned.")

    def plan(self, rng, tier, i):
        mode = rng.choice(["loop", "loop", "loop", "step", "direct", "direct"])
        if mode == "step":
            from checks.stepwise import gen_steps

            plan = gen_steps(rng, tier, n_max=3, big=0.0)
            plan["n"] = min(3, plan["n"])
            if plan["updater"]["weighting_method"] != "PI-BB":
                plan["updater"]["eliteness"] = min(plan["updater"]["eliteness"], plan["n"])
            plan["seed"] = plan["seeds"][0]
            plan["noise"] = 0.0
        else:
            plan = gen_loop(rng, tier)
            if mode == "loop" and rng.random() < 0.05:
                plan["n_updates"] = 0
            if mode == "direct":
                plan["kind"] = "cf"
                plan["dim"] = 2
                plan["dist"]["dim"] = 2
                for x in ("diagonal_max", "diagonal_min"):
                    plan["updater"].pop(x, None)
                plan["n_updates"] = rng.choice([0, 1, 2, 5, 12])
                plan["with_new"] = rng.random() < 0.5
                plan["eval"] = rng.choice([False, False, True])
        plan["mode"] = mode
        plan["memory"] = mode != "step" and rng.random() < 0.4
        plan["observers"] = 0 if plan["memory"] else rng.choice([0, 1, 2])
        plan["rounds"] = rng.randint(1, 5)
        plan["fault"] = plan["raise_at"] = None
        if mode == "loop" and rng.random() < 0.3:
            plan["raise_at"] = rng.randint(1, max(1, plan["n_updates"] * (plan["n"] + 1)))
        elif not plan["memory"] and rng.random() < 0.6:
            plan["fault"] = {"at": rng.random(), "kind": rng.choice(
                ["crash_before", "crash_after", "torn", "eio", "enospc"]), "frac": rng.choice([0.1, 0.9])}
        plan["ops"] = []
        return plan

    shrink_lists = []

    def simplify(self, plan):
        yield from super().simplify(plan)
        if plan["fault"]:
            yield {**plan, "fault": None}

    def execute(self, plan, ctx):
        ctx.nontrivial()
        counts = None
        if plan["fault"]:
            counts = self.once(plan, ctx, "dry", None, 0)
        faults = None
        if counts:
            faults = [{"proc": "main", "k": int(plan["fault"]["at"] * counts),
                       "kind": plan["fault"]["kind"], "frac": plan["fault"]["frac"]}]
        self.once(plan, ctx, "main", faults, plan["observers"])

    def once(self, plan, ctx, name, faults, n_obs):
        d = None if plan["memory"] else os.path.join(ctx.dir(name), "session")
        sub = {"step": StepReports, "loop": LoopReports, "direct": DirectReports}[plan["mode"]](plan, d, ctx)
        k = ctx.kernel(name, faults=faults or ())
        specs = [("main", sub.main, plan["seed"])]
        for o in range(n_obs):
            specs.append((f"obs{o}", self.observer(plan, sub, k, o), 5 + o, {"readonly": True}))
        procs = k.run(*specs)
        ctx.ok(procs[1:])
        p = procs[0]
        if p.exc is not None and not (faults and isinstance(p.exc, OSError)):
            ctx.ok([p])
        if not plan["memory"]:
            def after():
                try:
                    s = sub.open()
                except OSError:
                    if sub.n_complete():
                        raise Violation("cannot-open", "updates are stored but cannot be opened")
                    return
                n = sub.n_complete()
                sub.check(s, n, n, "re-opened")
                if not faults and not sub.failed and n != plan["n_updates"]:
                    raise Violation("n-updates", f"{n} finished updates instead of {plan['n_updates']}")

            ctx.ok(k.run(("after", after, 4)))
        return p.n_mut

    def observer(self, plan, sub, k, o):
        rng = random.Random(f"{plan['seed']}-{o}")

        def body():
            for _ in range(plan["rounds"]):
                if rng.random() < 0.5:
                    for _ in range(rng.randint(1, 40)):
                        k.yield_point("wait")
                lo = sub.n_complete()
                try:
                    s = sub.open()
                except OSError:
                    if lo:
                        raise Violation("cannot-open", "updates are stored but cannot be opened")
                    continue
                n = s.get_n_updates()
                hi = sub.n_complete()
                if not lo <= n <= hi:
                    raise Violation(
                        "n-updates", f"observer: {n} updates reported, {lo} to {hi} completely stored")
                sub.ctx.state("observed", n)
                sub.check(s, lo, None, "observer")
        return body


def axes():
    """The same axes, emptied."""
    import matplotlib.pyplot as plt

    if not plt.get_fignums():
        plt.figure(1)
    fig = plt.figure(1)
    fig.clear()
    return fig.add_subplot(111)


class Reports:
    """Expected progress reports."""

    def __init__(self, plan, d, ctx):
        self.plan = plan
        self.d = d
        self.ctx = ctx
        self.log = []
        self.rows = {}
        self.failed = False

    n_complete = Loop.n_complete

    def keys(self, us):
        raise NotImplementedError

    def complete(self, u):
        for k in self.keys([u]):
            base = os.path.join(self.d, str(lib.LearningSession.get_base_name(*k)))
            if not any(_isfile(base + e) for e in (".json", ".csv", ".txt")):
                return False
        return True

    def check(self, s, lo, hi, who):
        """Reports of a session; lo..hi updates are finished."""
        n = s.get_n_updates()
        if hi is not None and not lo <= n <= hi:
            raise Violation("n-updates", f"{who}: {n} updates reported, {lo} finished")
        curve, labels = s.get_learning_curve()
        if len(curve) < n or (hi is not None and len(curve) != n):
            raise Violation("curve", f"{who}: {len(curve)} rows for {n} updates")
        if self.d is not None and hi is None and len(curve) > self.n_complete():
            raise Violation("curve", f"{who}: {len(curve)} rows for {self.n_complete()} finished updates")
        for u in range(len(curve)):
            exp = self.row(s, u)
            got = np.asarray(curve[u], float)
            if not refs.close(got, exp, 1e-12):
                raise Violation("curve", f"{who}: row {u} is {got} not {exp}")
            c, at = s.get_eval_costs(u)
            if at != exp[0] or not refs.close(np.atleast_1d(np.asarray(c, float)), exp[1:], 1e-12):
                raise Violation("curve", f"{who}: evaluation {u} is {c} after {at} samples, not {exp}")
        if n:
            first, last = self.row(s, 0)[1:], self.row(s, n - 1)[1:]
            if hi is not None:
                before, after = s.get_eval_cost_before_after()
                for x, y, nm in ((before, first, "before"), (after, last, "after")):
                    if not refs.close(np.atleast_1d(np.asarray(x, float)), y, 1e-12):
                        raise Violation("before-after", f"{who}: costs {nm} are {x} not {y}")
                if first[0] != 0:
                    if not refs.close(s.get_cost_ratio(), last[0] / first[0], 1e-9):
                        raise Violation("before-after", f"{who}: cost ratio {s.get_cost_ratio()}")
            for u in range(n):
                sc = np.asarray(s.get_sample_costs(u), float)
                exp = self.sample_costs(s, u)
                if exp is not None and not refs.close(sc.reshape(exp.shape) if sc.size == exp.size else sc, exp, 1e-12):
                    raise Violation("sample-costs", f"{who}: costs of samples of update {u}: {sc} not {exp}")
            if hi is not None and self.plots < 2:
                self.plots += 1
                self.check_plots(s, n, who)
        self.ctx.count("reports")
        self.ctx.record(n)

    plots = 0

    def check_plots(self, s, n, who):
        """The curves that are shown to the user."""
        per = s.ask("n_samples_per_update")
        ax = axes()
        lines, _ = s.plot_exploration_curve(ax)
        got = np.asarray(lines[0].get_xydata(), float)
        covars = [np.asarray(s.ask("distribution", u).covar, float) for u in range(n)]
        exp = [[u * per, np.sqrt(max(0.0, np.linalg.eigvalsh((c + c.T) / 2)[-1]))]
               for u, c in enumerate(covars)]
        if got.shape != (n, 2) or not np.allclose(got, exp, 1e-6, 1e-12):
            raise Violation("exploration", f"{who}: exploration curve {got.tolist()} not {exp}")
        for u, c in enumerate(covars):
            e = s.ask("distribution", u).max_eigen_value()
            if np.iscomplexobj(e):
                raise Violation("exploration", f"{who}: the largest eigenvalue of the covariance matrix"
                                f" of update {u} is the complex number {e}")
        ax = axes()
        lines, _ = s.plot_learning_curve(ax)
        rows = np.array([self.row(s, u) for u in range(n)])
        for j in range(1, rows.shape[1]):
            got = np.asarray(lines[j - 1].get_xydata(), float)
            if got.shape != (n, 2) or not np.allclose(got, rows[:, [0, j]], 1e-9, 1e-12, equal_nan=True):
                raise Violation("curve", f"{who}: line {j} of the plotted learning curve is"
                                f" {got.tolist()} not {rows[:, [0, j]].tolist()}")
        self.ctx.count("plotted_reports")

    def lookup(self, sample):
        s = np.atleast_1d(np.asarray(sample, float))
        for e_s, _, e_c in self.log:
            if same_num(np.atleast_1d(e_s), s):
                return np.atleast_1d(e_c)
        raise Violation("eval", f"{s} was never evaluated")

    def sample_costs(self, s, u):
        samples = np.asarray(s.ask("samples", u), float).reshape(self.plan["n"], -1)
        return np.array([self.lookup(x) for x in samples])


class LoopReports(Reports):
    def __init__(self, plan, d, ctx):
        super().__init__(plan, d, ctx)
        self.loop = Loop(plan, d)
        if plan["noise"]:
            self.sample_costs = lambda s, u: None

    def keys(self, us):
        return self.loop.keys(us)

    def open(self):
        return self.loop.open()

    def row(self, s, u):
        n = self.plan["n"]
        if self.plan["noise"]:
            mean = np.atleast_1d(s.ask("distribution", u).mean)
            cost = np.atleast_1d(np.asarray(s.ask("eval_cost", u), float))
            if not self.loop.costs_seen(self.log, mean, cost):
                raise Violation("eval", f"{cost} is not a cost of {mean}")
        else:
            cost = self.lookup(s.ask("distribution", u).mean)
        return np.concatenate(([u * n], cost))

    def main(self):
        sessions = []
        base = lib.LearningSession
        original = base.__init__

        def init(this, *a, **kw):
            if this not in sessions:
                sessions.append(this)
            original(this, *a, **kw)

        base.__init__ = init
        calls = {"n": 0}
        rng = random.Random(self.plan["seed"])

        def stored():
            u = 0
            while all(sessions[0].exists(*k) for k in self.keys([u])):
                u += 1
            return u

        def hook(sample):
            """The user's code looks at the progress (and may fail)."""
            if sessions and rng.random() < 0.6:
                u = stored()
                self.check(sessions[0], u, u, f"during update {u}")
            calls["n"] += 1
            if calls["n"] == self.plan["raise_at"]:
                self.ctx.count("fault:user_raise")
                raise UserError("evaluation failed")

        lib.user.SimCost.log = self.log
        lib.user.SimCost.hook = hook
        try:
            s = self.loop.run(self.d)
        except UserError:
            u = stored()
            self.failed = True
            return self.check(sessions[0], u, u, f"failed in update {u}")
        finally:
            base.__init__ = original
            lib.user.SimCost.hook = None
        self.check(s, self.plan["n_updates"], self.plan["n_updates"], "at the end")


class DirectReports(Reports):
    """A session which the user fills with add_update (and perhaps add_eval)."""

    def keys(self, us):
        out = []
        for u in us:
            names = ["distribution", "samples", "costs", "weights"]
            if self.plan["with_new"]:
                names.append("distribution_new")
            if self.plan["eval"]:
                names += ["eval_cost", "eval_sample"]
            out += [(nm, u, None) for nm in names]
        return out

    def open(self):
        return lib.LearningSession.from_dir(self.d)

    def row(self, s, u):
        n = self.plan["n"]
        if self.plan["eval"]:
            return np.concatenate(([u * n], self.lookup(s.ask("distribution", u).mean)))
        return np.concatenate(([(u + 0.5) * n], np.mean(self.sample_costs(s, u), axis=0)))

    def sample_costs(self, s, u):
        return self.told[u]

    def main(self):
        p = self.plan
        self.told = {}
        lib.user.SimCost.log = self.log
        session = lib.LearningSession(p["n"], self.d)
        if p["n_updates"] == 0 or p["seed"] % 3 == 0:
            self.check(session, 0, 0, "no update yet")
        cost = lib.user.SimCost(np.ones(p["dim"]), p["n_components"], p["as_scalar"], 0.0,
                                p["as_array"] and not p["as_scalar"])
        updater = make_updater(p["updater"])
        dist = make_distribution(p["dist"])
        for u in range(p["n_updates"]):
            samples = dist.generate_samples(p["n"])
            if p["eval"]:
                session.add_eval(u, dist.mean, cost.evaluate(dist.mean))
            costs = [cost.evaluate(x) for x in samples]
            new, w = updater.update_distribution(dist, samples, costs)
            self.told[u] = np.array([np.atleast_1d(c) for c in costs], float)
            self.check(session, u, u, f"before update {u} is added")
            session.add_update(u, dist, samples, costs, w, new if p["with_new"] else None)
            self.check(session, u + 1, u + 1, f"after update {u}")
            dist = new


class StepReports(Reports):
    def __init__(self, plan, d, ctx):
        super().__init__(plan, d, ctx)
        from checks.stepwise import Steps

        self.st = Steps(plan, d)

    def keys(self, us):
        out = []
        for u in us:
            out += [(nm, u, None) for nm in ("distribution", "samples", "weights", "distribution_new")]
            for i in self.st.labels:
                out += [(nm, u, i) for nm in ("dmp", "cost_vars", "costs")]
        return out

    def open(self):
        return self.st.open()

    def row(self, s, u):
        return np.concatenate(([u * self.plan["n"]], self.lookup(s.ask("distribution", u).mean)))

    def main(self):
        p = self.plan
        lib.user.SimCost.log = self.log
        session = self.st.prepare()
        self.check(session, 0, 0, "prepared")
        solver = self.st.solver()
        for u in range(p["n_updates"]):
            if p["seeds"][3] % 2:
                session = self.st.open()
            for i in self.st.labels:
                self.st.rollout(session, u, i, solver)
            self.check(session, u, u, f"rollouts of update {u} done")
            self.st.step(session, u)
            self.check(session, u + 1, u + 1, f"after step {u}")
