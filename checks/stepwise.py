"""O01-O04: step-by-step optimization with operator, robot and observer processes."""

import contextlib
import copy
import io
import json
import os
import random

import numpy as np

from simkit import refs
from simkit.kernel import HarnessError, Violation
from simkit.repo import lib
from simkit.runner import Check
from simkit.scenario import (
    DMP_TYPES, brief, deep_equal, gen_distribution, gen_dmp, gen_updater, make_distribution,
    make_dmp, make_updater, rs, same_num,
)


def n_params(spec):
    names = [n for n in spec["selected"] if n != "goal"]
    return spec["dim"] * spec["n_bfs"] * len(names) + (spec["dim"] if "goal" in spec["selected"] else 0)


def gen_steps(rng, tier, n_max=5, big=0.02, n_updates=3):
    dmp = gen_dmp(rng, dim=rng.choice([1, 1, 2]), small=True)
    if rng.random() < 0.15:
        dmp["dim"], dmp["selected"] = 1, ["goal"]
    n = rng.choice([1, 2, 3, n_max])
    if rng.random() < big:
        n = rng.choice([101, 12, 110])
        dmp.update(dim=1, n_bfs=2)
    p = n_params(dmp)
    return {
        "dmp": dmp,
        "n": n,
        "n_updates": 1 if n > 50 else rng.randint(1, n_updates),
        "dist": {**gen_distribution(rng, p), "sigma": rng.choice([0.1, 1.0, 5.0])},
        "updater": gen_updater(rng, n, p),
        "task": {"n_components": rng.choice([0, 1, 2, 3]), "as_array": rng.random() < 0.5,
                 "weight": rng.choice([1.0, 10.0])},
        "traj": rng.random() < 0.3,
        "dataframe": rng.random() < 0.2,
        "seeds": [rng.randrange(2**31) for _ in range(6)],
        "with_solver": rng.random() < 0.5,
    }


class Steps:
    """A step-by-step optimization in a directory."""

    def __init__(self, plan, d):
        self.plan = plan
        self.d = d
        self.n = plan["n"]
        self.labels = list(range(plan["n"])) + ["eval"]

    # -- objects (to be called inside of a simulated process) --
    def dmp(self):
        return make_dmp(self.plan["dmp"])

    def dist(self):
        dmp = self.dmp()
        p = np.atleast_1d(dmp.get_param_vector())
        return make_distribution({**self.plan["dist"], "dim": p.size}, p)

    def task(self):
        t = self.plan["task"]
        return lib.user.SimTask(
            0.3 * np.ones(self.plan["dmp"]["dim"]), t["weight"], t["n_components"], t["as_array"]
        )

    def solver(self):
        s = self.plan["dmp"]
        return lib.TaskSolverDmp(self.dmp(), s["tau"] / 8, 1.2, self.plan["dataframe"])

    def open(self):
        return lib.LearningSessionTask.from_dir(self.d)

    # -- actions --
    def prepare(self):
        p = self.plan
        return lib.prepare_optimization(
            self.d, self.task(), self.solver() if p["with_solver"] else None, self.dist(), self.n,
            make_updater(p["updater"]), self.dmp(), p["traj"],
        )

    def step(self, session, u):
        lib.update_step(session, u, self.plan["traj"])

    def rollout(self, session, u, i, solver, value=None):
        """The robot: execute the DMP of a sample and store the result."""
        dmp = session.ask("dmp", u, i)
        cost_vars = solver.perform_rollout_dmp(dmp) if value is None else value
        return session.tell(cost_vars, "cost_vars", u, i)

    def tune(self, session, u):
        """The operator changes the exploration of an update."""
        factor = self.plan.get("tune", {}).get(str(u))
        if factor is not None:
            dist = session.ask("distribution", u)
            dist.covar = dist.covar * factor
            session.tell(dist, "distribution", u)

    def failed_rollout(self, session, u, i, solver):
        """A rollout with another result (bumped, wrong sensor readings), to be repeated."""
        x = np.asarray(solver.perform_rollout_dmp(session.ask("dmp", u, i)), dtype=float)
        self.rollout(session, u, i, solver, x + 0.25 * (1 + np.arange(x.shape[-1])))

    # -- oracles --
    def check_batch(self, session, u, ctx, initial=None, full=True):
        """O04: the batch of update u is complete and consistent."""
        where = f"batch {u}"
        dist = session.ask("distribution", u)
        raw = np.asarray(session.ask("samples", u), dtype=float)
        p = dist.mean.size
        if raw.size != self.n * p:
            raise Violation("batch-samples", f"{where}: samples have shape {raw.shape} for n={self.n} p={p}")
        samples = raw.reshape(self.n, p)
        lo, hi = getattr(dist, "lower_bound", None), getattr(dist, "upper_bound", None)
        if "bounds" in self.plan["dist"] and lo is None and hi is None:
            raise Violation("batch-bounds", f"{where}: the bounds of the distribution got lost")
        why = refs.plausible(samples, dist.mean, dist.covar, lo, hi)
        if why:
            raise Violation("batch-not-from-distribution", f"{where}: {why}")
        if self.n > 1 and np.max(np.diag(dist.covar)) > 1e-12 and len({s.tobytes() for s in samples}) < self.n:
            if lo is None and hi is None:
                raise Violation("batch-duplicates", f"{where}: equal samples")
        initial = initial or session.ask("dmp_initial")
        for i in self.labels:
            if not session.exists("dmp", u, i):
                raise Violation("batch-incomplete", f"{where}: no dmp for sample {i}")
            dmp = session.ask("dmp", u, i)
            exp = dist.mean if i == "eval" else samples[i]
            got = np.atleast_1d(dmp.get_param_vector())
            if got.shape != exp.shape or not same_num(got, exp):
                raise Violation("batch-params", f"{where}: dmp {i} has parameters {got} not {exp}")
            if full and (i in (0, "eval") or i == self.n - 1):
                initial.set_param_vector(exp)
                self.same_behaviour(dmp, initial, f"{where} dmp {i}")
            if full:
                self.check_cpp(dmp, u, i, where)
        return dist, samples

    def same_behaviour(self, a, b, where):
        a, b = copy.deepcopy(a), copy.deepcopy(b)
        views = []
        for x in (a, b):
            ts = np.linspace(0, self.plan["dmp"]["tau"], 6)
            xs = x.analytical_solution(ts)[0]
            s, _ = x.integrate_start()
            for _ in range(2):
                s, _ = x.integrate_step(0.02, s)
            every = []
            names = ["weights"] if self.plan["dmp"]["fa"] == "RBFN" else ["offsets", "slopes"]
            x.set_selected_param_names(names + ["centers", "widths", "goal"])
            every = np.atleast_1d(x.get_param_vector())
            views.append([xs, s, every, np.array(x.y_init), np.array(x.tau)])
        for name, v, w in zip(["trajectory", "integration", "parameters", "y_init", "tau"], *views):
            if not refs.close(v, w, 1e-10):
                raise Violation("batch-other-dmp", f"{where}: {name} differs from the initial DMP's")

    def check_cpp(self, dmp, u, i, where):
        base = lib.LearningSession.get_base_name("dmp", u, i)
        fn = os.path.join(self.d, f"{base}_for_cpp.json")
        try:
            with open(fn) as f:
                got = json.load(f)
        except Exception as e:
            raise Violation("batch-cpp", f"{where}: {base}_for_cpp.json: {type(e).__name__} {e}")
        if not deep_equal(got, refs.cpp_view(dmp)):
            raise Violation("batch-cpp", f"{where}: {base}_for_cpp.json is another DMP")

    def check_update(self, session, u, told, ctx):
        """O01: update u uses exactly its distribution, samples and rollout results."""
        where = f"update {u}"
        dist = session.ask("distribution", u)
        p = dist.mean.size
        samples = np.asarray(session.ask("samples", u), dtype=float).reshape(self.n, p)
        task = self.task()
        costs = []
        for i in self.labels:
            sample = dist.mean if i == "eval" else samples[i]
            cv = session.ask("cost_vars", u, i)
            if told is not None:
                if not same_num(np.asarray(cv, float), np.asarray(told[(u, i)], float)):
                    raise Violation("rollout-changed", f"{where}: cost_vars of {i} changed")
            exp = np.atleast_1d(np.asarray(task.evaluate_rollout(cv, sample), float))
            got = np.atleast_1d(np.asarray(session.ask("costs", u, i), float))
            if not refs.close(got, exp, 1e-10):
                raise Violation("costs", f"{where}: costs of sample {i} are {got} not {exp}")
            if i != "eval":
                costs.append(float(exp[0]))
        w = np.atleast_1d(np.asarray(session.ask("weights", u), float))
        us = self.plan["updater"]
        ref = refs.weights(costs, us["weighting_method"], us["eliteness"])
        if w.shape != (self.n,):
            raise Violation("weights", f"{where}: weights {w} for {self.n} samples")
        if ref is not None and not refs.close(w, ref, 1e-7):
            raise Violation("weights", f"{where}: weights {w} not {ref} for costs {costs}")
        new = session.ask("distribution_new", u)
        exp_new, _ = make_updater(us).update_distribution(dist, samples, list(costs))
        if not refs.close(new.mean, refs.mean_new(samples, w), 1e-7, 1e-9):
            raise Violation("mean", f"{where}: new mean {new.mean} not {refs.mean_new(samples, w)}")
        if not refs.close(new.covar, exp_new.covar, 1e-8):
            raise Violation("covar", f"{where}: covar {new.covar} not {exp_new.covar}")
        if session.exists("distribution", u + 1):
            nxt = session.ask("distribution", u + 1)
            factor = self.plan.get("tune", {}).get(str(u + 1))
            if factor is not None and u + 1 < self.plan["n_updates"]:
                new = copy.deepcopy(new)
                new.covar = new.covar * factor
            if not deep_equal(nxt, new):
                raise Violation("chain", f"{where}: update {u + 1} starts from another distribution")
        else:
            raise Violation("chain", f"{where}: no distribution for update {u + 1}")
        ctx.state(u, w, new.mean)
        ctx.record(w, new.mean, new.covar)

    def frozen(self, session, n_done):
        """All entries of the finished updates."""
        out = {}
        keys = [(nm, None, None) for nm in ("dmp_initial", "task", "updater", "distribution_initial", "n_samples_per_update")]
        if self.plan["with_solver"]:
            keys.append(("task_solver", None, None))
        for u in range(n_done):
            keys += [(nm, u, None) for nm in ("distribution", "samples", "weights", "distribution_new")]
            for i in self.labels:
                keys += [(nm, u, i) for nm in ("dmp", "cost_vars", "costs")]
        for k in keys:
            out[k] = session.ask(*k)
        return out

    def check_frozen(self, before, after, where):
        for k, v in before.items():
            if not deep_equal(v, after[k]):
                raise Violation("finished-changed", f"{where}: {k} changed: {brief(v)} -> {brief(after[k])}")


class StepCheck(Check):
    stub = ["clock and pid", "process scheduler (seeded baton passing)", "robot hardware (rollouts are"
            " made by the real TaskSolverDmp)", "user's Task (deterministic cost function)"]
    assumptions = [
        "process-crash model: completed system calls survive",
        "robots are deterministic, except for rollouts that are repeated before the step",
        "operator sessions are opened after the rollout results they use were last stored",
    ]
    state_measure = "hash of (update number, weights, new mean)"

    def simplify(self, plan):
        if plan.get("draw"):
            for d in range(1, plan["dim"]):
                yield {**plan, "dim": d}
            for name, v in (("stored", False), ("bounds", None), ("parts", 1), ("spread", 0.0)):
                if plan[name] != v:
                    yield {**plan, name: v}
            return
        for n in range(1, plan["n_updates"]):
            yield {**plan, "n_updates": n}
        for n in range(1, min(plan["n"], 4)):
            if plan["updater"]["eliteness"] <= n or plan["updater"]["weighting_method"] == "PI-BB":
                yield {**plan, "n": n}
        if plan["traj"]:
            yield {**plan, "traj": False}
        if plan["with_solver"]:
            yield {**plan, "with_solver": False}


class O01(StepCheck):
    id = "O01"
    runs = {"quick": 400, "thorough": 16000}
    rule = ("Step-by-step optimizations: operator, 1-2 robots and an observer as processes"
            " interleaved at file operations, with random rollout order, delay and repetition,"
            " premature step attempts, one process for all steps or a new one per step; or"
            " sequentially. Every update is compared with independent formulas, and for new"
            " processes per step the whole history with that of an in-order execution.")

    def plan(self, rng, tier, i):
        plan = gen_steps(rng, tier)
        plan["layout"] = rng.choice(["concurrent", "concurrent", "per_step", "single"])
        plan["robots"] = rng.randint(1, 2)
        plan["observer"] = rng.random() < 0.5
        plan["repeat"] = rng.choice([0.0, 0.3])
        plan["early"] = rng.random() < 0.5
        plan["fail"] = rng.choice([0.0, 0.0, 0.3, 0.7])
        plan["ops"] = []
        if plan["n"] > 50:
            plan["layout"] = "per_step"
        if plan["layout"] != "concurrent" and rng.random() < 0.5:
            plan["tune"] = {str(u): rng.choice([0.3, 0.7, 1.5, 4.0])
                            for u in range(plan["n_updates"]) if rng.random() < 0.5}
        if plan["layout"] == "concurrent":
            plan["n"] = min(plan["n"], 3)
            if plan["updater"]["weighting_method"] != "PI-BB":
                plan["updater"]["eliteness"] = min(plan["updater"]["eliteness"], plan["n"])
            plan["n_updates"] = min(2, plan["n_updates"])
        return plan

    def execute(self, plan, ctx):
        ctx.nontrivial()
        st = Steps(plan, os.path.join(ctx.dir("main"), "session"))
        told = {}
        if plan["layout"] == "single":
            self.single(plan, ctx, st, told)
        elif plan["layout"] == "per_step":
            self.per_step(plan, ctx, st, told, ctx.kernel("main"), shuffle=True)
        else:
            self.concurrent(plan, ctx, st, told)
        hist = self.verify(plan, ctx, st, told)
        if plan["layout"] != "single" and plan["n"] < 50:
            ref = Steps(plan, os.path.join(ctx.dir("ref"), "session"))
            self.per_step(plan, ctx, ref, {}, ctx.kernel("ref"), shuffle=False)
            hist_ref = self.verify(plan, ctx, ref, None)
            for key, v in hist_ref.items():
                if not deep_equal(v, hist[key]):
                    raise Violation(
                        "schedule-dependent", f"{key}: {brief(hist[key])} but in-order {brief(v)}")

    def verify(self, plan, ctx, st, told):
        out = {}

        def body():
            s = st.open()
            for u in range(plan["n_updates"]):
                st.check_update(s, u, told if told else None, ctx)
            st.check_batch(s, plan["n_updates"], ctx, full=False)
            out.update(st.frozen(s, plan["n_updates"]))
            out[("samples", plan["n_updates"], None)] = s.ask("samples", plan["n_updates"])

        k = ctx.kernel("verify")
        ctx.ok(k.run(("verify", body, 3)))
        return out

    def single(self, plan, ctx, st, told):
        k = ctx.kernel("main")

        def body():
            rng = random.Random(plan["seeds"][0])
            session = st.prepare()
            for u in range(plan["n_updates"]):
                solver = st.solver()
                order = st.labels[:]
                rng.shuffle(order)
                if rng.random() < 0.5:
                    st.tune(session, u)
                else:
                    st.tune(st.open(), u)
                    session = st.open()
                for j, i in enumerate(order):
                    if rng.random() < plan["fail"]:
                        st.failed_rollout(session, u, i, solver)
                        ctx.count("failed_rollouts")
                        if j < len(order) - 1 and rng.random() < 0.5:
                            self.premature(st, session, u, ctx)
                    st.rollout(session, u, i, solver)
                    told[(u, i)] = session.ask("cost_vars", u, i)
                    if rng.random() < plan["repeat"]:
                        st.rollout(session, u, i, solver)
                if plan["early"] and u == 1:
                    session = st.open()
                st.step(session, u)

        ctx.ok(k.run(("single", body, plan["seeds"][1])))

    @staticmethod
    def premature(st, session, u, ctx):
        """Attempt the step although rollouts are missing: it has to be refused (O03)."""
        try:
            st.step(session, u)
        except Exception:  # noqa
            ctx.count("premature_steps_refused")

    def per_step(self, plan, ctx, st, told, k, shuffle):
        rng = random.Random(plan["seeds"][0])
        ctx.ok(k.run(("prepare", lambda: st.prepare() and None, plan["seeds"][1])))
        for u in range(plan["n_updates"]):
            order = st.labels[:]
            if shuffle:
                rng.shuffle(order)
                order += [i for i in order if rng.random() < plan["repeat"]]
                failed = [i for i in st.labels if rng.random() < plan["fail"]]
                order = [(i, True) for i in failed] + [(i, False) for i in order]
                if rng.random() < 0.5:
                    rng.shuffle(order)
                    last = {i: j for j, (i, _) in enumerate(order)}
                    order = [(i, f and last[i] > j) for j, (i, f) in enumerate(order)]
            else:
                order = [(i, False) for i in order]

            def robot(part):
                def body():
                    s = st.open()
                    solver = st.solver()
                    for i, fail in part:
                        if fail:
                            st.failed_rollout(s, u, i, solver)
                            ctx.count("failed_rollouts")
                            continue
                        st.rollout(s, u, i, solver)
                        told[(u, i)] = s.ask("cost_vars", u, i)
                return body

            cut = rng.randint(0, len(order)) if shuffle else len(order)
            if str(u) in plan.get("tune", {}):
                ctx.ok(k.run((f"tune{u}", lambda: st.tune(st.open(), u), 5)))
            for j, part in enumerate([order[:cut], order[cut:]]):
                if part:
                    ctx.ok(k.run((f"robot{u}.{j}", robot(part), 1000 + 7 * u + j)))
                if plan["early"] and j == 0 and {i for i, _ in part} < set(st.labels):
                    if shuffle:
                        ctx.ok(k.run((f"early{u}", lambda: self.premature(st, st.open(), u, ctx), 9)))

            def step():
                st.step(st.open(), u)

            ctx.ok(k.run((f"step{u}", step, plan["seeds"][2] + u)))

    def concurrent(self, plan, ctx, st, told):
        k = ctx.kernel("main")
        ctx.ok(k.run(("prepare", lambda: st.prepare() and None, plan["seeds"][1])))
        finished = {"u": 0, "announced": 0}
        n_upd = plan["n_updates"]

        def robot(r):
            rng = random.Random(plan["seeds"][3] + r)

            def body():
                solver = st.solver()
                done = set()
                for _ in range(400):
                    u_max = finished["announced"]
                    mine = [
                        (u, i) for u in range(min(u_max + (1 if plan["early"] else 0), n_upd - 1) + 1)
                        for j, i in enumerate(st.labels)
                        if j % plan["robots"] == r and (u, i) not in done
                    ]
                    if not mine and finished["announced"] >= n_upd - 1:
                        return
                    if mine:
                        u, i = rng.choice(mine)
                        s = st.open()
                        if s.exists("dmp", u, i) and s.exists("samples", u):
                            # 'early' robots may start before the batch is announced
                            st.rollout(s, u, i, solver)
                            told[(u, i)] = s.ask("cost_vars", u, i)
                            if rng.random() > plan["repeat"]:
                                done.add((u, i))
                    k.sleep(rng.uniform(0, 2))
                raise HarnessError("robot did not finish")
            return body

        def operator():
            rng = random.Random(plan["seeds"][4])
            for u in range(n_upd):
                for _ in range(600):
                    complete = all((u, i) in told for i in st.labels)
                    if complete or rng.random() < 0.1:
                        # a new process: same random numbers for every attempt at this step
                        np.random.seed((plan["seeds"][2] + u) % 2**32)
                        try:
                            st.step(st.open(), u)
                            if not complete:
                                complete = all((u, i) in told for i in st.labels)
                                ctx.count("steps_completed_just_in_time")
                            break
                        except Violation:
                            raise
                        except Exception as e:  # noqa
                            if complete:
                                raise
                            ctx.count("premature_steps_refused")
                    k.sleep(rng.uniform(0, 3))
                else:
                    raise HarnessError("operator gave up")
                finished["announced"] = u + 1
                finished["u"] = u + 1

        def observer():
            last = -1
            for _ in range(6):
                s = st.open()
                n = s.get_n_updates()
                if n < last or n > finished["u"] + 1:
                    raise Violation("n-updates", f"observer: {last} then {n} updates, finished {finished['u']}")
                last = n
                s.get_learning_curve()
                k.sleep(2.0)

        specs = [("operator", operator, plan["seeds"][2])]
        specs += [(f"robot{r}", robot(r), 50 + r) for r in range(plan["robots"])]
        if plan["observer"]:
            specs.append(("observer", observer, 60, {"readonly": True}))
        procs = k.run(*specs)
        for p in procs:
            if isinstance(p.exc, HarnessError):
                raise p.exc
        ctx.ok(procs)


class O02(StepCheck):
    id = "O02"
    level = "fault_enumeration"
    runs = {"quick": 400, "thorough": 12000}
    rule = ("A step (or the preparation) of a step-by-step optimization is hit by crashes, torn"
            " writes, disk-full and I/O errors at file operations chosen over the whole step, also"
            " repeatedly during its repetition in new processes; results are compared bit by bit"
            " with the undisturbed run, and the optimization continues.")

    def plan(self, rng, tier, i):
        plan = gen_steps(rng, tier, n_max=4, big=0.0)
        plan["victim"] = rng.randint(-1, plan["n_updates"] - 1)
        faults = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            kind = rng.choice(["crash_before", "crash_after", "torn", "torn", "enospc", "eio", "eio_read"])
            f = {"at": rng.random(), "kind": kind, "frac": rng.choice([0.0, 0.3, 0.9, 0.999])}
            if kind == "enospc":
                f["len"] = rng.choice([1, 4])
            if kind == "eio_read":
                f.update(kind="eio", on="read")
            faults.append(f)
        plan["faults"] = faults
        return plan

    def execute(self, plan, ctx):
        ref = Steps(plan, os.path.join(ctx.dir("ref"), "session"))
        counts = {}
        told = {}
        history = self.history(plan, ctx, ref, ctx.kernel("ref"), [], counts, told)
        faults = []
        victim = plan["victim"]
        for j, f in enumerate(plan["faults"]):
            f = dict(f)
            total = counts[victim][1 if f.get("on") == "read" else 0]
            f["k"] = int(f.pop("at") * total) if j == 0 else int(f.pop("at") * total)
            f["proc"] = f"step{victim}.{j}"
            faults.append(f)
        st = Steps(plan, os.path.join(ctx.dir("main"), "session"))
        k = ctx.kernel("main", faults=faults)
        told2 = {}
        hist2 = self.history(plan, ctx, st, k, faults, {}, told2)
        # the same results for the same rollout results
        for key, v in history.items():
            if key[1] is None or key[1] > victim:
                continue
            if key[1] == victim and key[0] == "__batch":
                continue
            if not deep_equal(v, hist2.get(key)):
                raise Violation(
                    "not-repeatable", f"{key}: {brief(hist2.get(key))}, without the fault {brief(v)}")

    def history(self, plan, ctx, st, k, faults, counts, told):
        victim = plan["victim"]

        def run_step(u):
            """Run preparation (u=-1) or step u, repeatedly if faults hit it."""
            before = self.look(st, ctx, k, u)
            for attempt in range(10):
                def body():
                    if u < 0:
                        st.prepare()
                    else:
                        st.step(st.open(), u)
                # without faults the same seed is used: the batch is the same for the same step
                seed = plan["seeds"][2] + u if attempt == 0 else plan["seeds"][3] + 10 * u + attempt
                (p,) = k.run((f"step{u}.{attempt}", body, seed))
                if attempt == 0:
                    counts[u] = (p.n_mut, p.n_read)
                hit = p.crashed or isinstance(p.exc, OSError)
                if hit:
                    ctx.count("crashed_steps" if p.crashed else "failed_steps")
                    if not (faults and u == victim):
                        ctx.ok([p])
                    if u >= 0:
                        after = self.look(st, ctx, k, u)
                        st.check_frozen(before, after, f"after crash in step {u}")
                    continue
                ctx.ok([p])
                break
            else:
                raise Violation("never-completes", f"step {u} fails although there are no more faults")
            if u >= 0:
                st.check_frozen(before, self.look(st, ctx, k, u), f"after step {u}")

        run_step(-1)
        for u in range(plan["n_updates"]):
            def robot():
                s = st.open()
                st.check_batch(s, u, ctx, full=(u == victim + 1))
                solver = st.solver()
                for i in st.labels:
                    st.rollout(s, u, i, solver)
                    told[(u, i)] = s.ask("cost_vars", u, i)
            ctx.ok(k.run((f"robot{u}", robot, 5)))
            run_step(u)
        out = {}

        def verify():
            s = st.open()
            n = s.get_n_updates()
            if n != plan["n_updates"]:
                raise Violation("n-updates", f"{n} updates counted, {plan['n_updates']} made")
            for u in range(plan["n_updates"]):
                st.check_update(s, u, told, ctx)
            st.check_batch(s, plan["n_updates"], ctx, full=(victim == plan["n_updates"] - 1))
            out.update(st.frozen(s, plan["n_updates"]))

        ctx.ok(k.run(("verify", verify, 6)))
        return out

    def look(self, st, ctx, k, n_done):
        if n_done <= 0:
            return {}
        out = {}

        def body():
            s = st.open()
            out.update(st.frozen(s, n_done))

        ctx.ok(k.run(("look", body, 6)))
        return out


class O03(StepCheck):
    id = "O03"
    runs = {"quick": 400, "thorough": 16000}
    rule = ("Step attempts with every kind of incomplete batch (random subset of rollouts missing,"
            " not-a-number rollouts of samples, unreadable result files), in the same or in new"
            " processes, then the late results arrive and the step is made; compared with the"
            " run in which nothing was late.")

    def plan(self, rng, tier, i):
        plan = gen_steps(rng, tier, n_max=4, big=0.01)
        plan["victim"] = rng.randint(0, plan["n_updates"] - 1)
        labels = list(range(plan["n"])) + ["eval"]
        waves = []
        missing = rng.sample(labels, rng.randint(1, min(len(labels), rng.choice([1, 1, 5]))))
        mode = rng.choice(["missing", "missing", "nan", "garbage"])
        if mode == "nan":
            if plan["updater"]["weighting_method"] != "PI-BB":
                plan["updater"].update(weighting_method="PI-BB", eliteness=10)
            missing = [m for m in missing if m != "eval"] or [0]
        plan["mode"] = mode
        plan["nan_kind"] = rng.choice(["all", "all", "one"])
        plan["missing"] = missing
        plan["same_process"] = mode == "missing" and rng.random() < 0.5
        plan["shuffle"] = rng.randrange(1000)
        plan["ops"] = []
        return plan

    shrink_lists = [("missing",)]

    def execute(self, plan, ctx):
        ctx.nontrivial()
        if not plan["missing"]:
            return
        ref = Steps(plan, os.path.join(ctx.dir("ref"), "session"))
        a = self.history(plan, ctx, ref, ctx.kernel("ref"), False)
        st = Steps(plan, os.path.join(ctx.dir("main"), "session"))
        b = self.history(plan, ctx, st, ctx.kernel("main"), True)
        for key, v in a.items():
            if not deep_equal(v, b.get(key)):
                raise Violation(
                    "late-results-differ", f"{key}: {brief(b.get(key))}, nothing late: {brief(v)}")

    def history(self, plan, ctx, st, k, disturb):
        ctx.ok(k.run(("prepare", lambda: st.prepare() and None, plan["seeds"][1])))

        def refused(session, u, what):
            n0 = session.get_n_updates()
            try:
                st.step(session, u)
            except Exception as e:  # noqa
                ctx.count("refused_steps")
                ctx.count(f"refused:{plan['mode']}")
            else:
                raise Violation("not-refused", f"step {u} succeeded although {what}")
            fresh = st.open()
            for s, who in ((session, "same"), (fresh, "new")):
                for nm in ("weights", "distribution_new"):
                    if s.exists(nm, u):
                        raise Violation("refused-but-stored", f"{nm} of update {u} exists ({who} session) although {what}")
                for nm in ("distribution", "samples"):
                    if s.exists(nm, u + 1):
                        raise Violation("refused-but-batch", f"{nm} of update {u + 1} exists although {what}")
                for i in st.labels:
                    if s.exists("dmp", u + 1, i):
                        raise Violation("refused-but-batch", f"dmp {i} of update {u + 1} exists although {what}")
                n = s.get_n_updates()
                if n != n0 or n != u:
                    raise Violation("n-updates", f"{n} updates counted after step {u} was refused ({what})")
                lc, _ = s.get_learning_curve()
                if len(lc) != u:
                    raise Violation("curve", f"{len(lc)} rows after {u} updates ({what})")

        for u in range(plan["n_updates"]):
            rng = random.Random(plan["shuffle"] + u)
            bad = plan["missing"] if (disturb and u == plan["victim"]) else []
            good = [i for i in st.labels if i not in bad]
            rng.shuffle(good)

            def robot(which, how=None):
                def body():
                    s = st.open()
                    solver = st.solver()
                    for i in which:
                        if how is None:
                            st.rollout(s, u, i, solver)
                            continue
                        cv = np.array(solver.perform_rollout_dmp(s.ask("dmp", u, i)), dtype=float)
                        if how == "nan":
                            if plan["nan_kind"] == "all":
                                cv[:] = np.nan
                            else:
                                cv[len(cv) // 2, :] = np.nan
                            s.tell(cv, "cost_vars", u, i)
                        elif how == "garbage":
                            fn = s.tell(cv, "cost_vars", u, i)
                            with open(str(fn), "w") as f:
                                f.write("0.0 1.0 2.0\n0.5 oops")
                return body

            def same_process_step():
                session = st.open()
                late = list(bad)
                rng.shuffle(late)
                cuts = [late[:1], late[1:]] if len(late) > 1 else [late]
                for part in cuts:
                    missing = [i for i in bad if not session.exists("cost_vars", u, i)]
                    refused(session, u, f"rollouts {missing} are missing")
                    robot(part)()
                np.random.seed((plan["seeds"][2] + u) % 2**32)
                st.step(session, u)

            if good:
                ctx.ok(k.run((f"robot{u}", robot(good), 5)))
            if bad and plan["same_process"]:
                ctx.ok(k.run((f"step{u}", same_process_step, plan["seeds"][2] + u)))
            else:
                if bad:
                    if plan["mode"] != "missing":
                        ctx.ok(k.run((f"robotbad{u}", robot(bad, plan["mode"]), 5)))
                    ctx.ok(k.run((f"attempt{u}", lambda: refused(
                        st.open(), u, f"rollouts {bad} are {plan['mode']}"), 6)))
                    late = list(bad)
                    rng.shuffle(late)
                    if len(late) > 1 and plan["mode"] == "missing":
                        ctx.ok(k.run((f"late{u}", robot(late[:1]), 5)))
                        ctx.ok(k.run((f"attempt{u}b", lambda: refused(
                            st.open(), u, f"rollouts {late[1:]} are missing"), 6)))
                        late = late[1:]
                    ctx.ok(k.run((f"late{u}b", robot(late), 5)))
                ctx.ok(k.run((f"step{u}", lambda: st.step(st.open(), u), plan["seeds"][2] + u)))
        out = {}

        def verify():
            s = st.open()
            for u in range(plan["n_updates"]):
                st.check_update(s, u, None, ctx)
            out.update(st.frozen(s, plan["n_updates"]))
            out[("samples", plan["n_updates"], None)] = s.ask("samples", plan["n_updates"])

        ctx.ok(k.run(("verify", verify, 6)))
        return out


class O04(StepCheck):
    id = "O04"
    runs = {"quick": 400, "thorough": 16000}
    rule = ("Every batch of seeded step-by-step histories (all DMP types, selections, batch sizes 1"
            " to 110, crashes and restarts of preparation and steps): announced files, DMP"
            " parameters against sample rows, C++ files, equality with the initial DMP, samples"
            " against the stored distribution, stored initial objects unchanged; and mean and"
            " covariance of 20000 samples of a distribution.")

    def plan(self, rng, tier, i):
        if i % 8 == 7:
            return self.plan_draw(rng)
        plan = gen_steps(rng, tier, n_max=6, big=0.08, n_updates=3)
        plan["dmp"]["type"] = DMP_TYPES[i % len(DMP_TYPES)]
        plan["single"] = rng.random() < 0.4
        plan["crash"] = rng.random() < 0.4 and plan["n"] < 50
        plan["faults"] = []
        plan["executed"] = rng.randrange(2**31) if rng.random() < 0.3 else None
        if plan["crash"]:
            plan["single"] = False
            plan["victim"] = rng.randint(-1, plan["n_updates"] - 1)
            plan["faults"] = [{"at": rng.random(), "kind": rng.choice(["crash_before", "crash_after", "torn", "eio", "enospc"]),
                               "frac": rng.choice([0.1, 0.9])}]
        return plan

    @staticmethod
    def plan_draw(rng):
        return {"draw": True, "dim": rng.choice([1, 2, 2, 3, 5, 8]), "seed": rng.randrange(2**31),
                "corr": rng.choice([0.0, 0.1, 0.2, 0.5, 0.9, 0.99]), "spread": rng.choice([0.0, 0.5, 2.0]),
                "scale": 10.0 ** rng.randint(-6, 6), "bounds": rng.choice([None, None, "far", "inf"]),
                "stored": rng.random() < 0.5, "parts": rng.choice([1, 1, 4, 400])}

    def execute_draw(self, plan, ctx):
        """Many samples: their mean and covariance have to be those of the distribution."""
        r = rs(plan["seed"])
        d = plan["dim"]
        k = ctx.kernel()
        b = r.standard_normal((d, d + 1))
        b = b @ b.T
        sd = np.sqrt(np.diag(b))
        corr = plan["corr"] * b / np.outer(sd, sd)
        np.fill_diagonal(corr, 1.0)
        sd = plan["scale"] * 10.0 ** r.uniform(-plan["spread"], plan["spread"], d)
        covar = corr * np.outer(sd, sd)
        covar = 0.5 * (covar + covar.T)
        mean = r.standard_normal(d) * plan["scale"] * r.choice([0.0, 1.0, 100.0])

        def body():
            if plan["bounds"]:
                w = 100 * sd if plan["bounds"] == "far" else np.full(d, np.inf)
                dist = lib.DistributionGaussianBounded(mean, covar, mean - w, mean + w)
            else:
                dist = lib.DistributionGaussian(mean, covar)
            if plan["stored"]:
                s = lib.LearningSession(5, ctx.dir("session"))
                s.tell(dist, "distribution", 0)
                dist = lib.LearningSession.from_dir(ctx.dir("session")).ask("distribution", 0)
            n = 20000 // plan["parts"]  # per call
            x = np.vstack([np.asarray(dist.generate_samples(n)).reshape(n, d) for _ in range(plan["parts"])])
            val, vec = np.linalg.eigh(corr)
            z = ((x - mean) / sd @ vec) / np.sqrt(val)
            ok = val > 1e-6
            z = z[:, ok]
            lim = 7 / np.sqrt(len(z))
            ctx.check(np.all(np.abs(z.mean(axis=0)) < lim), "draw-mean",
                      f"mean of {len(z)} samples deviates by {z.mean(axis=0)} standard deviations")
            c = z.T @ z / len(z) - np.eye(z.shape[1])
            lims = np.where(np.eye(z.shape[1]) > 0, np.sqrt(2) * lim, lim)
            ctx.check(np.all(np.abs(c) < lims), "draw-covariance",
                      f"covariance of {len(z)} whitened samples deviates from 1 by {np.max(np.abs(c))}")
            ctx.check(len(np.unique(z[:, -1])) > 0.99 * len(z), "draw-repeated", "samples are repeated")
            ctx.count("samples_drawn", len(z))
            ctx.state(mean, covar)
            ctx.record(x[:3])

        ctx.ok(k.run(("draw", body, plan["seed"])))

    def execute(self, plan, ctx):
        ctx.nontrivial()
        if plan.get("draw"):
            return self.execute_draw(plan, ctx)
        st = Steps(plan, os.path.join(ctx.dir("main"), "session"))
        faults = []
        if plan["faults"]:
            counts = {}
            dry = Steps(plan, os.path.join(ctx.dir("dry"), "session"))
            self.run_all(plan, ctx, dry, ctx.kernel("dry"), counts)
            for f in plan["faults"]:
                f = dict(f)
                f["k"] = int(f.pop("at") * counts[plan["victim"]])
                f["proc"] = f"step{plan['victim']}.0"
                faults.append(f)
        self.run_all(plan, ctx, st, ctx.kernel("main", faults=faults), {})

    def run_all(self, plan, ctx, st, k, counts):
        if plan["single"]:
            def everything():
                fixed = {}
                zs = []
                session = self.announced(st, st.prepare, 0, ctx)
                self.after(plan, st, 0, fixed, zs, ctx)
                for u in range(plan["n_updates"]):
                    solver = st.solver()
                    for i in st.labels:
                        st.rollout(session, u, i, solver)
                    self.executed(plan, session, st, u)
                    self.announced(st, lambda: st.step(session, u), u + 1, ctx)
                    self.after(plan, st, u + 1, fixed, zs, ctx)
            ctx.ok(k.run(("single", everything, plan["seeds"][1])))
            return
        fixed, zs = {}, []
        for u in range(-1, plan["n_updates"]):
            if u >= 0:
                def robot():
                    s = st.open()
                    solver = st.solver()
                    for i in st.labels:
                        st.rollout(s, u, i, solver)
                    self.executed(plan, s, st, u)
                ctx.ok(k.run((f"robot{u}", robot, 5)))
            for attempt in range(3):
                def body():
                    fn = st.prepare if u < 0 else (lambda: st.step(st.open(), u))
                    self.announced(st, fn, u + 1, ctx)
                (p,) = k.run((f"step{u}.{attempt}", body, plan["seeds"][2] + 17 * u + 5 * attempt))
                counts.setdefault(u, p.n_mut)
                if p.crashed or isinstance(p.exc, OSError):
                    ctx.count("crashed_steps")
                    continue
                ctx.ok([p])
                break
            else:
                raise Violation("never-completes", f"step {u}")
            ctx.ok(k.run((f"look{u}", lambda: self.after(plan, st, u + 1, fixed, zs, ctx), 4)))

    @staticmethod
    def executed(plan, session, st, u):
        """The robot stores the DMPs that it really executed: slower, and to another goal."""
        if plan["executed"] is None:
            return
        r = rs(plan["executed"] + u)
        for i in st.labels:
            if i == "eval" or r.rand() < 0.5:
                dmp = session.ask("dmp", u, i)
                dmp.tau = dmp.tau * r.uniform(0.8, 1.5)
                dmp.y_attr = dmp.y_attr + r.uniform(0.1, 1, dmp.dim_dmp())
                session.tell(dmp, "dmp", u, i)

    def announced(self, st, fn, u, ctx):
        """Run a step; the files it announces are the batch."""
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            res = fn()
        paths = [w for line in out.getvalue().splitlines() for w in [line.strip()] if w.startswith(st.d)]
        if len(set(paths)) != len(st.labels):
            raise Violation("announced", f"{len(set(paths))} files announced for {st.n} samples + evaluation")
        s = st.open()
        want = set()
        got = set()
        for i in st.labels:
            if st.plan["traj"]:
                want.add(np.asarray(s.ask("traj", u, i)).tobytes())
            else:
                want.add(np.asarray(s.ask("dmp", u, i).get_param_vector()).tobytes())
        for p in paths:
            if not os.path.isfile(p):
                raise Violation("announced", f"announced file {p} does not exist")
            if st.plan["traj"]:
                got.add(np.loadtxt(p, ndmin=2).tobytes())
            else:
                got.add(np.asarray(lib.jc.loadjson(p).get_param_vector()).tobytes())
        if want != got:
            raise Violation("announced", "the announced files are not those of the batch")
        return res

    def after(self, plan, st, u, fixed, zs, ctx):
        s = st.open()
        now = {nm: s.ask(nm) for nm in ["dmp_initial", "task", "updater", "distribution_initial"]
               + (["task_solver"] if plan["with_solver"] else [])}
        if not fixed:
            fixed.update(now)
            init = st.dmp()
            st.same_behaviour(now["dmp_initial"], init, "dmp_initial")
            d0 = st.dist()
            if not deep_equal(now["distribution_initial"], d0):
                raise Violation("initial-changed", "distribution_initial is not the one given")
            if not deep_equal(s.ask("distribution", 0), d0):
                raise Violation("initial-changed", "distribution of update 0 is not the initial one")
            if not deep_equal(now["updater"], make_updater(plan["updater"])):
                raise Violation("initial-changed", "updater is not the one given")
        for nm, v in fixed.items():
            if not deep_equal(v, now[nm]):
                raise Violation("initial-changed", f"{nm} changed after update {u}")
        dist, samples = st.check_batch(s, u, ctx)
        if st.plan["traj"]:
            for i in st.labels:
                m = np.asarray(s.ask("traj", u, i))
                dmp = s.ask("dmp", u, i)
                ts = dmp.ts_train
                xs, xds, _, _ = dmp.analytical_solution(ts)
                exp = dmp.states_as_trajectory(ts, xs, xds).as_matrix()
                if not refs.close(m, exp, 1e-9):
                    raise Violation("batch-traj", f"trajectory of sample {i} is not that of its DMP")
        sd = np.sqrt(np.diag(dist.covar))
        z = (samples - dist.mean) / np.where(sd > 0, sd, 1)
        for v, other in enumerate(zs):
            if not getattr(dist, "lower_bound", None) is not None and np.max(sd) > 1e-9:
                if z.shape == other.shape and np.allclose(z, other, 1e-6, 1e-9) and np.any(np.abs(z) > 1e-9):
                    raise Violation("same-random-numbers", f"batches {v} and {u} use the same random numbers")
        zs.append(z)
        ctx.state(u, samples)
        ctx.record(samples)
