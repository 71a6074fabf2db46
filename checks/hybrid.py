"""O07: step-by-step optimization with rollouts by the C++ implementation."""

import os
import random

import numpy as np

from checks.cppruntime import C01
from checks.cpptraj import BENIGN, PRECISION, fault_plan
from checks.stepwise import StepCheck, Steps, gen_steps
from simkit import cppsim, simfs
from simkit.kernel import HarnessError, Violation
from simkit.repo import lib

TYPES = ["IJSPEERT_2002_MOVEMENT", "KULVICIUS_2012_JOINING", "COUNTDOWN_2013"]
DURATION = 1.3


class O07(StepCheck):
    id = "O07"
    runs = {"quick": 400, "thorough": 16000}
    shrink_lists = [("events",), ("attempts",), ("faults",)]
    real = ["dmpbbo (operator) and the C++ implementation in src/ (robot) from /repo's working tree",
            "numpy", "jsonpickle", "Eigen", "Boost.Filesystem", "kernel file system"]
    stub = ["clock and pid", "process scheduler (seeded baton passing)", "system calls that open,"
            " write and close files in C++ (faults on demand)", "robot hardware",
            "user's Task (deterministic cost function)", "the C++ allocator (garbage-filled, guarded,"
            " failing during control steps)"]
    rule = ("Step-by-step optimizations in a directory: the operator uses Python, one or two robots"
            " use the C++ implementation: they load the DMPs (or read the trajectories) of a batch,"
            " execute them and save the cost variables; in random order, repeatedly, late, crashing"
            " while saving, with failing system calls and allocations; the operator attempts steps"
            " too early, crashes and repeats them. Rollouts have to be those of the samples, updates"
            " those of independent formulas, and steps with incomplete rollouts refused.")
    _sim = None

    def setup(self, base_tmp):
        self.path = cppsim.build(os.path.join(base_tmp, "cpp"))

    @property
    def sim(self):
        if O07._sim is None:
            O07._sim = cppsim.Sim(self.path)
        return O07._sim

    call = C01.call

    def plan(self, rng, tier, i):
        plan = gen_steps(rng, tier, n_max=4, big=0.0)
        plan["dmp"]["type"] = TYPES[i % 3]
        plan["rollouts"] = rng.choice(["dmp", "dmp", "dmp", "traj"])
        if plan["rollouts"] == "traj":
            plan["traj"] = True
        plan["n_steps"] = rng.choice([10, 20, 40])
        plan["concurrent"] = rng.random() < 0.4
        plan["robots"] = rng.randint(1, 2)
        plan["events"], plan["attempts"], plan["faults"] = [], [], []
        p = rng.choice([0.0, 0.2, 0.6])
        for u in range(plan["n_updates"]):
            for j in range(plan["n"] + 1):
                if rng.random() < p:
                    plan["events"].append(self.gen_event(rng, u, j))
            if rng.random() < 0.4:
                plan["attempts"].append([u, rng.randint(0, plan["n"])])
        if not plan["concurrent"] and rng.random() < 0.4:
            plan["faults"] = [{
                "u": rng.randint(-1, plan["n_updates"] - 1), "k": rng.randint(0, 80),
                "kind": rng.choice(["crash_before", "crash_after", "torn", "eio", "enospc"]),
                "frac": rng.random()}]
        plan["ops"] = []
        return plan

    @staticmethod
    def gen_event(rng, u, j):
        kind = rng.choice(["torn", "torn", "io", "io", "again", "alloc", "before"])
        e = {"u": u, "j": j, "kind": kind}
        if kind == "torn":
            e["frac"] = rng.random()
        elif kind == "io":
            e["fault"] = fault_plan(rng, True)
        elif kind == "alloc":
            e["n"] = rng.choice([1, 2, 5])
        return e

    # -- the robot --------------------------------------------------------------------------
    def execute_movement(self, ctx, plan, st, u, i, event):
        """What the robot does with a file of the batch; returns the cost variables."""
        what = f"rollout {u} {i}"
        if plan["rollouts"] == "traj":
            base = lib.LearningSession.get_base_name("traj", u, i)
            t = self.call(ctx, what, lambda: self.sim.read_trajectory(
                os.path.join(st.d, f"{base}.txt"), 0))
            m = self.call(ctx, what, t.get)[-1] if t.sizes()[0] else None
            self.call(ctx, what, t.free)
            ctx.check(m is not None, "unreadable", f"{what}: C++ cannot read {base}.txt")
            return m
        base = lib.LearningSession.get_base_name("dmp", u, i)
        with open(os.path.join(st.d, f"{base}_for_cpp.json")) as f:
            text = f.read()
        o = self.call(ctx, what + ": loading", lambda: self.sim.load(text, 0))
        tau = plan["dmp"]["tau"]
        dt, rows = self.dt(plan), []
        x, _ = self.call(ctx, what, o.start)
        for s in range(int(DURATION * tau / dt)):
            rows.append(np.concatenate(([s * dt], *self.call(ctx, what, o.pos_vel_acc))))
            armed = event is not None and event["kind"] == "alloc"
            if armed:
                o.fail_at = event["n"]
                ctx.count("fault:allocation_failure_armed")
            x, _ = self.call(ctx, what + ": control step", lambda: o.step(dt, x), armed=armed)
            ctx.check(o.allocated == 0, "allocates", f"{what}: allocates in a control step")
        self.call(ctx, what, o.unload)
        ctx.sim_time += DURATION * tau
        return np.array(rows)

    @staticmethod
    def dt(plan):
        return plan["dmp"]["tau"] / (plan["n_steps"] + 0.37)

    def expected(self, plan, dmp, params):
        """The same in Python, from the sample."""
        dmp.set_param_vector(np.array(params, float))
        if plan["rollouts"] == "traj":
            ts = dmp.ts_train
            xs, xds, _, _ = dmp.analytical_solution(ts)
            return dmp.states_as_trajectory(ts, xs, xds).as_matrix()
        dt, rows = self.dt(plan), []
        x, xd = dmp.integrate_start()
        for s in range(int(DURATION * plan["dmp"]["tau"] / dt)):
            rows.append(np.concatenate(([s * dt], *dmp.states_as_pos_vel_acc(x, xd))))
            x, xd = dmp.integrate_step(dt, x)
        return np.array(rows)

    def save(self, ctx, plan, st, u, i, m, event, k):
        """Returns whether the robot is done with it; otherwise, it has crashed."""
        path = os.path.join(st.d, f"{lib.LearningSession.get_base_name('cost_vars', u, i)}.txt")
        fault = event["fault"] if event is not None and event["kind"] == "io" else None
        if event is not None and event["kind"] == "torn":
            self.torn(ctx, m, path, event["frac"])
            return False
        for attempt in range(2):
            ok, hit = self.sim.with_fault(fault, lambda: self.sim.save_matrix(m, None, path, True))
            if hit:
                ctx.count("fault:" + fault[0])
            if ok:
                ctx.check(not hit or fault[0] in BENIGN, "unreported",
                          f"rollout {u} {i}: C++ reports success although saving failed")
                break
            ctx.check(hit, "save-failed", f"rollout {u} {i}: C++ cannot save the cost variables")
            fault = None  # The robot repeats it
        else:
            raise HarnessError("robot cannot save")
        self.saved.add((u, i))
        return True

    def torn(self, ctx, m, path, frac):
        """The robot crashed while saving: nothing, or something up to the middle of a row."""
        whole = os.path.join(ctx.dir("robot"), "whole.txt")
        ok = self.sim.save_matrix(m, None, whole, True)
        ctx.check(ok, "save-failed", "C++ cannot save the cost variables")
        with open(whole, "rb") as f:
            lines = f.read().decode().splitlines(keepends=True)
        n = max(1, min(len(lines) - 1, int(frac * len(lines))))
        words = lines[n].split()
        keep = "".join(lines[:n]) + " ".join(words[: max(1, int(frac * len(words)))])
        if frac < 0.1:
            keep = ""
        ctx.count("fault:torn_file")
        # At once (not as operations of a simulated process)
        fd = simfs.real["os.open"](path, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
        simfs.real["os.write"](fd, keep.encode())
        simfs.real["os.close"](fd)

    def robot(self, ctx, plan, st, k, u, labels, crashed):
        """Execute these samples of an update; crashes at most once per sample."""
        def body():
            for i in labels:
                event = self.event(plan, st, u, i)
                if (u, i) in crashed:
                    event = None
                if event is not None and event["kind"] == "before":
                    crashed.add((u, i))
                    ctx.count("fault:robot_crash")
                    return False
                m = self.execute_movement(ctx, plan, st, u, i, event)
                if not self.save(ctx, plan, st, u, i, m, event, k):
                    crashed.add((u, i))
                    ctx.count("fault:robot_crash")
                    return False
                if event is not None and event["kind"] == "again":
                    ctx.count("repeated_rollouts")
                    self.save(ctx, plan, st, u, i, self.execute_movement(ctx, plan, st, u, i, None),
                              None, k)
            return True
        return body

    @staticmethod
    def event(plan, st, u, i):
        j = st.labels.index(i)
        return next((e for e in plan["events"] if (e["u"], e["j"]) == (u, j)), None)

    # -- the operator -----------------------------------------------------------------------
    def attempt(self, ctx, st, u, what):
        session = st.open()
        try:
            st.step(session, u)
        except Exception:  # noqa
            ctx.count("refused_steps")
        else:
            raise Violation("not-refused", f"step {u} succeeded although {what}")
        fresh = st.open()
        for nm, v in (("weights", u), ("distribution_new", u), ("distribution", u + 1),
                      ("samples", u + 1)):
            ctx.check(not fresh.exists(nm, v), "refused-but-stored",
                      f"{nm} of update {v} exists although {what}")

    def simulate(self, plan, ctx):
        st = Steps(plan, os.path.join(ctx.dir("main"), "session"))
        self.saved = set()
        k = ctx.kernel("main", faults=[
            {**{n: f[n] for n in ("k", "kind", "frac")}, "proc": f"step{f['u']}.0"}
            for f in plan["faults"]])
        if plan["concurrent"]:
            self.concurrent(plan, ctx, st, k)
        else:
            self.sequential(plan, ctx, st, k)
        ctx.ok(k.run(("verify", lambda: self.verify(plan, ctx, st), 6)))
        ctx.check(self.sim.heap_ok(), "heap-corrupt",
                  "memory outside of a block was written, or memory was released twice")

    def execute(self, plan, ctx):
        ctx.nontrivial()
        self.simulate(plan, ctx)

    def sequential(self, plan, ctx, st, k):
        crashed = set()
        rng = random.Random(plan["seeds"][3])
        for u in range(-1, plan["n_updates"]):
            if u >= 0:
                order = list(st.labels)
                rng.shuffle(order)
                cut = next((c for v, c in plan["attempts"] if v == u), None)
                if cut is not None and cut < len(order):
                    self.robots(ctx, plan, st, k, u, order[:cut], crashed, order)
                    ctx.ok(k.run((f"early{u}", lambda: self.attempt(
                        ctx, st, u, f"rollouts {order[cut:]} are missing"), 6)))
                    order = order[cut:]
                self.robots(ctx, plan, st, k, u, order, crashed, order)
            for n in range(3):
                fn = st.prepare if u < 0 else (lambda: st.step(st.open(), u))
                (p,) = k.run((f"step{u}.{n}", lambda: fn() and None,
                              plan["seeds"][2] + 17 * u + 5 * n))
                if p.crashed or isinstance(p.exc, OSError):
                    ctx.count("crashed_steps")
                    continue
                ctx.ok([p])
                break
            else:
                raise Violation("never-completes", f"step {u}")

    def robots(self, ctx, plan, st, k, u, labels, crashed, order):
        """Robots execute these samples; those that crash are started again."""
        left = list(labels)
        for n in range(2 * len(labels) + 2):
            if not left:
                return
            before = set(crashed)
            (p,) = ctx.ok(k.run((f"robot{u}.{n}", self.robot(ctx, plan, st, k, u, left, crashed), 5)))
            new = crashed - before
            if not new:
                return
            ((_, i),) = new
            kind = self.event(plan, st, u, i)["kind"]
            ctx.ok(k.run((f"attempt{u}.{n}", lambda: self.attempt(
                ctx, st, u, f"rollout {i} is {'torn' if kind == 'torn' else 'missing'}"), 6)))
            left = left[left.index(i):]
        raise HarnessError("robots did not finish")

    def concurrent(self, plan, ctx, st, k):
        """Robots look for files of the next batch while the operator is still making it."""
        ctx.ok(k.run(("prepare", lambda: st.prepare() and None, plan["seeds"][1])))
        n_upd = plan["n_updates"]
        done, finished, crashed = set(), {"u": 0}, set()

        def robot(r):
            rng = random.Random(plan["seeds"][3] + r)

            def available(u, i):
                if plan["rollouts"] == "traj":
                    return os.path.isfile(os.path.join(
                        st.d, f"{lib.LearningSession.get_base_name('traj', u, i)}.txt"))
                return os.path.isfile(os.path.join(
                    st.d, f"{lib.LearningSession.get_base_name('dmp', u, i)}_for_cpp.json"))

            def body():
                for _ in range(600):
                    mine = [(u, i) for u in range(n_upd) for j, i in enumerate(st.labels)
                            if j % plan["robots"] == r and (u, i) not in done]
                    if not mine:
                        return
                    ready = [key for key in mine if available(*key)]
                    if ready:
                        u, i = rng.choice(ready)
                        self_done = self.robot(ctx, plan, st, k, u, [i], crashed)()
                        if self_done:
                            done.add((u, i))
                    k.sleep(rng.uniform(0, 2))
                missing = [key for key in mine if not available(*key)]
                if missing and finished["u"] >= missing[0][0]:
                    raise Violation("missing-file", f"files for rollouts {missing} are missing")
                raise HarnessError("robot did not finish")
            return body

        def operator():
            rng = random.Random(plan["seeds"][4])
            for u in range(n_upd):
                for _ in range(800):
                    complete = all((u, i) in done for i in st.labels)
                    if complete or rng.random() < 0.1:
                        np.random.seed((plan["seeds"][2] + u) % 2**32)
                        try:
                            st.step(st.open(), u)
                            break
                        except Violation:
                            raise
                        except Exception:  # noqa
                            if complete:
                                raise
                            ctx.count("premature_steps_refused")
                    k.sleep(rng.uniform(0, 3))
                else:
                    raise HarnessError("operator gave up")
                if not complete:
                    ctx.check(all((u, i) in self.saved for i in st.labels), "not-refused",
                              f"step {u} succeeded although rollouts are not complete")
                finished["u"] = u + 1

        procs = k.run(("operator", operator, plan["seeds"][2]),
                      *[(f"robot{r}", robot(r), 50 + r) for r in range(plan["robots"])])
        if not any(isinstance(p.exc, Violation) for p in procs):
            for p in procs:
                if isinstance(p.exc, HarnessError):
                    raise p.exc
        ctx.ok(procs)

    # -- afterwards -------------------------------------------------------------------------
    def verify(self, plan, ctx, st):
        s = st.open()
        dmp = st.dmp()
        for u in range(plan["n_updates"]):
            dist, samples = st.check_batch(s, u, ctx, full=False)
            for i in st.labels:
                exp = self.expected(plan, dmp, dist.mean if i == "eval" else samples[i])
                got = np.asarray(s.ask("cost_vars", u, i), float)
                tol = PRECISION + 1e-6 * (1 + np.max(np.abs(exp), axis=0))
                ctx.check(got.shape == exp.shape, "rollout-shape",
                          f"rollout {u} {i}: {got.shape} instead of {exp.shape}")
                ctx.check(bool(np.all(np.abs(got - exp) <= tol)), "rollout-differs",
                          lambda: f"rollout {u} {i}: differs by {np.max(np.abs(got - exp), axis=0)}"
                          f" from the movement of the sample")
                ctx.record(np.round(got[-1] * 1e3))
            st.check_update(s, u, None, ctx)
        st.check_batch(s, plan["n_updates"], ctx, full=False)

    def simplify(self, plan):
        for u in range(1, plan["n_updates"]):
            yield {**plan, "n_updates": u, "events": [e for e in plan["events"] if e["u"] < u],
                   "attempts": [a for a in plan["attempts"] if a[0] < u],
                   "faults": [f for f in plan["faults"] if f["u"] < u]}
        for n in range(1, plan["n"]):
            if plan["updater"]["eliteness"] <= n or plan["updater"]["weighting_method"] == "PI-BB":
                yield {**plan, "n": n, "events": [e for e in plan["events"] if e["j"] <= n]}
        if plan["robots"] > 1:
            yield {**plan, "robots": 1}
        if plan["n_steps"] > 10:
            yield {**plan, "n_steps": 10}
        if plan["with_solver"]:
            yield {**plan, "with_solver": False}
