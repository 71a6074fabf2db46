"""S01-S04: learning sessions as a database, under restarts, crashes, I/O errors and observers."""

import json
import os
import shutil

import numpy as np

from simkit import simfs
from simkit.kernel import HarnessError, Violation
from simkit.repo import lib
from simkit.runner import Check
from simkit.scenario import (
    as_stored, brief, deep_equal, ext_of, gen_distribution, gen_dmp, gen_updater, gen_value,
    make_distribution, make_dmp, make_updater, make_value, mutate, same_num, stored_equal,
)

NAMES = ["alpha", "beta", "costs", "cost", "samples", "a_b", "v1.2", "distribution", "x_eval", "weights",
         "eval_grip", "update_x", "7_x", "b.json", "1_cost", "0_alpha", "1_alpha"]
UPDATES = [None, None, 0, 1, 2, 9, 10, 11, 99, 100, 1000, 99999, 100000, 123456]
SAMPLES = [None, None, None, 0, 1, 2, 9, 10, 99, 100, 101, 999, 1000, 12345, "eval", "eval"]


def gen_key(rng, names=NAMES):
    name = rng.choice(names)
    u = rng.choice(UPDATES)
    s = rng.choice(SAMPLES)
    # which integer type is used for the numbers
    return [name, u, s, rng.choice(["int", "int", "int64", "int32"])]


def norm(key):
    return (key[0], key[1], key[2])


def args(key, as_np=True):
    kind = key[3] if len(key) > 3 else "int"
    conv = {"int": int, "int64": np.int64, "int32": np.int32}[kind]
    out = [key[0]]
    for x in key[1:3]:
        out.append(conv(x) if isinstance(x, int) else x)
    return out


def neighbours(key):
    name, u, s = norm(key)
    yield (name, u, s)
    for du in (-1, 1):
        if isinstance(u, int) and u + du >= 0:
            yield (name, u + du, s)
    for ds in (-1, 1):
        if isinstance(s, int) and s + ds >= 0:
            yield (name, u, s + ds)
    if s == "eval":
        yield (name, u, 0)
    else:
        yield (name, u, "eval")
    if u is not None:
        yield (name, None, s)
    else:
        yield (name, 0, s)
    if s is not None:
        yield (name, u, None)
    else:
        yield (name, u, 0)
    if isinstance(u, int) and isinstance(s, int):
        yield (name, s, u)
        yield (name, u * 10 + s % 10, s // 10)
    yield (name + "s", u, s)
    yield (name[:-1], u, s)


def make_session(cls, n, directory, kwargs=None):
    kwargs = {k: make_value(v) for k, v in (kwargs or {}).items()}
    C = lib.LearningSessionTask if cls == "task" else lib.LearningSession
    return C(n, directory, **kwargs)


def open_session(cls, directory):
    C = lib.LearningSessionTask if cls == "task" else lib.LearningSession
    return C.from_dir(directory)


def verify_all(session, model, where, extra_keys=()):
    """Every key returns what the model says; keys never stored do not exist."""
    for key, spec in model.items():
        if not session.exists(*key):
            raise Violation("lost", f"{where}: exists{key} is False after it was stored")
        got = session.ask(*key)
        exp = make_value(spec)
        if not stored_equal(got, exp):
            raise Violation(
                "wrong-value", f"{where}: ask{key} -> {brief(got)}, stored was {brief(exp)}"
            )
    for key in extra_keys:
        if key not in model:
            check_absent(session, key, where)


def check_absent(session, key, where):
    if session.exists(*key):
        raise Violation("phantom", f"{where}: exists{key} is True but it was never stored")
    try:
        got = session.ask(*key)
    except Exception:
        return
    raise Violation("phantom", f"{where}: ask{key} -> {brief(got)} but it was never stored")


def n_spec(n):
    return {"t": "const_int", "n": n}


def _mk(spec):
    return spec["n"] if spec["t"] == "const_int" else make_value(spec)


class SessionCheck(Check):
    stub = ["clock and pid", "process scheduler (seeded baton passing)",
            "file system faults (errors, torn and short writes injected at the Python/OS boundary)"]
    assumptions = [
        "process-crash model: completed system calls survive, data in user-space buffers is lost",
        "scheduling points are Python-level file operations below the session's directory",
    ]
    state_measure = "hash of (key, value) maps of the reference model at restarts and checks"


class S01(SessionCheck):
    id = "S01"
    runs = {"quick": 2500, "thorough": 40000}
    rule = ("Seeded histories of 5-40 operations (store, query, existence query, query of absent"
            " neighbouring keys, restart in a new process, export of an in-memory session) on keys"
            " with small/large/numpy-integer numbers and values of 28 kinds, compared with a map.")
    assumptions = SessionCheck.assumptions + [
        "one session object at a time accesses the directory (observers are S04)",
        "3-D arrays, empty arrays and integers beyond 2^53 are not generated",
    ]

    def plan(self, rng, tier, i):
        cls = rng.choice(["plain", "task"])
        disk = rng.random() < 0.75
        pool = [gen_key(rng) for _ in range(rng.randint(2, 7))]
        if rng.random() < 0.5:  # same name with many numbers
            nm = rng.choice(NAMES)
            pool += [[nm, rng.choice(UPDATES), rng.choice(SAMPLES), "int"] for _ in range(3)]
        if rng.random() < 0.25:  # numbers that would collide if they were split otherwise
            nm, u = rng.choice(["cost", "alpha"]), rng.choice(UPDATES)
            for a, b in rng.sample([(0, 0), (0, 1), (1, 0), (1, 1), (1, 999), (2, 0)], 3):
                pool += [[nm, u, 1000 * a + b, "int"], [f"{a}_{nm}", u, b, "int"],
                         [f"{a}_{nm}", u, 1000 * a + b, "int"]]
        if cls == "task" and rng.random() < 0.4:
            pool.append(["dmp", rng.choice([0, 1, 12]), rng.choice([0, 3, 100, "eval"]), "int"])
        ops = []
        for _ in range(rng.randint(5, 14 if tier == "quick" else 40)):
            k = list(rng.choice(pool))
            k[3] = rng.choice(["int", "int64", "int32", "int"])
            c = rng.random()
            if c < 0.5:
                kinds = ["dmp", "dmp", "mat"] if k[0] == "dmp" else None
                ops.append(["tell", k, gen_value(rng, kinds)])
            elif c < 0.7:
                ops.append(["ask", k])
            elif c < 0.8:
                ops.append(["absent", k])
            elif c < 0.85:
                ops.append(["all"])
            elif disk and c < 0.91:  # another session stores an entry
                same = [op[2] for op in ops if op[0] in ("tell", "other") and norm(op[1]) == norm(k)]
                spec = gen_value(rng, ["dmp", "mat"] if k[0] == "dmp" else None)
                ops.append(["other", k, spec])
                if rng.random() < 0.6:  # and the first one stores what it was before, again
                    ops.append(["tell", list(k), rng.choice(same) if same else spec])
            elif disk or c < 0.93:
                ops.append(["restart"])
            else:
                ops.append(["export"])
        kw = {}
        if rng.random() < 0.3:
            kw = {"updater": gen_value(rng, ["updater"]), "distribution_initial": gen_value(rng, ["dist"])}
        return {"cls": cls, "disk": disk, "n": rng.choice([1, 2, 5, 10, 150]),
                "np_n": rng.random() < 0.3, "kwargs": kw, "ops": ops}

    def execute(self, plan, ctx):
        k = ctx.kernel()
        d = os.path.join(ctx.scratch, "session")
        directory = d if plan["disk"] else None
        model = {("n_samples_per_update", None, None): n_spec(plan["n"])}
        for name, v in plan["kwargs"].items():
            model[(name, None, None)] = v
        segments = [[]]
        for op in plan["ops"]:
            if op[0] == "restart":
                segments.append([])
            else:
                segments[-1].append(op)
        if not plan["disk"]:
            segments = [[op for s in segments for op in s]]
        touched = set()
        stale = set()  # stored by another session since: this one may have it in its cache

        def v(spec):
            return _mk(spec)

        def check_key(session, key, where):
            if norm(key) in stale:
                return
            if norm(key) in model:
                if not session.exists(*args(key)):
                    raise Violation("lost", f"{where}: exists{norm(key)} False after storing")
                got = session.ask(*args(key))
                exp = v(model[norm(key)])
                ctx.record(norm(key), brief(got))
                if not stored_equal(got, exp):
                    raise Violation(
                        "wrong-value", f"{where}: ask{norm(key)} -> {brief(got)} not {brief(exp)}")
            else:
                check_absent(session, norm(key), where)

        def check_all(session, where):
            for key in list(model):
                check_key(session, list(key), where)
            for t in list(touched)[:6]:
                for nb in neighbours(t):
                    if nb not in model and nb[0]:
                        check_absent(session, nb, where)
            ctx.state(sorted((str(a), str(b)) for a, b in model.items()))

        def proc(i_seg):
            def body():
                stale.clear()
                if i_seg == 0:
                    n = np.int64(plan["n"]) if plan.get("np_n") else plan["n"]
                    session = make_session(plan["cls"], n, directory, plan["kwargs"])
                else:
                    session = open_session(plan["cls"], directory)
                    ctx.nontrivial()
                    if i_seg % 2:
                        check_all(session, f"process {i_seg}, start")
                for j, op in enumerate(segments[i_seg]):
                    where = f"process {i_seg}, op {j} {op[0]}"
                    if op[0] == "tell":
                        obj = v(op[2])
                        session.tell(obj, *args(op[1]))
                        stale.discard(norm(op[1]))
                        old = model.get(norm(op[1]))
                        if old is not None:
                            ctx.count("overwrites")
                            if ext_of(old) != ext_of(op[2]):
                                ctx.count("overwrites_other_type")
                        model[norm(op[1])] = op[2]
                        touched.add(norm(op[1]))
                    elif op[0] == "other":
                        session_o = open_session(plan["cls"], directory)
                        session_o.tell(v(op[2]), *args(op[1]))
                        ctx.count("stores_by_another_session")
                        model[norm(op[1])] = op[2]
                        stale.add(norm(op[1]))
                        touched.add(norm(op[1]))
                        session_o = None
                    elif op[0] == "ask":
                        check_key(session, op[1], where)
                    elif op[0] == "absent":
                        for nb in neighbours(op[1]):
                            if nb not in model and nb[0]:
                                check_absent(session, nb, where)
                    elif op[0] == "all":
                        check_all(session, where)
                    elif op[0] == "export":
                        session.save_all(os.path.join(ctx.scratch, "export"))
                        ctx.count("exports")
                check_all(session, f"process {i_seg}, end")
                if not plan["disk"] and i_seg == len(segments) - 1:
                    session.save_all(os.path.join(ctx.scratch, "export"))
            return body

        for i in range(len(segments)):
            ctx.ok(k.run((f"p{i}", proc(i), 100 + i)))

        def reader():
            s = open_session(plan["cls"], d if plan["disk"] else os.path.join(ctx.scratch, "export"))
            check_all(s, "reader process")

        ctx.ok(k.run(("reader", reader, 7)))
        ctx.nontrivial()

    def simplify(self, plan):
        if plan["kwargs"]:
            yield {**plan, "kwargs": {}}
        yield {**plan, "cls": "plain"}
        yield {**plan, "n": 2}


def spoil(obj):
    """Modify a container and everything in it."""
    if isinstance(obj, (list, tuple)):
        for v in obj:
            spoil(v)
    mutate(obj)


class S02(SessionCheck):
    id = "S02"
    runs = {"quick": 2500, "thorough": 25000}
    rule = ("Seeded histories in which the object handed to a session, or obtained from it, is"
            " modified in place after the operation (in-memory, on-disk and re-opened sessions),"
            " checked against a map of deep snapshots; and optimizations whose arguments are"
            " snapshotted before and modified after.")

    def plan(self, rng, tier, i):
        if rng.random() < 0.35:
            return self.plan_run(rng)
        pool = [[n, rng.choice([None, 0, 1]), rng.choice([None, 0, "eval"]), "int"]
                for n in rng.sample(NAMES, 3)]
        kinds = ["vec", "mat", "list", "listlist", "df", "dict", "dist", "updater", "dmp", "nested",
                 "tuple", "intarr", "one", "bigmat"]
        ops = []
        for _ in range(rng.randint(4, 12)):
            c = rng.random()
            key = rng.choice(pool)
            if c < 0.35:
                ops.append(["tell", key, gen_value(rng, kinds)])
            elif c < 0.45:
                ops.append(["tell_alias", key, rng.choice(pool), gen_value(rng, kinds)])
            elif c < 0.75:
                ops.append(["ask_mutate", key])
            elif c < 0.82:
                ops.append(["retell", key, rng.choice(pool)])
            elif c < 0.92:
                ops.append(["check"])
            else:
                ops.append(["restart"])
        return {"mode": "session", "cls": rng.choice(["plain", "task"]), "disk": rng.random() < 0.6,
                "ops": ops}

    def plan_run(self, rng):
        n = rng.randint(2, 6)
        kind = rng.choice(["loop", "task", "prepare"])
        dmp = gen_dmp(rng, small=True, selected=None if rng.random() < 0.5 else ["weights", "goal"])
        if "weights" in dmp["selected"]:
            dmp["fa"] = "RBFN"
        dim = rng.randint(1, 3)
        return {"mode": "run", "kind": kind, "n": n, "n_updates": rng.randint(1, 3), "dim": dim,
                "dmp": dmp, "dist": gen_distribution(rng, dim), "updater": self.gen_limits(rng, gen_updater(rng, n, 1)),
                "disk": rng.random() < 0.5, "scale": rng.random() < 0.5, "ops": []}

    @staticmethod
    def gen_limits(rng, upd):
        """Limits for each dimension, sometimes contradicting each other."""
        if upd["kind"] == "cma" and rng.random() < 0.6:
            for a in ("diagonal_max", "diagonal_min"):
                if rng.random() < 0.7:
                    upd[a] = [rng.choice([0.01, 0.3, 1.0, 4.0]) for _ in range(3)]
        return upd

    def execute(self, plan, ctx):
        ctx.nontrivial()
        if plan["mode"] == "run":
            return self.execute_run(plan, ctx)
        k = ctx.kernel()
        d = os.path.join(ctx.scratch, "session") if plan["disk"] else None
        model = {}
        segments = [[]]
        for op in plan["ops"]:
            if op[0] == "restart":
                segments.append([])
            else:
                segments[-1].append(op)
        if not plan["disk"]:
            segments = [[op for s in segments for op in s]]

        def expect(session, key, where):
            got = session.ask(*args(key))
            if not stored_equal(got, make_value(model[norm(key)])):
                raise Violation(
                    "aliased", f"{where}: ask{norm(key)} -> {brief(got)} not"
                    f" {brief(make_value(model[norm(key)]))} after modification of a told/asked object")
            return got

        def proc(i_seg):
            def body():
                if i_seg == 0:
                    session = make_session(plan["cls"], 3, d)
                else:
                    session = open_session(plan["cls"], d)
                held = []
                for j, op in enumerate(segments[i_seg]):
                    where = f"process {i_seg}, op {j} {op[0]}"
                    if op[0] == "tell":
                        obj = make_value(op[2])
                        session.tell(obj, *args(op[1]))
                        model[norm(op[1])] = op[2]
                        if not deep_equal(obj, make_value(op[2])):
                            raise Violation("told-object-modified", f"{where}: {brief(obj)}")
                        mutate(obj)
                        held.append(obj)
                    elif op[0] == "tell_alias":  # the same object under two keys
                        obj = make_value(op[3])
                        session.tell(obj, *args(op[1]))
                        session.tell(obj, *args(op[2]))
                        model[norm(op[1])] = op[3]
                        model[norm(op[2])] = op[3]
                        got = expect(session, op[1], where)
                        mutate(got)
                        mutate(obj)
                    elif op[0] == "ask_mutate":
                        if norm(op[1]) in model:
                            got = expect(session, op[1], where)
                            mutate(got)
                            again = expect(session, op[1], where + " (again)")
                            mutate(again)
                            held.append(got)
                    elif op[0] == "retell":
                        if norm(op[1]) in model:
                            got = expect(session, op[1], where)
                            session.tell(got, *args(op[2]))
                            model[norm(op[2])] = self.as_reloaded(model[norm(op[1])])
                            mutate(got)
                    elif op[0] == "check":
                        for key in list(model):
                            expect(session, list(key), where)
                for h in held:
                    mutate(h)
                for key in list(model):
                    expect(session, list(key), f"process {i_seg}, end")
                ctx.state(sorted(map(str, model.items())))
            return body

        for i in range(len(segments)):
            ctx.ok(k.run((f"p{i}", proc(i), i)))
        if plan["disk"]:
            def reader():
                s = open_session(plan["cls"], d)
                for _ in range(2):
                    for key in model:
                        mutate(expect(s, list(key), "reader"))
            ctx.ok(k.run(("reader", reader, 9)))

    @staticmethod
    def as_reloaded(spec):
        return spec

    def execute_run(self, plan, ctx):
        k = ctx.kernel()
        d = os.path.join(ctx.scratch, "session") if plan["disk"] or plan["kind"] == "prepare" else None

        def body():
            n, m = plan["n"], plan["n_updates"]
            probe = None
            updater = make_updater(plan["updater"])
            limits = []
            if plan["updater"].get("diagonal_max") or plan["updater"].get("diagonal_min"):
                for a in ("diagonal_max", "diagonal_min"):
                    if isinstance(getattr(updater, a, None), np.ndarray):
                        limits.append(a)
            dmp = make_dmp(plan["dmp"])
            if plan["kind"] == "loop":
                dist = make_distribution(plan["dist"])
            else:
                p0 = np.atleast_1d(dmp.get_param_vector())
                spec = {**plan["dist"], "dim": len(p0)}
                dist = make_distribution(spec, p0)
            for a in limits:
                setattr(updater, a, np.resize(getattr(updater, a), dist.mean.size))
            arrays = {"mean": dist.mean.copy(), "covar": dist.covar.copy()}
            for b in ("lower_bound", "upper_bound"):
                if getattr(dist, b, None) is not None:
                    arrays[b] = np.array(getattr(dist, b), dtype=float)
            upd_before = {a: np.array(v, dtype=object) if not isinstance(v, np.ndarray) else v.copy()
                          for a, v in vars(updater).items()}
            ts = np.linspace(0, plan["dmp"]["tau"], 8)

            def dmp_view(x):
                return [np.atleast_1d(x.get_param_vector()).copy(), np.array(x.y_init),
                        np.array(x.y_attr), np.array(x.tau), x.analytical_solution(ts)[0].copy()]

            view = dmp_view(dmp)
            solver = lib.TaskSolverDmp(dmp, plan["dmp"]["tau"] / 20, 1.2)
            task = lib.user.SimTask(np.zeros(plan["dmp"]["dim"]), 2.0)
            cost = lib.user.SimCost(np.zeros(plan["dist"]["dim"]), 2)
            sample = np.array(dist.mean) + 0.1
            if plan["kind"] == "loop":
                ref = cost.evaluate(sample)
            else:
                ref = solver.perform_rollout(sample).copy()
                ref_cost = task.evaluate_rollout(ref, sample)
            if plan["kind"] == "loop":
                session = lib.run_optimization(cost, dist, updater, m, n, d)
            elif plan["kind"] == "task":
                session = lib.run_optimization_task(task, solver, dist, updater, m, n, d)
            else:
                session = lib.prepare_optimization(d, task, solver, dist, n, updater, dmp)
            # arguments unchanged
            for a, v in arrays.items():
                if not same_num(np.array(getattr(dist, a), dtype=float), v):
                    raise Violation("args-modified", f"distribution.{a} is now {getattr(dist, a)}")
            for a, v in upd_before.items():
                now = getattr(updater, a)
                if not np.all(np.array(now, dtype=object) == np.array(v, dtype=object)):
                    raise Violation("args-modified", f"updater.{a}: {v} -> {now}")
            for x, y in zip(view, dmp_view(dmp)):
                if not same_num(x, y):
                    raise Violation("args-modified", "dmp changed by the optimization")
            if plan["kind"] == "loop":
                if ref != cost.evaluate(sample):
                    raise Violation("args-modified", "cost function changed")
            else:
                if not same_num(ref, solver.perform_rollout(sample)):
                    raise Violation("args-modified", "task solver gives another rollout")
                if not same_num(ref_cost, task.evaluate_rollout(ref, sample)):
                    raise Violation("args-modified", "task gives other costs")
            # history is not connected to the arguments, nor to what was asked
            names = [("distribution", u) for u in range(m if plan["kind"] != "prepare" else 1)]
            names += [("samples", u) for _, u in names]
            if plan["kind"] != "prepare":
                names += [(nm, u) for nm in ("weights", "costs", "distribution_new", "eval_sample")
                          for u in range(m)]
            else:
                names += [("distribution_initial", None), ("updater", None), ("dmp_initial", None)]
            if plan["kind"] != "loop":
                names += [("task", None)]
            def derived():
                if plan["kind"] == "prepare":
                    return []
                res = [list(session.get_learning_curve()), session.get_eval_cost_before_after()]
                for u in range(m):
                    res.append([session.get_eval_costs(u), session.get_sample_costs(u)])
                return res

            before = {nm: self.freeze(session.ask(*nm)) for nm in names}
            derived_before = self.freeze(derived())
            for obj in (dist, updater, dmp, task, cost):
                mutate(obj)
            for nm in names:
                mutate(session.ask(*nm))
            for _ in range(2):
                now = derived()
                if not deep_equal(derived_before, self.freeze(now)):
                    raise Violation("history-aliased", "learning curve and costs"
                                    f" {brief(derived_before)} -> {brief(now)}")
                spoil(now)
            for nm in names:
                now = self.freeze(session.ask(*nm))
                if not deep_equal(before[nm], now):
                    raise Violation("history-aliased", f"{nm}: {brief(before[nm])} -> {brief(now)}")
            ctx.record(brief(before[names[1]]))

        ctx.ok(k.run(("p", body, plan["dist"]["seed"])))

    @staticmethod
    def freeze(x):
        import copy

        return copy.deepcopy(x)


class S03(SessionCheck):
    id = "S03"
    level = "fault_enumeration"
    runs = {"quick": 1500, "thorough": 40000}
    rule = ("A seeded list of stores (first stores, overwrites, C++ files) by a sequence of"
            " processes; one or more faults (crash before/after an operation, torn write, disk"
            " full, I/O error, short write, failing open) at file operations chosen over the whole"
            " run; a new process then compares every entry with the old and new object.")

    def plan(self, rng, tier, i):
        keys = [["alpha", None, None], ["costs", 0, None], ["beta", 1, 3], ["dmp", 0, 1], ["cost", 0, "eval"]]
        keys = rng.sample(keys, rng.randint(1, 4))
        if rng.random() < 0.5 and ["dmp", 0, 1] not in keys:
            keys.append(["dmp", 0, 1])
        ops = []
        for _ in range(rng.randint(1, 6)):
            k = rng.choice(keys)
            kinds = (["dmp", "dmp", "dist"] if k[0] == "dmp" else
                     ["vec", "mat", "bigvec", "bigmat", "df", "dist", "dict", "str", "int", "list", "updater"])
            ops.append(["tell", k, gen_value(rng, kinds)])
        for j in range(1, len(ops)):
            if rng.random() < 0.15:
                ops.insert(j, ["restart"])
        faults = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            kind = rng.choice(["crash_before", "crash_after", "torn", "torn", "enospc", "eio", "short",
                               "eacces"])
            f = {"at": rng.random(), "kind": kind, "frac": rng.choice([0.0, 0.3, 0.5, 0.9, 0.999])}
            if kind in ("enospc", "eacces"):
                f["len"] = rng.choice([1, 1, 3, 10])
            if rng.random() < 0.12:
                f = {"at": rng.random(), "kind": "eio", "on": "read"}
            if f["kind"] in ("enospc", "eacces", "eio", "short") and rng.random() < 0.5:
                # a second fault while the first is being handled
                f["follow"] = {"after": rng.choice([0, 0, 1, 1, 2, 3, 5]), "kind": rng.choice(
                    ["crash_before", "crash_after", "torn", "torn", "eio", "enospc", "eacces"]),
                    "frac": rng.choice([0.0, 0.3, 0.5, 0.9])}
            faults.append(f)
        return {"cls": rng.choice(["plain", "task", "task"]), "n": rng.choice([3, 7]), "ops": ops,
                "faults": faults, "with_cost": rng.random() < 0.2}

    def execute(self, plan, ctx):
        # 1. without faults: count the operations of each process
        counts = self.simulate(plan, ctx, ctx.dir("dry"), [], "dry")
        # 2. with faults
        names = sorted(counts)
        faults = []
        for f in plan["faults"]:
            f = dict(f)
            on = f.get("on", "mut")
            total = sum(counts[n][0 if on == "mut" else 1] for n in names)
            if total == 0:
                continue
            pos = int(f.pop("at") * total)
            for n in names:
                c = counts[n][0 if on == "mut" else 1]
                if pos < c:
                    f["proc"], f["k"] = n, pos
                    break
                pos -= c
            faults.append(f)
        self.simulate(plan, ctx, ctx.dir("real"), faults, "real")

    def simulate(self, plan, ctx, base, faults, kname):
        d = os.path.join(base, "session")
        k = ctx.kernel(kname, faults=faults)
        segments = [[]]
        for op in plan["ops"]:
            if op[0] == "restart":
                segments.append([])
            else:
                segments[-1].append(op)
        # model: key -> list of values it may have (None: missing); acknowledged => one value
        may = {}
        cpp_may = {}
        state = {"created": False, "crashed": False}
        counts = {}
        n_key = ("n_samples_per_update", None, None)
        may[n_key] = [None]

        def start_store(key, spec):
            may[key] = may.get(key, [None]) + [spec]
            if plan["cls"] == "task" and "dmp" in key[0]:
                cpp_may[key] = cpp_may.get(key, [None]) + [spec]

        def ack_store(key, spec):
            may[key] = [spec]
            if key in cpp_may:
                cpp_may[key] = [spec]

        def retry(fn):
            for attempt in range(40):
                try:
                    return fn()
                except OSError:
                    ctx.count("failed_operations")
            raise Violation("keeps-failing", "an operation still fails after the faults are gone")

        def worker(ops):
            def body():
                if not state["created"]:
                    start_store(n_key, n_spec(plan["n"]))
                    C = lib.LearningSessionTask if plan["cls"] == "task" else lib.LearningSession
                    kw = {"cost_function": lib.user.SimCost([0.0])} if plan["with_cost"] else {}
                    session = retry(lambda: C(plan["n"], d, **kw))
                    ack_store(n_key, n_spec(plan["n"]))
                    state["created"] = True
                else:
                    session = retry(lambda: open_session(plan["cls"], d))
                while ops:
                    op = ops[0]
                    key = norm(op[1])
                    start_store(key, op[2])
                    for attempt in range(40):
                        try:
                            session.tell(make_value(op[2]), *key)
                            break
                        except OSError:
                            ctx.count("failed_stores")
                            if attempt == 0:
                                verify_in_new_process("after failed store")
                    else:
                        raise Violation("store-keeps-failing", f"{key} still fails without faults")
                    ack_store(key, op[2])
                    ops.pop(0)
                    got = retry(lambda: session.ask(*key))
                    if not stored_equal(got, make_value(op[2])):
                        raise Violation("wrong-value", f"ask{key} -> {brief(got)} after store")
            return body

        def look(where):
            """What a process that opens the session now finds."""
            if not os.path.isdir(d) and not state["created"]:
                return
            try:
                session = open_session(plan["cls"], d)
            except Exception as e:
                if None in may[n_key]:
                    return
                raise Violation("cannot-open", f"{where}: {type(e).__name__} {e}")
            for key, allowed in may.items():
                ex = session.exists(*key)
                if not ex:
                    if None not in allowed:
                        raise Violation("lost", f"{where}: {key} was stored but does not exist")
                    continue
                try:
                    got = session.ask(*key)
                except Exception as e:
                    raise Violation(
                        "unreadable", f"{where}: {key} exists but ask raises {type(e).__name__} {e}")
                if not any(s is not None and stored_equal(got, _mk(s)) for s in allowed):
                    raise Violation(
                        "torn", f"{where}: {key} -> {brief(got)}; allowed:"
                        f" {[None if s is None else brief(_mk(s)) for s in allowed]}")
                ctx.state(key, brief(got))
            for key, allowed in cpp_may.items():
                self.check_cpp(d, key, allowed, where)

        def verify_in_new_process(where):
            # from inside of a process: look at the files without faults and scheduling
            cur, k.cur = k.cur, None
            try:
                look(where)
            finally:
                k.cur = cur

        all_ops = [op for seg in segments for op in seg]
        n_inc = 0
        for seg in segments:
            ops = list(seg)
            for attempt in range(12):
                name = f"p{n_inc}"
                n_inc += 1
                (p,) = k.run((name, worker(ops), n_inc))
                counts[name] = (p.n_mut, p.n_read)
                if p.crashed:
                    ctx.count("crashes")
                    k.run(("look", lambda: look("after crash"), 5))[0]
                    q = k.run(("look2", lambda: look("after crash"), 5))[0]
                    ctx.ok([q])
                    continue
                ctx.ok([p])
                break
            else:
                raise HarnessError("too many incarnations")
        (q,) = k.run(("final", lambda: look("at the end"), 5))
        ctx.ok([q])
        return counts

    @staticmethod
    def check_cpp(d, key, allowed, where):
        import json as _json

        sess = lib.LearningSession
        base = sess.get_base_name(*key)
        fn = os.path.join(d, f"{base}_for_cpp.json")
        try:
            with open(fn) as f:
                text = f.read()
        except FileNotFoundError:
            if None not in allowed:
                raise Violation("lost-cpp", f"{where}: {fn} missing")
            return
        try:
            got = _json.loads(text)
        except ValueError as e:
            raise Violation("torn-cpp", f"{where}: {os.path.basename(fn)} is not complete: {e}")
        for s in allowed:
            if s is not None:
                exp = _json.loads(_json.dumps(make_value(s), cls=lib.jc.DmpBboJSONEncoder))
                if deep_equal(got, exp):
                    return
        raise Violation("torn-cpp", f"{where}: {os.path.basename(fn)} is neither old nor new")

    def simplify(self, plan):
        if plan["with_cost"]:
            yield {**plan, "with_cost": False}
        yield {**plan, "cls": "plain"}
        for j, f in enumerate(plan["faults"]):
            if "follow" in f:
                fs = [dict(x) for x in plan["faults"]]
                del fs[j]["follow"]
                yield {**plan, "faults": fs}
        for j, f in enumerate(plan["faults"]):
            for kind in ("crash_before", "crash_after"):
                if f["kind"] != kind:
                    fs = [dict(x) for x in plan["faults"]]
                    fs[j]["kind"] = kind
                    yield {**plan, "faults": fs}


def snapshot(d):
    """All files below a directory with their contents (without the simulator)."""
    out = {}
    for root, dirs, files in os.walk(d):
        for f in files:
            p = os.path.join(root, f)
            with simfs.real["open"](p, "rb") as fh:
                out[os.path.relpath(p, d)] = fh.read()
        for f in dirs:
            out[os.path.relpath(os.path.join(root, f), d) + "/"] = b""
    return out


def diff_snapshots(a, b):
    return [f for f in sorted(set(a) | set(b)) if a.get(f) != b.get(f)]


class S04(SessionCheck):
    id = "S04"
    runs = {"quick": 700, "thorough": 15000}
    rule = ("A writer process (stores with overwrites, step-by-step optimization with its robot, or"
            " optimization loop) interleaved at file-operation level with 1-3 observer processes"
            " without write permission; values seen are compared with the store history, the"
            " directory with that of an undisturbed run of the same seed.")

    def plan(self, rng, tier, i):
        kind = rng.choice(["stores", "stores", "loop", "steps", "updates", "writers"])
        n_obs = rng.randint(1, 3)
        plan = {"kind": kind, "n_obs": n_obs, "keep": rng.random() < 0.5, "rounds": rng.randint(1, 6), "n": rng.randint(2, 3),
                "n_updates": rng.randint(1, 3), "ops": [], "seed": rng.randrange(2**31),
                "plots": rng.random() < 0.1,
                "obs_cls": rng.choice(["plain", "task"])}
        keys = [["alpha", None, None], ["costs", 0, None], ["beta", 1, 3], ["dmp", 0, 1], ["samples", 12, None]]
        if kind == "writers":  # processes that store the same entries, e.g. of a repeated rollout
            keys = rng.sample(keys, rng.randint(1, 2))
        if kind in ("stores", "writers"):
            kinds = {tuple(k): rng.choice([["vec", "mat", "bigvec", "bigmat"], ["dist", "dict", "dmp", "nested"], ["df"]])
                     for k in keys}
            for _ in range(rng.randint(2, 8)):
                k = rng.choice(keys)
                plan["ops"].append(["tell", k, gen_value(rng, ["dmp"] if k[0] == "dmp" else kinds[tuple(k)])])
        plan["dmp"] = gen_dmp(rng, dim=1, small=True)
        plan["dist"] = gen_distribution(rng, 2)
        plan["updater"] = {"kind": rng.choice(["mean", "decay"]), "weighting_method": "PI-BB", "eliteness": 5}
        return plan

    def execute(self, plan, ctx):
        solo = ctx.dir("solo")
        shared = ctx.dir("shared")
        hist = {}
        k0 = ctx.kernel("solo")
        ctx.ok(k0.run(("writer", self.writer(plan, ctx, solo, {}, k0), plan["seed"])))
        ref = snapshot(solo)
        k = ctx.kernel("main")
        specs = [("writer", self.writer(plan, ctx, shared, hist, k, 0), plan["seed"])]
        if plan["kind"] == "writers":
            specs.append(("writer1", self.writer(plan, ctx, shared, hist, k, 1), plan["seed"]))
        for o in range(plan["n_obs"]):
            specs.append(
                (f"obs{o}", self.observer(plan, ctx, shared, hist, k, o), 77 + o, {"readonly": True})
            )
        procs = k.run(*specs)
        self.check_procs(ctx, procs)
        now = snapshot(shared)
        d = diff_snapshots(ref, now)
        if plan["kind"] == "writers":  # the contents depend on who was last
            d = sorted(set(ref) ^ set(now))
            ref = now
        if d:
            raise Violation("outcome-changed", f"files differ from the undisturbed run: {d[:5]}")
        # afterwards: all queries and plots by a process without write permission
        k2 = ctx.kernel("after")
        (p,) = k2.run(("plotter", self.plotter(plan, ctx, shared), 5, {"readonly": True}))
        self.check_procs(ctx, [p])
        d = diff_snapshots(ref, snapshot(shared))
        if d:
            raise Violation("dir-modified", f"reading the session modified {d[:5]}")

    @staticmethod
    def check_procs(ctx, procs):
        for p in procs:
            if getattr(p, "denied", 0):
                raise Violation("needs-write-permission", f"{p.name} attempted {p.denied} writes")
        ctx.ok(procs)

    def writer(self, plan, ctx, base, hist, k, part=None):
        d = os.path.join(base, "session")

        def tell(session, key, spec):
            e = {"spec": spec, "t0": k.n_steps, "t1": None}
            hist.setdefault(norm(key), []).append(e)
            session.tell(make_value(spec), *norm(key))
            e["t1"] = k.n_steps

        def body():
            if plan["kind"] in ("stores", "writers"):
                if part:  # Wait for the session to be there
                    for _ in range(300):
                        if os.path.isfile(os.path.join(d, "n_samples_per_update.txt")):
                            break
                        k.sleep(0.0)
                    else:
                        return
                    session = open_session("task", d)
                else:
                    session = make_session("task", plan["n"], d)
                if part is None or plan["kind"] == "stores":
                    ops = plan["ops"]
                else:
                    ops = plan["ops"][part::2]
                for op in ops:
                    tell(session, op[1], op[2])
            elif plan["kind"] == "loop":
                cost = lib.user.SimCost(np.zeros(plan["dist"]["dim"]), 1)
                lib.run_optimization(cost, make_distribution(plan["dist"]), make_updater(plan["updater"]),
                                     plan["n_updates"], plan["n"], d)
            elif plan["kind"] == "updates":
                # a user's own optimization loop: sessions without evaluation rollouts
                rng = np.random.RandomState(plan["seed"])
                session = make_session("task", plan["n"], d)
                updater = make_updater(plan["updater"])
                dist = make_distribution(plan["dist"])
                for u in range(plan["n_updates"]):
                    x = np.atleast_2d(dist.generate_samples(plan["n"]))
                    costs = rng.rand(plan["n"])
                    new, w = updater.update_distribution(dist, x, list(costs))
                    session.add_update(u, dist, x, costs, w, new)
                    dist = new
            else:
                dmp = make_dmp(plan["dmp"])
                solver = lib.TaskSolverDmp(dmp, plan["dmp"]["tau"] / 10, 1.1)
                p0 = np.atleast_1d(dmp.get_param_vector())
                dist = make_distribution({**plan["dist"], "dim": len(p0)}, p0)
                task = lib.user.SimTask(np.zeros(1))
                lib.prepare_optimization(d, task, None, dist, plan["n"], make_updater(plan["updater"]), dmp)
                for u in range(plan["n_updates"]):
                    s = open_session("task", d)
                    for i in list(range(plan["n"])) + ["eval"]:
                        s.tell(solver.perform_rollout_dmp(s.ask("dmp", u, i)), "cost_vars", u, i)
                    lib.update_step(s, u)
        return body

    def observer(self, plan, ctx, base, hist, k, o):
        d = os.path.join(base, "session")
        import random

        rng = random.Random(f"{plan['seed']}-{o}")

        def body():
            kept = None  # a session that stays open
            for r in range(plan["rounds"]):
                k.sleep(rng.random() * 0.0)
                created = os.path.isfile(os.path.join(d, "n_samples_per_update.txt"))
                try:
                    session = open_session(plan["obs_cls"], d)
                except Exception as e:
                    if created:
                        raise Violation("cannot-open", f"observer: {type(e).__name__} {e}")
                    continue
                ctx.count("observer_opens")
                if session.ask("n_samples_per_update") not in (plan["n"],) and not same_num(
                    as_stored(session.ask("n_samples_per_update")), [plan["n"]]
                ):
                    raise Violation("torn", "n_samples_per_update is wrong")
                if plan.get("keep") and kept is None:
                    kept = open_session(plan["obs_cls"], d)
                if plan["kind"] in ("stores", "writers"):
                    keys = sorted({norm(op[1]) for op in plan["ops"]}, key=str)
                    for key in rng.sample(keys, len(keys)):
                        self.read_key(session, key, hist, k, ctx)
                        if kept is not None:
                            self.read_key(kept, key, hist, k, ctx, stays=True)
                else:
                    if kept is not None:
                        self.compare(plan, session, kept)
                    n = session.get_n_updates()
                    ctx.state(plan["kind"], n)
                    for u in range(n):
                        for nm in ("distribution", "samples", "weights", "distribution_new"):
                            if not session.exists(nm, u):
                                raise Violation("missing", f"{nm} of finished update {u} missing")
                            x = session.ask(nm, u)
                            self.complete(plan, nm, x)
                    curve, _ = session.get_learning_curve()
                    if len(curve) < n:
                        raise Violation("curve", f"{len(curve)} rows for {n} updates")
                    for nm in ("distribution", "samples", "weights", "distribution_new", "costs"):
                        if session.exists(nm, n):
                            self.complete(plan, nm, session.ask(nm, n))
                    for i in range(plan["n"]):
                        for nm in ("dmp", "cost_vars", "costs"):
                            if session.exists(nm, n, i):
                                x = session.ask(nm, n, i)
                                if nm == "dmp":
                                    x.get_param_vector()
        return body

    @staticmethod
    def complete(plan, nm, x):
        if nm.startswith("distribution"):
            bad = len(x.mean) != x.covar.shape[0]
        else:
            bad = np.asarray(x).shape[0] != plan["n"]
        if bad:
            raise Violation("torn", f"incomplete {nm}: {brief(x)}")

    @staticmethod
    def compare(plan, session, kept):
        """What a newly opened session has, is also there for one that stays open."""
        n = session.get_n_updates()
        if kept.get_n_updates() < n:
            raise Violation("missing", f"less than {n} updates for a session that stays open")
        for u in range(n + 1):
            for i in [None, *range(plan["n"]), "eval"]:
                for nm in ("costs", "dmp", "cost_vars", "samples", "weights", "distribution_new"):
                    if session.exists(nm, u, i) and not kept.exists(nm, u, i):
                        raise Violation("missing", f"{nm} {u} {i} for a session that stays open")

    def read_key(self, session, key, hist, k, ctx, stays=False):
        t0 = k.n_steps
        h = list(hist.get(key, []))
        acked_before = [e for e in h if e["t1"] is not None and e["t1"] <= t0]
        ex = session.exists(*key)
        got = err = None
        try:
            got = session.ask(*key)
        except Exception as e:  # noqa
            err = e
        ctx.count("observer_reads")
        if err is not None:
            if acked_before:
                raise Violation("unreadable", f"{key}: {type(err).__name__} {err} although stored")
            if ex:
                raise Violation("unreadable", f"{key} exists but {type(err).__name__} {err}")
            return
        if acked_before and not ex:
            raise Violation("unreadable", f"{key} does not exist although stored")
        for e in hist.get(key, []):
            # A session that stays open may remember what it has read before
            replaced = e["t1"] is not None and any(f["t0"] >= e["t1"] for f in acked_before)
            if (stays or not replaced) and stored_equal(got, make_value(e["spec"])):
                return
        raise Violation("torn", f"observer read {key} -> {brief(got)}, which was not stored there")

    def plotter(self, plan, ctx, base):
        d = os.path.join(base, "session")

        def body():
            session = open_session(plan["obs_cls"], d)
            session.get_n_updates()
            session.exists("foo", 3, 4)
            if plan["kind"] not in ("stores", "writers"):
                session.get_learning_curve()
                session.get_eval_cost_before_after()
                for u in range(session.get_n_updates()):
                    session.get_sample_costs(u)
                if plan["plots"]:
                    import matplotlib.pyplot as plt

                    try:
                        session.plot_learning_curve()
                        session.plot_exploration_curve()
                    finally:
                        plt.close("all")
            else:
                for key in [norm(op[1]) for op in plan["ops"]]:
                    session.ask(*key)
        return body

    def simplify(self, plan):
        for n in range(1, plan["n_obs"]):
            yield {**plan, "n_obs": n}
        for n in range(1, plan["rounds"]):
            yield {**plan, "rounds": n}
        for n in range(1, plan["n_updates"]):
            yield {**plan, "n_updates": n}
