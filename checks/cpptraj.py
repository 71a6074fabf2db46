"""C02: trajectories of the C++ implementation, and the files through which they are exchanged."""

import os

import numpy as np

from checks.control import ControlCheck
from checks.cppruntime import C01
from checks.trajectories import quintic
from simkit import cppsim
from simkit.kernel import Violation
from simkit.repo import lib
from simkit.scenario import rs

PRECISION = 0.51e-6  # C++ writes 6 decimals
FILES = ["a.txt", "b.txt", "c.txt"]


def fault_plan(rng, write):
    kinds = (["full", "full", "write_error", "open_fails", "close_fails"] if write
             else ["read_error", "open_fails"])
    kinds += ["short_writes" if write else "short_reads", "interrupted"]
    kind = rng.choice(kinds)
    n = {"full": rng.choice([0, 1, 50, rng.randint(0, 3000), rng.randint(0, 30000)]),
         "short_writes": rng.choice([1, 7, 100, 1000]), "short_reads": rng.choice([1, 7, 100, 1000]),
         "write_error": rng.choice([1, 1, 2, 3]), "read_error": rng.choice([1, 1, 2, 3])}
    return [kind, n.get(kind, 0)]


BENIGN = ("short_writes", "short_reads", "interrupted")


class C02(ControlCheck):
    id = "C02"
    runs = {"quick": 3000, "thorough": 120000}
    real = ["Trajectory, loadMatrix and saveMatrix of the C++ implementation (src/) and Trajectory"
            " of dmpbbo from /repo's working tree", "Eigen", "statically linked libstdc++",
            "Boost.Filesystem", "numpy", "files in a scratch directory"]
    stub = ["system calls that open, read, write and close files (faults on demand)",
            "the other process (learner or robot), its crashes and clock",
            "the C++ allocator (guard words, garbage-filled, limited)",
            "assert, abort, signals and calls that do not end in C++ (reported)"]
    rule = ("A simulated learner (Python) and robot (C++) exchange trajectories and matrices through"
            " files, which are torn by crashes and hit by failing system calls. What is read has to"
            " be what the file contains, and what is reported as saved has to be in the file;"
            " otherwise the failure has to be reported. Between, trajectories are generated, joined"
            " and extended in C++, and have to be what the operations define.")
    _sim = None

    def setup(self, base_tmp):
        self.path = cppsim.build(os.path.join(base_tmp, "cpp"))

    @property
    def sim(self):
        if C02._sim is None:
            C02._sim = cppsim.Sim(self.path)
        return C02._sim

    call = C01.call

    # -- plans ------------------------------------------------------------------------------
    def plan(self, rng, tier, i):
        n_t = rng.choice([1, 2, 3])
        p_fault = rng.choice([0.0, 0.2, 0.5])
        ops = [self.gen_make(rng, t) for t in range(n_t)]
        for _ in range(rng.randint(3, 20)):
            t, f = rng.randrange(n_t), rng.randrange(len(FILES))
            x = rng.random()
            if x < 0.10:
                op = self.gen_make(rng, t)
            elif x < 0.18:
                op = {"op": "append", "t": t, "n": rng.randint(2, 30), "seed": rng.randrange(2**31),
                      "rest": rng.random() < 0.3}
            elif x < 0.24:
                op = {"op": "misc", "t": t, "n": rng.choice([1, 1, 2, 3]),
                      "rows": rng.choice(["all", "one", "one", "bad"]), "seed": rng.randrange(2**31)}
            elif x < 0.42:
                op = {"op": "save", "t": t, "f": f, "overwrite": rng.random() < 0.7,
                      "dir": rng.choice([None, None, "here", "here", "new", "nested", "file", "missing",
                                          "under_file"])}
            elif x < 0.50:
                op = {"op": "savemat", "f": f, "seed": rng.randrange(2**31),
                      "n": rng.choice([1, 2, 5, rng.randint(1, 200)]), "m": rng.choice([0, 1, 2, 7]),
                      "overwrite": rng.random() < 0.7, "dir": rng.choice([None, "here", "new"]),
                      "scale": rng.choice([1.0, 1.0, 1000.0, 1e6])}
            elif x < 0.60:
                op = {"op": "pysave", "t": t, "f": f}
            elif x < 0.70:
                op = {"op": "torn", "f": f, "frac": rng.choice([0.0, rng.random(), rng.random()])}
            elif x < 0.78:
                op = {"op": "damage", "f": f, "how": rng.choice(
                    ["nan", "text", "header", "extra", "missing", "blank", "trailing", "crlf",
                     "tabs", "no_newline", "garbage", "spaces_only", "glued"]), "seed": rng.randrange(2**31)}
            elif x < 0.90:
                op = {"op": "read", "t": t, "f": f, "misc": rng.choice([0, 0, 0, 1, 2, 3])}
            elif x < 0.97:
                op = {"op": "readmat", "f": f, "vector": rng.random() < 0.2}
            else:
                op = {"op": "remove", "f": f}
            if op["op"] in ("save", "savemat", "read", "readmat") and rng.random() < p_fault:
                op["fault"] = fault_plan(rng, op["op"].startswith("save"))
            ops.append(op)
            if op["op"] == "savemat" and rng.random() < 0.06:  # long recordings, long lines
                op["n"], op["m"] = rng.choice([(2, 500), (3, 1200), (1700, 4), (5000, 1)])
                ops.append({"op": "readmat", "f": f, "vector": False})
        return {"ops": ops}

    @staticmethod
    def gen_make(rng, t):
        return {"op": "make", "t": t, "kind": rng.choice([0, 0, 1, 2, 3]), "dim": rng.choice([1, 2, 3]),
                "n": rng.choice([2, 3, 10, 51, rng.randint(3, 200)]), "misc": rng.choice([0, 0, 1, 3]),
                "t0": rng.choice([0.0, 0.0, 1.0, -2.5, rng.uniform(-3, 3)]),
                "dt": rng.choice([0.01, 0.1, 0.001, 1.0]), "irregular": rng.random() < 0.3,
                "still": rng.random() < 0.2, "seed": rng.randrange(2**31)}

    # -- execution --------------------------------------------------------------------------
    def simulate(self, plan, ctx):
        k = ctx.kernel()
        d = ctx.dir("exchange")
        ctx.ok(k.run(("robot", lambda: self.run_it(plan, ctx, d), 1)))
        ctx.check(self.sim.heap_ok(), "heap-corrupt",
                  "memory outside of a block was written, or memory was released twice")

    def run_it(self, plan, ctx, d):
        trajs, refs, n_dirs = {}, {}, [0]
        try:
            for i, op in enumerate(plan["ops"]):
                getattr(self, "do_" + op["op"])(ctx, i, op, trajs, refs, d, n_dirs)
                for t in trajs:
                    self.compare(ctx, f"operation {i} {op}: trajectory {t}", trajs[t], refs[t])
        finally:
            for t in trajs.values():
                self.call(ctx, "releasing", t.free)
        if len(plan["ops"]) > len(trajs):
            ctx.nontrivial()

    def compare(self, ctx, what, traj, ref):
        m, dim, n_misc = ref
        sizes = self.call(ctx, what, traj.sizes)
        exp = (len(m), dim, n_misc)
        ctx.check(sizes == exp, "sizes", f"{what}: sizes are {sizes} instead of {exp}")
        dur, rng, y0, y1, got = self.call(ctx, what, traj.get)
        tol = 1e-9 * (1 + np.max(np.abs(m), axis=0))
        dt = max(float(np.min(np.diff(m[:, 0]))), 1e-6) if len(m) > 1 else 1.0
        tol[1 + dim : 1 + 2 * dim] += 1e-12 / dt
        tol[1 + 2 * dim : 1 + 3 * dim] += 1e-12 / dt**2
        ctx.check(bool(np.all(np.abs(got - m) <= tol)), "values",
                  lambda: f"{what}: differs at {np.argwhere(~(np.abs(got - m) <= tol))[:4].tolist()}:"
                  f" {got[~(np.abs(got - m) <= tol)][:4]} instead of {m[~(np.abs(got - m) <= tol)][:4]}")
        ys = m[:, 1 : 1 + dim]
        for name, a, b in (("duration", dur, m[-1, 0] - m[0, 0]),
                           ("range", rng, ys.max(axis=0) - ys.min(axis=0)),
                           ("first position", y0, ys[0]), ("last position", y1, ys[-1])):
            ctx.check(bool(np.all(np.abs(a - b) <= 1e-9 * (1 + np.max(np.abs(m[:, : 1 + dim]))))),
                      "derived", f"{what}: {name} is {a} instead of {b}")
        ctx.record(np.round(got[-1] * 1e6))
        ctx.state(got[-1])

    def replace(self, ctx, trajs, refs, t, new, ref):
        if t in trajs:
            self.call(ctx, "releasing", trajs[t].free)
        trajs[t], refs[t] = new, ref

    # .. operations on trajectories
    def do_make(self, ctx, i, op, trajs, refs, d, n_dirs):
        r = rs(op["seed"])
        dim, kind = op["dim"], op["kind"]
        n = max(op["n"], 6) if kind == 3 else op["n"]
        steps = r.uniform(0.5, 1.5, n - 1) if op["irregular"] else np.ones(n - 1)
        ts = op["t0"] + op["dt"] * np.concatenate(([0.0], np.cumsum(steps)))
        zero, n_misc = np.zeros(dim), 0
        v = r.uniform(-2, 2, (6, dim))
        if op["still"]:
            v[[1, 2, 4, 5]] = 0.0
        if kind == 0:
            n_misc = op["misc"]
            a = r.uniform(-3, 3, (n, 3 * dim + n_misc))
            if op["still"]:
                a[[0, -1], dim : 3 * dim] = 0.0
            parts, arg = [a], a
        elif kind == 1:
            parts = quintic(ts, (v[0], zero, zero), (v[3], zero, zero))
            arg = v[[0, 3]]
        elif kind == 2:
            parts, arg = quintic(ts, v[:3], v[3:]), v
        else:
            k = int(r.randint(2, n - 2))
            if n % 2 == 1 and not op["irregular"]:
                k = n // 2
            else:
                # Derivatives are given for unit duration: those of the two parts would not match
                v[4:] = 0.0
            at = ts[k] - r.choice([0.0, 0.4]) * (ts[k] - ts[k - 1])
            first = quintic(ts[: k + 1], (v[0], zero, zero), v[3:])
            second = quintic(ts[k:], v[3:], (v[1], zero, zero))
            parts = [np.vstack((p, q[1:])) for p, q in zip(first, second)]
            arg = np.concatenate((v[0], v[1], v[3], v[4], v[5], [at]))
        new = self.call(ctx, f"operation {i} {op}",
                        lambda: self.sim.trajectory(kind, ts, arg, dim, n_misc))
        m = np.hstack([ts[:, None], *parts])
        self.replace(ctx, trajs, refs, op["t"], new, (m, dim, n_misc))
        ctx.sim_time += float(ts[-1] - ts[0])

    def do_append(self, ctx, i, op, trajs, refs, d, n_dirs):
        """Append a trajectory that starts where this one ends."""
        r = rs(op["seed"])
        m, dim, n_misc = refs[op["t"]]
        k = 3 * dim
        # It starts exactly there: what is close to zero is not known accurately enough otherwise
        last = self.call(ctx, "reading", trajs[op["t"]].get)[4][-1, 1:]
        a = np.vstack((last, r.uniform(-3, 3, (op["n"] - 1, k + n_misc))))
        if op["rest"]:
            a[-1, dim:k] = 0.0
        ts = m[-1, 0] + np.concatenate(([0.0], np.cumsum(r.uniform(0.01, 0.1, op["n"] - 1))))
        other = self.call(ctx, "making", lambda: self.sim.trajectory(0, ts, a, dim, n_misc))
        self.call(ctx, f"operation {i} {op}", lambda: trajs[op["t"]].append(other))
        part = np.hstack((ts[:, None], a))
        self.compare(ctx, f"operation {i} {op}: appended trajectory", other, (part, dim, n_misc))
        self.call(ctx, "releasing", other.free)
        refs[op["t"]] = (np.vstack((m, part[1:])), dim, n_misc)

    def do_misc(self, ctx, i, op, trajs, refs, d, n_dirs):
        m, dim, n_misc = refs[op["t"]]
        n = {"all": len(m), "one": 1, "bad": len(m) + 1}[op["rows"]]
        a = rs(op["seed"]).uniform(-3, 3, (n, op["n"]))
        self.call(ctx, f"operation {i} {op}", lambda: trajs[op["t"]].set_misc(a))
        if op["rows"] == "bad":
            ctx.count("refused")
            return  # Nothing changed
        if n == 1:
            a = np.tile(a, (len(m), 1))
        refs[op["t"]] = (np.hstack((m[:, : 1 + 3 * dim], a)), dim, op["n"])

    # .. files
    def place(self, op, d, n_dirs):
        """Directory and name as they are given, and the path of the file."""
        name, where = FILES[op["f"]], op["dir"]
        path = os.path.join(d, name)
        if where is None:
            return None, path, path
        if where == "here":
            return d, name, path
        n_dirs[0] += 1
        sub = os.path.join(d, f"dir{n_dirs[0]}")
        if where == "nested":
            sub = os.path.join(sub, "x", "y")
        if where in ("file", "under_file"):
            with open(sub, "w") as f:
                f.write("not a directory\n")
        if where == "under_file":
            sub = os.path.join(sub, "x")
        if where == "missing":
            path = os.path.join(sub, name)
            return None, path, path
        return sub, name, os.path.join(sub, name)

    @staticmethod
    def content(path):
        try:
            with open(path, "rb") as f:
                return f.read()
        except (FileNotFoundError, NotADirectoryError):
            return None

    def save(self, ctx, i, op, d, n_dirs, fn, m):
        directory, name, path = self.place(op, d, n_dirs)
        before = self.content(path)
        what = f"operation {i} {op}"
        try:
            ok, hit = self.sim.with_fault(op.get("fault"), lambda: fn(directory, name))
        except cppsim.CppError as e:
            # Boost reports that a directory cannot be created with an exception
            ctx.check(op["dir"] == "under_file" and "filesystem" in str(e), "cpp-error", f"{what}: {e}")
            ctx.count("fault:directory_cannot_be_created")
            return
        after = self.content(path)
        kind = (op.get("fault") or ["none"])[0]
        if hit:
            ctx.count("fault:" + kind)
        if before is not None and not op["overwrite"]:
            ctx.check(not ok, "overwritten", f"{what}: reports that an existing file was replaced")
            ctx.check(after == before, "overwritten", f"{what}: the existing file has changed")
            ctx.count("refused")
            return
        if op["dir"] in ("file", "missing", "under_file"):
            ctx.check(not ok, "unreported", f"{what}: reports success without a directory")
            ctx.count("fault:no_directory")
            return
        if hit and kind not in BENIGN:
            ctx.check(not ok, "unreported", f"{what}: reports success although saving failed")
            return
        ctx.check(ok, "save-failed", f"{what}: reports failure")
        got = self.parse(after)
        ctx.check(got is not None and got.shape == m.shape and bool(
            np.all(np.abs(got - m) <= PRECISION + 1e-15 * np.abs(m))), "saved-values",
            lambda: f"{what}: the file does not contain what was saved: {after[:200]}")
        back = np.loadtxt(path, ndmin=2)
        ctx.check(np.array_equal(back, got), "python-reads", f"{what}: Python reads other values")

    def do_save(self, ctx, i, op, trajs, refs, d, n_dirs):
        n_misc = refs[op["t"]][2]
        # The values in C++ (which may differ a little from the reference) have to be in the file
        m = self.call(ctx, "values", trajs[op["t"]].get)[-1]
        self.save(ctx, i, op, d, n_dirs,
                  lambda where, name: trajs[op["t"]].save(where, name, op["overwrite"]), m)
        path = os.path.join(d, FILES[op["f"]])
        if os.path.exists(path) and op.get("fault") is None and op["overwrite"] and op["dir"] in (
                None, "here") and len(m) > 2:
            got = lib.Trajectory.loadtxt(path, n_misc).as_matrix()
            ctx.check(got.shape == m.shape and bool(np.all(np.abs(got - m) <= 1.1 * PRECISION)),
                      "python-reads", f"operation {i} {op}: Python reads another trajectory")

    def do_savemat(self, ctx, i, op, trajs, refs, d, n_dirs):
        r = rs(op["seed"])
        m = r.uniform(-1, 1, (op["n"], max(op["m"], 1))) * op["scale"]
        arg = m if op["m"] else m[:, 0]
        self.save(ctx, i, op, d, n_dirs,
                  lambda where, name: self.sim.save_matrix(arg, where, name, op["overwrite"]), m)

    def do_pysave(self, ctx, i, op, trajs, refs, d, n_dirs):
        m, dim, n_misc = refs[op["t"]]
        lib.Trajectory.from_matrix(m.copy(), n_misc).savetxt(os.path.join(d, FILES[op["f"]]))

    def do_remove(self, ctx, i, op, trajs, refs, d, n_dirs):
        path = os.path.join(d, FILES[op["f"]])
        if os.path.exists(path):
            os.remove(path)

    def do_torn(self, ctx, i, op, trajs, refs, d, n_dirs):
        """The process that wrote the file had crashed meanwhile."""
        path = os.path.join(d, FILES[op["f"]])
        text = self.content(path)
        if text is None:
            return
        ctx.count("fault:torn_file")
        with open(path, "wb") as f:
            f.write(text[: int(op["frac"] * len(text))])

    def do_damage(self, ctx, i, op, trajs, refs, d, n_dirs):
        path = os.path.join(d, FILES[op["f"]])
        text = self.content(path)
        if not text:
            return
        r = rs(op["seed"])
        how = op["how"]
        lines = text.decode().split("\n")
        if lines[-1] == "":
            lines.pop()
        k = int(r.randint(len(lines)))
        words = lines[k].split() or ["1"]
        j = int(r.randint(len(words)))
        end = "\n"
        if how in ("nan", "text", "extra", "missing"):
            if how == "missing":
                words.pop(j)
            elif how == "extra":
                words.insert(j, "0.5")
            else:
                words[j] = {"nan": "nan", "text": r.choice(["abc", "1.0,2.0", "-", "--5", "1.2.3"])}[how]
            lines[k] = " ".join(words)
        elif how == "header":
            lines.insert(0, "# times and positions")
        elif how == "blank":
            lines.insert(k, "")
            lines.append("")
        elif how == "trailing":
            lines = [s + r.choice(["", " ", "   "]) for s in lines]
        elif how == "crlf":
            lines = [s + "\r" for s in lines]
        elif how == "tabs":
            lines = ["\t".join(s.split()) for s in lines]
        elif how == "no_newline":
            end = ""
        elif how == "glued":  # columns that are not wide enough
            lines = [s.replace(" -", "-") for s in lines] if r.randint(2) else [
                s + ".25" if "." in s else s + "-1" for s in lines]
        elif how == "garbage":
            lines = ["".join(chr(c) for c in r.randint(33, 127, 20)) for _ in range(3)]
        else:
            lines = ["   ", "", " "]
        ctx.count("fault:file_" + how)
        with open(path, "wb") as f:
            f.write(("\n".join(lines) + end).encode())

    @staticmethod
    def parse(text):
        """The matrix in the text, or None."""
        if text is None:
            return None
        try:
            rows = [[float(w) for w in s.split()] for s in text.decode().split("\n")]
        except ValueError:
            return None
        rows = [s for s in rows if s]
        if not rows or len({len(s) for s in rows}) > 1 or not np.all(np.isfinite(rows)):
            return None
        return np.array(rows)

    def read(self, ctx, i, op, d, fn, report):
        path = os.path.join(d, FILES[op["f"]])
        exp = self.parse(self.content(path))
        got, hit = self.sim.with_fault(op.get("fault"), lambda: self.call(
            ctx, f"operation {i} {op}", lambda: fn(path)))
        kind = (op.get("fault") or ["none"])[0]
        if hit:
            ctx.count("fault:" + kind)
        if hit and kind not in BENIGN:
            exp = None
        if exp is None:
            ctx.count("invalid_files")
        return exp, got

    def do_read(self, ctx, i, op, trajs, refs, d, n_dirs):
        m = self.parse(self.content(os.path.join(d, FILES[op["f"]])))
        k = op["misc"]
        if m is not None and ((m.shape[1] - 1 - k) % 3 or m.shape[1] - 1 - k <= 0):
            k = {1: 0, 2: 1, 0: 2}[m.shape[1] % 3]  # Another choice does not make sense
            if m.shape[1] - 1 - k <= 0:
                return
        exp, got = self.read(ctx, i, op, d, lambda path: self.sim.read_trajectory(path, k), None)
        n = self.call(ctx, "length", got.sizes)[0]
        if exp is None:
            self.call(ctx, "releasing", got.free)
            ctx.check(n == 0, "invalid-file", f"operation {i} {op}: a trajectory of length {n} is read"
                      " although the file could not be read or does not contain one")
            return
        self.replace(ctx, trajs, refs, op["t"], got, (exp, (exp.shape[1] - 1 - k) // 3, k))
        ctx.count("trajectories_read")

    def do_readmat(self, ctx, i, op, trajs, refs, d, n_dirs):
        m = self.parse(self.content(os.path.join(d, FILES[op["f"]])))
        vector = op["vector"] and m is not None and m.shape[1] == 1
        exp, got = self.read(ctx, i, op, d, lambda path: self.sim.load_matrix(path, vector), None)
        if exp is None:
            ctx.check(got is None, "invalid-file", f"operation {i} {op}: reports success although the"
                      " file could not be read or does not contain a matrix")
            return
        ctx.check(got is not None, "load-failed", f"operation {i} {op}: reports failure")
        ctx.check(got.shape == exp.shape and np.array_equal(got, exp), "loaded-values",
                  lambda: f"operation {i} {op}: {got} is read instead of {exp}")
        ctx.record(got[-1])

    def simplify(self, plan):
        ops = plan["ops"]
        for i in range(len(ops)):
            rest = ops[:i] + ops[i + 1 :]
            made = set()
            fine = True
            for o in rest:
                if o["op"] == "make":
                    made.add(o["t"])
                elif "t" in o and o["t"] not in made:
                    fine = False
            if fine:
                yield dict(plan, ops=rest)
        for i, o in enumerate(ops):
            if o.get("fault"):
                yield dict(plan, ops=ops[:i] + [{k: v for k, v in o.items() if k != "fault"}] + ops[i + 1 :])
