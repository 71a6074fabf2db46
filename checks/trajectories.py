"""D12: trajectories under any history of operations."""

import copy
import os

import numpy as np
import scipy.signal

from checks.control import ControlCheck, shared
from simkit.kernel import Violation
from simkit.repo import lib
from simkit.scenario import rs, same_num

FIELDS = ["ts", "ys", "yds", "ydds"]


# -- the reference ------------------------------------------------------------------------------
def central(xs, dt):
    """Central differences; the first and last sample repeat their neighbours."""
    out = np.empty(xs.shape)
    for j in range(1, len(xs) - 1):
        out[j] = (xs[j + 1] - xs[j - 1]) / (2 * dt)
    out[0], out[-1] = out[1], out[-2]
    return out


def quintic(ts, begin, end):
    """Polynomial of degree 5 with given boundary values; derivatives are given for unit duration."""
    n = np.arange(6)
    m = [[1, 0, 0, 0, 0, 0], [0, 1, 0, 0, 0, 0], [0, 0, 2, 0, 0, 0],
         [1] * 6, n, n * (n - 1)]
    c = np.linalg.solve(np.array(m, float), np.array(list(begin) + list(end)))
    dur = ts[-1] - ts[0]
    s = (ts - ts[0]) / dur
    powers = np.array([s**j for j in range(6)]).T
    zero = np.zeros((len(ts), 1))
    d1 = np.hstack((zero, powers[:, :5] * n[1:]))
    d2 = np.hstack((zero, zero, powers[:, :4] * (n * (n - 1))[2:]))
    return powers @ c, d1 @ c / dur, d2 @ c / dur**2


class Ref:
    def __init__(self, ts, ys, yds=None, ydds=None, misc=None):
        self.ts, self.ys = ts.copy(), ys.reshape((len(ts), -1)).copy()
        self.yds = central(self.ys, self.dt) if yds is None else yds.reshape(self.ys.shape).copy()
        self.ydds = central(self.yds, self.dt) if ydds is None else ydds.reshape(self.ys.shape).copy()
        self.misc = None if misc is None or misc.size == 0 else misc.copy()

    @property
    def dt(self):
        return (self.ts[-1] - self.ts[0]) / (len(self.ts) - 1)

    def tolerance(self, name):
        """Absolute tolerance for the values of a field."""
        if name == "ts":
            return 1e-11 * (1 + np.max(np.abs(self.ts)))
        s = 1 + np.max(np.abs(self.ys))
        if name == "ys":
            return 1e-10 * s
        if name == "yds":
            return 1e-10 * (s / self.dt + np.max(np.abs(self.yds)))
        return 1e-10 * (s / self.dt**2 + np.max(np.abs(self.yds)) / self.dt + np.max(np.abs(self.ydds)))

    def crop(self, keep):
        self.ts, self.ys, self.yds, self.ydds = (getattr(self, n)[keep] for n in FIELDS)
        if self.misc is not None:
            self.misc = self.misc[keep]

    def join(self, first, gap, second):
        """Become the first trajectory followed by the second one, 'gap' later."""
        misc = None
        if first.misc is not None and second.misc is not None:
            misc = np.vstack((first.misc, second.misc))
        ts = np.concatenate((first.ts, second.ts - second.ts[0] + first.ts[-1] + gap))
        rest = [np.vstack((getattr(first, n), getattr(second, n))) for n in FIELDS[1:]]
        self.ts, self.misc = ts, misc
        self.ys, self.yds, self.ydds = rest

    def still(self, y, n):
        r = copy.deepcopy(self)
        r.ts = np.arange(n) * self.dt
        r.ys = np.tile(y, (n, 1))
        r.yds, r.ydds, r.misc = np.zeros(r.ys.shape), np.zeros(r.ys.shape), None
        return r

    def recompute(self):
        self.yds = central(self.ys, self.dt)
        self.ydds = central(self.yds, self.dt)

    def matrix(self):
        m = [self.ts[:, None], self.ys, self.yds, self.ydds]
        return np.hstack(m if self.misc is None else m + [self.misc])


# -- specifications -----------------------------------------------------------------------------
def gen_traj(rng):
    kind = rng.choice(["raw", "raw", "raw", "min_jerk", "polynomial", "viapoint", "matrix"])
    n = rng.choice([3, 4, 5, 20, 51, rng.randint(6, 120)])
    return {"kind": kind, "dim": rng.choice([1, 1, 2, 3]), "n": n if kind != "viapoint" else max(n, 8),
            "seed": rng.randrange(2**31), "t0": rng.choice([0.0, 0.0, 1.0, -2.5, rng.uniform(-3, 3)]),
            "dt": rng.choice([0.01, 0.01, 0.1, 0.001, 1.0, rng.uniform(0.005, 0.2)]),
            "irregular": rng.random() < 0.3, "misc": rng.choice([0, 0, 1, 3]),
            "given": rng.choice([0, 1, 2, 2]), "flat": rng.random() < 0.3}


def times(spec, r):
    if spec["irregular"]:
        d = r.uniform(0.5, 1.5, spec["n"] - 1) * spec["dt"]
        return spec["t0"] + np.concatenate(([0.0], np.cumsum(d)))
    return spec["t0"] + np.arange(spec["n"]) * spec["dt"]


def make(spec, caller):
    """The trajectory (of the code under test) and the reference; caller: arrays that were given."""
    r = rs(spec["seed"])
    d, n = spec["dim"], spec["n"]
    ts = times(spec, r)
    kind = spec["kind"]

    def give(a):
        a = np.array(a, dtype=float)
        caller.append((a, a.copy()))
        return a

    def vec():
        return r.uniform(-2, 2, d)

    if kind in ("raw", "matrix"):
        fs = r.uniform(-1, 1, (3, d))
        ph = np.linspace(0, 1, n)[:, None]
        ys = 1 + fs[0] + np.sin(7 * fs[1] * ph + fs[2])
        if spec["seed"] % 3 == 0:
            ys = ys + 0.05 * r.standard_normal(ys.shape)
        yds = r.standard_normal(ys.shape)
        ydds = r.standard_normal(ys.shape)
        misc = r.standard_normal((n, spec["misc"])) if spec["misc"] else None
        if kind == "matrix":
            ref = Ref(ts, ys, yds, ydds, misc)
            return lib.Trajectory.from_matrix(give(ref.matrix()), spec["misc"]), ref
        args = [ys, yds, ydds][: 1 + spec["given"]]
        if d == 1 and spec["flat"]:
            args = [a.reshape(-1) for a in args]
        kw = {} if misc is None else {"misc": give(misc)}
        return lib.Trajectory(give(ts), *[give(a) for a in args], **kw), Ref(ts, *args, misc=misc)
    zero = np.zeros(d)
    if kind == "min_jerk":
        a, b = vec(), vec()
        return (lib.Trajectory.from_min_jerk(give(ts), give(a), give(b)),
                Ref(ts, *quintic(ts, (a, zero, zero), (b, zero, zero))))
    if kind == "polynomial":
        begin, end = (vec(), vec(), vec()), (vec(), vec(), vec())
        return (lib.Trajectory.from_polynomial(give(ts), *[give(v) for v in begin + end]),
                Ref(ts, *quintic(ts, begin, end)))
    a, b, via = vec(), vec(), (vec(), vec(), vec())
    j = 3 + r.randint(0, n - 5)  # the first time step at or after the viapoint
    t_via = ts[j] - r.choice([0.0, 0.0, 0.4]) * (ts[j] - ts[j - 1])
    if t_via == ts[j]:
        t_via = float(ts[j])
    traj = lib.Trajectory.from_viapoint_polynomial(give(ts), give(a), give(np.concatenate(via)), t_via,
                                                   give(b))
    ref = Ref(ts[:j], *quintic(ts[:j], (a, zero, zero), via))
    ref.join(copy.deepcopy(ref), spec["dt"], Ref(ts[j:], *quintic(ts[j:], via, (b, zero, zero))))
    return traj, Ref(ts, ref.ys, ref.yds, ref.ydds)


class D12(ControlCheck):
    id = "D12"
    runs = {"quick": 9000, "thorough": 150000}
    rule = ("Several trajectories (made from arrays, matrices, minimum-jerk, quintic and viapoint"
            " polynomials, sharing arrays of the caller) go through seeded histories of cropping,"
            " padding, joining, filtering, re-differentiating, storing (with disk errors), loading"
            " and refused operations; after each operation all of them and the caller's arrays are"
            " compared with independent formulas.")
    stub = ControlCheck.stub + ["file system faults", "numpy formulas (checks/trajectories.py) as oracle"]
    state_measure = "hash of a trajectory after each operation"

    def plan(self, rng, tier, i):
        plan = {"trajs": [gen_traj(rng) for _ in range(rng.choice([1, 2, 2, 3]))], "ops": []}
        n = len(plan["trajs"])
        if rng.random() < 0.5:
            for t in plan["trajs"]:
                t["dim"] = plan["trajs"][0]["dim"]
        for _ in range(rng.randint(2, 14)):
            m = rng.randrange(n)
            op = {"op": rng.choice(["crop", "crop_time", "append", "append", "prepend", "prepend",
                                    "pad_front", "pad_end", "zero", "recompute", "filter", "file",
                                    "file", "json", "copy", "misc", "jerks", "bad", "matrix",
                                    "frame"]),
                  "m": m, "o": rng.randrange(n), "seed": rng.randrange(2**31)}
            if op["op"] in ("append", "prepend") and rng.random() < 0.2:
                op["o"] = m
            if op["op"] == "file":
                op["fault"] = rng.choice([None, "eio", "enospc", "short"])
                op["k"] = rng.choice([0, 1, 1, 2, 3])
                op["frac"] = rng.choice([0.0, 0.5, 0.9])
                op["on"] = rng.choice(["mut", "mut", "read"])
            if rng.random() < 0.01:
                op["op"] = "plot"
            plan["ops"].append(op)
        return plan

    def simulate(self, plan, ctx):
        k = ctx.kernel()
        d = ctx.dir("trajectories")
        ctx.ok(k.run(("process", lambda: self.run_it(plan, ctx, k, d), 1)))

    # -- comparison -----------------------------------------------------------------------------
    def compare(self, ctx, trajs, refs, caller, what):
        for m, (t, ref) in enumerate(zip(trajs, refs)):
            def bad(kind, name, got, want):
                raise Violation(kind, f"{what}: {name} of trajectory {m} is {got} instead of {want}")

            n, d = ref.ys.shape
            for name in FIELDS:
                got, want = np.asarray(getattr(t, name)), getattr(ref, name)
                if got.shape != want.shape:
                    bad("shape", name, got.shape, want.shape)
                err = np.abs(got - want)
                if not np.all(err <= ref.tolerance(name)):
                    j = int(np.argmax(np.max(np.nan_to_num(err.reshape((n, -1)), nan=1e99), axis=1)))
                    bad(name, f"{name}[{j}]", got[j], want[j])
            if bool(t.has_misc()) != (ref.misc is not None):
                bad("misc", "has_misc()", t.has_misc(), ref.misc is not None)
            if ref.misc is not None and not same_num(np.asarray(t.misc), ref.misc):
                bad("misc", "misc", t.misc, ref.misc)
            dim_misc = 0 if ref.misc is None else ref.misc.shape[1]
            tol = 10 * ref.tolerance("ts")
            for name, got, want in [
                    ("dim", t.dim, d), ("length", t.length, n), ("dim_misc", t.dim_misc, dim_misc),
                    ("dt_mean", t.dt_mean, ref.dt), ("duration", t.duration, ref.ts[-1] - ref.ts[0]),
                    ("y_init", t.y_init, ref.ys[0]), ("y_final", t.y_final, ref.ys[-1]),
                    ("range", t.get_range_per_dim(), np.ptp(ref.ys, axis=0))]:
                if np.shape(got) != np.shape(want) or not np.all(
                        np.abs(np.asarray(got) - want) <= tol + ref.tolerance("ys") * np.ndim(want)):
                    bad("attribute", name, got, want)
        for given, was in caller:
            if not same_num(given, was):
                raise Violation("caller-modified", f"{what}: an array of the caller became {given}")

    def resync(self, t, ref):
        """Go on from the observed values (they are within the tolerances)."""
        for name in FIELDS:
            setattr(ref, name, np.array(getattr(t, name)))

    def run_it(self, plan, ctx, k, d):
        caller = []
        pairs = [make(s, caller) for s in plan["trajs"]]
        trajs, refs = [p[0] for p in pairs], [p[1] for p in pairs]
        self.compare(ctx, trajs, refs, caller, "made")
        for t, ref in zip(trajs, refs):
            self.resync(t, ref)
        for n, op in enumerate(plan["ops"]):
            m, o = op["m"] % len(trajs), op["o"] % len(trajs)
            r = rs(op["seed"])
            what = f"operation {n} {op}"
            if self.apply(ctx, k, d, op, trajs, refs, m, o, r, caller, what) is False:
                continue
            self.compare(ctx, trajs, refs, caller, what)
            self.resync(trajs[m], refs[m])
            ctx.nontrivial()
            ctx.state(refs[m].matrix())
            ctx.record(refs[m].matrix())

    def apply(self, ctx, k, d, op, trajs, refs, m, o, r, caller, what):
        t, ref = trajs[m], refs[m]
        kind = op["op"]
        n = len(ref.ts)

        def refused(call, exceptions=Exception):
            try:
                call()
            except exceptions:
                ctx.count("fault:refused_operation")
                return
            raise Violation("not-refused", f"{what} was not refused")

        if kind == "plot":
            import matplotlib.pyplot as plt

            try:
                t.plot()
            finally:
                plt.close("all")
        elif kind == "crop":
            if n < 4:
                return False
            a = r.randint(0, n - 3)
            b = r.randint(a + 3, n + 1)
            t.crop(a, b)
            ref.crop(slice(a, b))
        elif kind == "crop_time":
            a, b = np.sort(r.uniform(ref.ts[0] - 0.1 * ref.dt, ref.ts[-1] + 0.2 * ref.dt * n, 2))
            if r.rand() < 0.3:  # exactly a time of the trajectory
                a = ref.ts[r.randint(0, n)]
            if r.rand() < 0.3:
                b = ref.ts[r.randint(0, n)]
            keep = (ref.ts >= a) & (ref.ts < b)
            if np.sum(keep) < 3:
                return False
            t.crop(a, b, as_times=True)
            ref.crop(keep)
        elif kind in ("append", "prepend"):
            other = refs[o]
            fits = other.ys.shape[1] == ref.ys.shape[1] and (
                other.misc is None or ref.misc is None or other.misc.shape[1] == ref.misc.shape[1])
            if n + len(other.ts) > 1500:
                return False
            if not fits:
                refused(lambda: getattr(t, kind)(trajs[o]))
            elif kind == "append":
                t.append(trajs[o])
                ref.join(copy.deepcopy(ref), ref.dt, copy.deepcopy(other))
            else:
                t.prepend(trajs[o])
                ref.join(copy.deepcopy(other), other.dt, copy.deepcopy(ref))
        elif kind in ("pad_front", "pad_end"):
            c = int(r.choice([1, 2, 3, 10, 100]))
            getattr(t, kind)(c)
            same = copy.deepcopy(ref)
            if kind == "pad_front":
                ref.join(same.still(same.ys[0], c), same.dt, same)
            else:
                ref.join(same, same.dt, same.still(same.ys[-1], c))
        elif kind == "zero":
            t.set_start_time_to_zero()
            ref.ts = ref.ts - ref.ts[0]
        elif kind == "recompute":
            t.recompute_derivatives()
            ref.recompute()
        elif kind == "filter":
            order = int(r.choice([2, 3, 3]))
            if n <= 3 * (order + 1):
                refused(lambda: t.apply_low_pass_filter(0.1 / ref.dt, order))
                return True
            cut = r.uniform(0.05, 0.8)  # relative to the Nyquist frequency
            f = cut * 0.5 / ref.dt
            if order == 3 and r.rand() < 0.5:
                t.apply_low_pass_filter(f)
            else:
                t.apply_low_pass_filter(f, order)
            b, a = scipy.signal.butter(order, cut)
            ref.ys = scipy.signal.filtfilt(b, a, ref.ys, axis=0)
            tol = 1e-7 * (1 + np.max(np.abs(ref.ys)))
            ctx.check(t.ys.shape == ref.ys.shape and bool(np.all(np.abs(t.ys - ref.ys) <= tol)),
                      "filter", lambda: f"{what}: {t.ys} instead of {ref.ys}")
            ref.ys = np.array(t.ys)
            ref.recompute()
        elif kind == "misc":
            new = r.standard_normal((n, r.randint(1, 4)))
            caller.append((new, new.copy()))
            t.misc = new
            ref.misc = new.copy()
        elif kind == "jerks":
            got, want = np.asarray(t.yddds()), central(ref.ydds, ref.dt)
            tol = ref.tolerance("ydds") / ref.dt
            ctx.check(got.shape == want.shape and bool(np.all(np.abs(got - want) <= tol)), "jerks",
                      lambda: f"{what}: {got} instead of {want}")
        elif kind == "bad":
            self.bad(op, t, ref, r, refused)
        elif kind == "matrix":
            got = t.as_matrix()
            ctx.check(same_num(got, ref.matrix()), "matrix", lambda: f"{what}: {got}")
            if shared(got, t.ys) or shared(got, t.ts):
                raise Violation("shared-memory", f"{what}: matrix shares memory with the trajectory")
            got.fill(1e55)
        elif kind == "frame":
            df = t.as_dataframe()
            dims = range(ref.ys.shape[1])
            names = ["t"] + [f"{p}{j}" for p in ("y", "yd", "ydd") for j in dims]
            names += [f"misc{j}" for j in range(0 if ref.misc is None else ref.misc.shape[1])]
            ctx.check(list(df.columns) == names and same_num(df.to_numpy(), ref.matrix()), "frame",
                      lambda: f"{what}: {df}")
        elif kind == "copy":
            trajs[m] = copy.deepcopy(t)
        elif kind == "json":
            ctx.count("fault:process_replaced")
            p = os.path.join(d, f"trajectory{m}.json")
            lib.jc.savejson(p, t)
            trajs[m] = lib.jc.loadjson(p)
        elif kind == "file":
            self.file(ctx, k, d, op, trajs, refs, m, what)

    def bad(self, op, t, ref, r, refused):
        """Operations which must be refused, without any effect."""
        n, dim = ref.ys.shape
        j = op["seed"] % 6
        if j == 0:
            a = r.randint(0, n)
            refused(lambda: t.crop(a, a - r.randint(0, 2)))
        elif j == 1:
            def set_misc():
                t.misc = np.zeros((n + 1, 2))
            refused(set_misc)
        elif j == 2:
            refused(lambda: lib.Trajectory(np.arange(n), np.zeros((n + 1, dim))))
        elif j == 3:
            refused(lambda: lib.Trajectory(ref.ts.copy(), ref.ys.copy(), ref.yds[:-1].copy()))
        elif j == 4:
            refused(lambda: lib.Trajectory(ref.ts.copy(), ref.ys.copy(), ref.yds.copy(), ref.ydds[1:].copy()))
        else:
            other = lib.Trajectory(np.arange(4.0), np.zeros((4, dim + 1)))
            refused(lambda: (t.append if r.rand() < 0.5 else t.prepend)(other))

    def file(self, ctx, k, d, op, trajs, refs, m, what):
        t, ref = trajs[m], refs[m]
        if ref.dt < 1e-4 or np.max(np.abs(ref.matrix())) > 1e7:
            return
        p = os.path.join(d, f"trajectory{m}.txt")
        proc = k.cur

        def with_fault(on, call):
            if op["fault"] and op["on"] == on:
                now = proc.n_mut if on == "mut" else proc.n_read
                f = {"k": now + (op["k"] if on == "mut" else 0), "kind": op["fault"], "frac": op["frac"]}
                k.faults.setdefault((proc.name, on), []).append(f)
            try:
                return call()
            except OSError:
                ctx.count("failed_operations")
                proc.full_until = -1
            finally:
                k.faults.clear()
                proc.full_until = -1
            return call()

        with_fault("mut", lambda: t.savetxt(p))
        n_misc = 0 if ref.misc is None else ref.misc.shape[1]
        if n_misc == 0 and op["seed"] % 2:
            new = with_fault("read", lambda: lib.Trajectory.loadtxt(p))
        else:
            new = with_fault("read", lambda: lib.Trajectory.loadtxt(p, n_misc))
        ctx.count("fault:process_replaced")
        got, want = new.as_matrix(), ref.matrix()
        ctx.check(got.shape == want.shape and bool(np.all(np.abs(got - want) <= 1e-6)), "file",
                  lambda: f"{what}: {got} instead of {want}")
        if op["seed"] % 3 == 0:
            trajs[m] = new
            if ref.misc is not None:
                ref.misc = np.array(new.misc)
            self.resync(new, ref)
