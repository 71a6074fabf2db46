"""Builds objects from JSON specifications (in the current simulated process), and compares them."""

import numbers

import numpy as np
import pandas as pd

from simkit.kernel import HarnessError
from simkit.repo import lib

DMP_TYPES = [
    "IJSPEERT_2002_MOVEMENT",
    "KULVICIUS_2012_JOINING",
    "COUNTDOWN_2013",
    "2022",
    "2022_NO_SCALING",
    "2022_DAMPING",
    "SCT23_NO_SCALING_DAMPING",
]
SCALINGS = ["NO_SCALING", "G_MINUS_Y0_SCALING", "AMPLITUDE_SCALING"]
SPECIAL = [0.0, -0.0, 1e-310, 5e-324, 1.7976931348623157e308, -1e-20, 0.1, 1 / 3, np.pi, 123456789.0]


def rs(seed):
    return np.random.RandomState(seed % (2**32))


# -- DMPs ---------------------------------------------------------------------------------------
def gen_dmp(rng, dim=None, sched=False, types=None, small=False, selected=None):
    dim = dim or rng.choice([1, 1, 2, 2, 3])
    fa = rng.choice(["RBFN", "LWR"])
    names = {"RBFN": [["weights"]], "LWR": [["offsets"], ["slopes"], ["offsets", "slopes"]]}[fa]
    spec = {
        "type": rng.choice(types or DMP_TYPES),
        "dim": dim,
        "fa": fa,
        "n_bfs": rng.choice([2, 3] if small else [3, 4, 6, 8]),
        "seed": rng.randrange(2**31),
        "tau": rng.choice([0.5, 1.0, 1.0, 2.0, 0.8]),
        "n_ts": rng.choice([11, 21] if small else [21, 41]),
        "scaling": rng.choice(["NO_SCALING", "NO_SCALING"] + SCALINGS),
        "trained": True,
        "selected": selected or (rng.choice(names) + (["goal"] if rng.random() < 0.4 else [])),
        "alpha": rng.choice([20.0, 20.0, 15.0, 30.0]),
    }
    if rng.random() < 0.12:  # other parameters were selected before
        spec["preselect"] = rng.choice(names) + (["goal"] if rng.random() < 0.7 else [])
    if rng.random() < 0.06:  # times (and thus tau) are numpy integers
        spec["int_times"], spec["tau"] = True, spec["n_ts"] - 1
    if sched:
        spec["n_sched"] = rng.choice([1, 2, 3])
        spec["bounds"] = rng.choice(["none", "scalar", "min", "max", "vector", "list"])
        if rng.random() < 0.5:
            spec["selected"] = spec["selected"] + sched_names(rng, fa)
    return spec


def sched_names(rng, fa):
    """Names of parameters of the schedules."""
    if fa == "RBFN":
        return ["sched_weights"]
    return rng.choice([["sched_offsets"], ["sched_offsets"], ["sched_slopes"],
                       ["sched_slopes", "sched_offsets"]])


def demo_trajectory(spec):
    """A demonstration: minimum-jerk-like movement plus a wiggle."""
    r = rs(spec["seed"])
    d = spec["dim"]
    tau, n = spec["tau"], spec["n_ts"]
    ts = np.linspace(0, tau, n)
    s = ts / tau
    y0 = r.uniform(-1, 1, d)
    g = y0 + r.choice([-1, 1], d) * r.uniform(0.5, 1.5, d)
    mj = 10 * s**3 - 15 * s**4 + 6 * s**5
    mjd = (30 * s**2 - 60 * s**3 + 30 * s**4) / tau
    mjdd = (60 * s - 180 * s**2 + 120 * s**3) / tau**2
    amp = r.uniform(-0.4, 0.4, d)
    w = np.sin(np.pi * s) ** 4
    wd = 4 * np.sin(np.pi * s) ** 3 * np.cos(np.pi * s) * np.pi / tau
    wdd = (
        (12 * np.sin(np.pi * s) ** 2 * np.cos(np.pi * s) ** 2 - 4 * np.sin(np.pi * s) ** 4)
        * (np.pi / tau) ** 2
    )
    ys = y0 + np.outer(mj, g - y0) + np.outer(w, amp)
    yds = np.outer(mjd, g - y0) + np.outer(wd, amp)
    ydds = np.outer(mjdd, g - y0) + np.outer(wdd, amp)
    misc = None
    if spec.get("n_sched"):
        k = spec["n_sched"]
        misc = r.uniform(0, 100, k) + np.outer(np.sin(3 * s), r.uniform(20, 80, k))
    if spec.get("int_times") and tau == n - 1:
        ts = np.arange(n)
    return lib.Trajectory(ts, ys, yds, ydds, misc)


def make_fas(spec, n):
    cls = {
        "RBFN": lambda: lib.FunctionApproximatorRBFN(spec["n_bfs"], 0.7),
        "LWR": lambda: lib.FunctionApproximatorLWR(spec["n_bfs"], 0.5),
    }[spec["fa"]]
    return [cls() for _ in range(n)]


def sched_bounds(spec):
    k = spec["n_sched"]
    kind = spec.get("bounds", "none")
    r = rs(spec["seed"] + 7)
    lo = np.sort(r.uniform(10, 50, k))
    hi = lo + r.uniform(5, 30, k)
    if kind == "none":
        return None, None
    if kind == "scalar":
        return float(lo[0]), float(hi[0])
    if kind == "min":
        return float(lo[0]), None
    if kind == "max":
        return None, hi
    if kind == "list":
        return lo.tolist(), hi.tolist()
    return lo, hi


def needs_unit_goal(spec):
    """Whether the goal system of this type moves from 0 to 1, and is scaled afterwards."""
    return ("2022" in spec["type"] or "SCT23" in spec["type"]) and "NO_SCALING" not in spec["type"]


def gen_custom(rng, spec):
    """Subsystems which the user provides, rather than those of the type of the DMP."""
    spec.pop("per_dim", None)
    spec["custom"] = {
        "seed": rng.randrange(2**31),
        "goal": rng.choice(["default", "richards"] if needs_unit_goal(spec) else
                           ["default", "none", "exp", "exp", "richards"]),
        "gating": rng.choice(["default", "exp", "sigmoid", "richards"]),
        "phase": rng.choice(["default", "default", "exp", "time", "countdown"]),
        "spring": rng.choice(["default", "own"]),
        "damping": rng.choice(["default", "default", "exp"]),
    }
    return spec


def cpp_custom(rng, spec):
    """Subsystems of the user which C++ knows too."""
    c = gen_custom(rng, spec)["custom"]
    c["goal"] = "exp" if c["goal"] == "richards" else c["goal"]
    c["gating"] = "exp" if c["gating"] == "richards" else c["gating"]
    c["damping"] = "default"
    c["scalar"] = True
    return spec


def phase_kind(spec):
    kind = spec.get("custom", {}).get("phase", "default")
    if kind != "default":
        return kind
    if spec["type"] in ("IJSPEERT_2002_MOVEMENT", "Ijs02"):
        return "exp"
    return "time" if spec["type"] in ("KULVICIUS_2012_JOINING", "Kul12") else "countdown"


def custom_systems(spec, tau, y0, g):
    """Some with a time constant of their own."""
    c = spec["custom"]
    r = rs(c["seed"])
    d = spec["dim"]
    f = r.uniform(0.8, 1.5, 4)
    f[1] = r.uniform(0.6, 1.0)  # the forcing term ends with the phase
    one = np.ones(1)
    kw = {}
    if c["goal"] == "none":
        kw["goal_system"] = None
    elif c["goal"] == "exp":
        kw["goal_system"] = lib.ExponentialSystem(f[0] * tau, y0, g, r.uniform(8, 15))
    elif c["goal"] == "richards":
        a, b = (np.zeros(d), np.ones(d)) if needs_unit_goal(spec) else (y0, g)
        kw["goal_system"] = lib.RichardsSystem(f[0] * tau, a, b, 0.3, 10.0, 1.0)
    if c["gating"] == "exp":
        kw["gating_system"] = lib.ExponentialSystem(f[1] * tau, 1, 0, r.uniform(3, 6))
    elif c["gating"] == "sigmoid":
        kw["gating_system"] = lib.SigmoidSystem.for_gating(f[1] * tau, 0.1)
    elif c["gating"] == "richards":
        kw["gating_system"] = lib.RichardsSystem(
            (0.8 + 0.3 * f[1]) * tau, one, 0 * one, 1.0, 10.0, 10.0)
    if c["phase"] == "exp":
        kw["phase_system"] = lib.ExponentialSystem(f[2] * tau, 1, 0, r.uniform(3, 6))
    elif c["phase"] != "default":
        kw["phase_system"] = lib.TimeSystem(tau, c["phase"] == "countdown")
    if c["spring"] == "own":
        omega, mass = r.uniform(7.5, 15, d), r.uniform(0.5, 2, d)
        if c.get("scalar"):
            omega, mass = float(omega[0]), float(mass[0])
        kw["transformation_system"] = lib.SpringDamperSystem(
            tau, y0, g, 2 * mass * omega, mass * omega**2, mass)
    if c["damping"] == "exp":
        damp = np.full(d, kw["transformation_system"].damping_coefficient
                       if c["spring"] == "own" else float(spec.get("alpha", 20.0)))
        kw["damping_system"] = lib.ExponentialSystem(
            f[3] * tau, r.uniform(0.3, 0.9) * damp, damp, r.uniform(4, 8))
    return kw


def make_dmp(spec, traj=None):
    d = spec["dim"]
    kw = {"dmp_type": spec["type"], "forcing_term_scaling": spec.get("scaling", "NO_SCALING")}
    if "alpha" in spec:
        kw["alpha_spring_damper"] = spec["alpha"]
    traj = demo_trajectory(spec) if traj is None else traj
    if spec.get("custom"):
        kw.update(custom_systems(spec, spec["tau"] if not spec.get("trained", True) else
                                 traj.ts[-1], traj.ys[0, :].copy(), traj.ys[-1, :].copy()))
    fas = make_fas(spec, d)
    if spec.get("n_sched"):
        lo, hi = sched_bounds(spec)
        kw["min_schedules"], kw["max_schedules"] = lo, hi
        dmp = lib.DmpWithSchedules.from_traj_sched(
            traj, fas, make_fas(spec, spec["n_sched"]), **kw
        )
    elif spec.get("untrained"):  # the forcing term of some dimensions was learned elsewhere
        lib.Dmp.from_traj(traj, fas, **kw)
        for i in spec["untrained"]:
            fas[i] = make_fas(spec, 1)[0]
        dmp = lib.Dmp(traj.ts[-1], traj.ys[0, :], traj.ys[-1, :], fas,
                      scaling_amplitudes=traj.get_range_per_dim(), **kw)
    elif spec.get("trained", True):
        dmp = lib.Dmp.from_traj(traj, fas, **kw)
    else:
        if kw["forcing_term_scaling"] == "AMPLITUDE_SCALING":
            kw["scaling_amplitudes"] = np.ones(d)
        dmp = lib.Dmp(spec["tau"], traj.ys[0, :], traj.ys[-1, :], None, **kw)
    if spec.get("selected"):
        names = list(spec["selected"])
        if not spec.get("trained", True):
            names = ["goal"]
        if spec.get("preselect"):
            dmp.set_selected_param_names(list(spec["preselect"]))
        dmp.set_selected_param_names(names)
    if spec.get("decouple") or spec.get("per_dim"):
        dmp.decouple_parameters()
    if spec.get("per_dim"):
        dmp.set_params_dyn_sys(subsystem_params(spec, dmp))
    return dmp


def subsystem_params(spec, dmp, which=None):
    """Those parameters of subsystems which the DMP has (or only for certain subsystems)."""
    params = per_dim_params(spec)
    if dmp._goal_system is None or "2022" in spec["type"] or "SCT23" in spec["type"]:
        params.pop("goal_system")
    if "DAMPING" not in spec["type"]:
        params.pop("damping_system")
    return {n: p for n, p in params.items() if which is None or n in which}


def per_dim_params(spec):
    """Different (but well-damped) parameters of the subsystems for each dimension."""
    r = rs(spec["per_dim"])
    d = spec["dim"]
    omega = r.uniform(7.5, 15, d)
    mass = r.uniform(0.5, 2, d)
    damping = 2 * mass * omega
    if "DAMPING" in spec["type"]:  # the damping coefficient is given by the damping system
        damping = np.full(d, float(spec.get("alpha", 20.0)))
        mass = damping / (2 * omega)
    spring = mass * omega**2
    if r.rand() < 0.5:
        spring = spring * r.uniform(1.0, 1.3, d)
    return {
        "spring_system": {"damping_coefficient": damping, "spring_constant": spring, "mass": mass},
        "goal_system": {"alpha": r.uniform(10, 20, d)},
        "damping_system": {"alpha": r.uniform(3, 6, d)},
    }


# -- optimization -------------------------------------------------------------------------------
def gen_updater(rng, n_samples, dim, nonan=True):
    kind = rng.choice(["mean", "decay", "cma", "cma"])
    method = rng.choice(["PI-BB", "PI-BB", "CEM", "CMA-ES"])
    if method == "PI-BB":
        eliteness = rng.choice([1, 5, 10, 20])
    else:
        eliteness = rng.randint(1, n_samples)
    u = {"kind": kind, "weighting_method": method, "eliteness": eliteness}
    if kind == "decay":
        u["covar_decay_factor"] = rng.choice([0.5, 0.8, 0.95, 1.0, 1.0, 1.1, 1.5])
    if kind == "cma":
        u["diag_only"] = rng.random() < 0.5
        u["learning_rate"] = rng.choice([1.0, 0.5, 0.1, 0.0])
        if rng.random() < 0.6:
            u["diagonal_max"] = (
                rng.uniform(0.5, 3)
                if rng.random() < 0.5
                else [rng.uniform(0.5, 3) for _ in range(dim)]
            )
        if rng.random() < 0.6:
            u["diagonal_min"] = (
                rng.uniform(0.01, 0.4)
                if rng.random() < 0.5
                else [rng.uniform(0.01, 0.4) for _ in range(dim)]
            )
    return u


def make_updater(spec):
    kw = {k: v for k, v in spec.items() if k != "kind"}
    for k in ("diagonal_max", "diagonal_min"):
        if isinstance(kw.get(k), list):
            kw[k] = np.array(kw[k])
    cls = {
        "mean": "UpdaterMean", "decay": "UpdaterCovarDecay", "cma": "UpdaterCovarAdaptation"
    }[spec["kind"]]
    return getattr(lib, cls)(**kw)


def gen_distribution(rng, dim, bounded=None):
    spec = {
        "dim": dim,
        "seed": rng.randrange(2**31),
        "full": rng.random() < 0.5,
        "sigma": rng.choice([0.1, 1.0, 2.0]),
    }
    if bounded if bounded is not None else rng.random() < 0.4:
        spec["bounds"] = rng.choice(["scalar", "lower", "upper", "vector", "list", "mixed", "zero"])
    return spec


def dist_params(spec, mean=None):
    r = rs(spec["seed"])
    d = spec["dim"]
    m = r.uniform(-1, 1, d) if mean is None else np.array(mean, dtype=float)
    if spec["full"]:
        a = r.standard_normal((d, d)) * spec["sigma"]
        c = a @ a.T / d + 0.05 * spec["sigma"] ** 2 * np.eye(d)
        c = 0.5 * (c + c.T)
    else:
        c = np.diag(r.uniform(0.3, 1.5, d) * spec["sigma"] ** 2)
    lo = hi = None
    b = spec.get("bounds")
    if b:
        w = spec["sigma"] * r.uniform(0.3, 1.2, d)
        w2 = spec["sigma"] * r.uniform(0.3, 1.2, d)
        if b == "scalar":
            lo, hi = float(np.min(m) - w[0]), float(np.max(m) + w[0])
        elif b == "lower":
            lo = m - w
        elif b == "upper":
            hi = float(np.max(m) + w[0])
        elif b == "vector":
            lo, hi = m - w, m + w2
        elif b == "list":
            lo, hi = (m - w).tolist(), (m + w2).tolist()
        elif b == "mixed":
            lo, hi = float(np.min(m) - w[0]), m + w2
        elif b == "zero":
            if mean is None:
                m = np.abs(m) + 0.1 * w
            lo, hi = (0.0, None) if np.all(m >= 0) else (None, np.maximum(m, 0.0))
    return m, c, lo, hi


def make_distribution(spec, mean=None):
    m, c, lo, hi = dist_params(spec, mean)
    if spec.get("bounds"):
        return lib.DistributionGaussianBounded(m, c, lo, hi)
    return lib.DistributionGaussian(m, c)


# -- values stored in a session -----------------------------------------------------------------
VALUE_KINDS = [
    "vec", "vec", "mat", "mat", "col", "one", "int", "list", "listlist", "intarr", "df", "str",
    "float", "dict", "tuple", "dist", "updater", "dmp", "nested", "none", "bigvec", "special",
    "mat1row", "bigmat", "whole", "boolarr", "npint", "bool", "intkeys", "npfloat",
]
TEXT_KINDS = {
    "whole", "boolarr", "npint",
    "vec", "mat", "col", "one", "int", "list", "listlist", "intarr", "bigvec", "bigmat", "special", "mat1row"
}


def ext_of(spec):
    if spec["t"] in TEXT_KINDS:
        return "txt"
    return "csv" if spec["t"] == "df" else "json"


def gen_value(rng, kinds=None):
    t = rng.choice(kinds or VALUE_KINDS)
    spec = {"t": t, "seed": rng.randrange(2**31), "n": rng.randint(1, 6), "m": rng.randint(2, 4)}
    if t == "dmp":
        spec["dmp"] = gen_dmp(rng, small=True)
    if t == "dist":
        spec["dist"] = gen_distribution(rng, rng.randint(1, 3))
    if t == "updater":
        spec["updater"] = gen_updater(rng, 4, 2)
    return spec


def make_value(spec):
    t, n, m = spec["t"], spec.get("n", 2), spec.get("m", 2)
    r = rs(spec.get("seed", 0))

    def num(*shape):
        return r.standard_normal(shape) * 10.0 ** r.randint(-12, 12, shape)

    if t == "vec":
        return num(n)
    if t == "mat":
        return num(n, m)
    if t == "mat1row":
        return num(1, m)
    if t == "col":
        return num(n, 1)
    if t == "one":
        return num(1)
    if t == "int":
        return int(r.randint(-1000, 1000))
    if t == "npint":
        return [np.int64, np.int32, np.uint8][n % 3](r.randint(0, 200))
    if t == "bool":
        return bool(r.randint(2))
    if t == "npfloat":
        return np.float64(num(1)[0])
    if t == "intkeys":  # for instance, via-points of a task
        return {10 * n: float(num(1)[0]), 0: num(m), "name": {0.5: 1, (1, 2): "x"}}
    if t == "list":
        return [float(x) for x in num(n)]
    if t == "listlist":
        return [[float(x) for x in num(m)] for _ in range(n)]
    if t == "intarr":
        return r.randint(-(2**31), 2**31 - 1, (n,) if n % 2 else (n, m))
    if t == "bigvec":
        return num(300 + n)
    if t == "bigmat":  # a recorded movement
        return num(150 + n, 7 + m)
    if t == "whole":  # whole numbers in arrays of floats
        pool = [-0.0, 0.0, 1.0, -1.0, 7.0, 1e15, 2.0**53, 2.0**63, -(2.0**80), 1e22, 1e300]
        return np.array([pool[i] for i in r.randint(0, len(pool), n * m)]).reshape((n, m) if n % 2 else -1)
    if t == "boolarr":
        return r.randint(0, 2, n).astype(bool)
    if t == "special":
        return np.array([SPECIAL[i] for i in r.randint(0, len(SPECIAL), n)] + [np.inf, -np.inf, np.nan])
    if t == "df":
        d = {f"c{k}": num(n) for k in range(m)}
        d["i"] = r.randint(0, 100, n)
        if n % 2:
            d["s"] = [f"row {k}" for k in range(n)]
        if n > 1:
            d["c0"][0] = np.nan
        return pd.DataFrame(d)
    if t == "str":
        return "".join(chr(int(c)) for c in r.randint(32, 126, n * 3)) + "é\n"
    if t == "float":
        return float(num(1)[0])
    if t == "dict":
        return {"a": float(num(1)[0]), "b": [1, 2, {"c": "x"}], "arr": num(n)}
    if t == "tuple":
        return (1, "two", float(num(1)[0]))
    if t == "none":
        return None
    if t == "dist":
        return make_distribution(spec["dist"])
    if t == "updater":
        return make_updater(spec["updater"])
    if t == "dmp":
        dmp = make_dmp(spec["dmp"])
        if spec.get("perturb"):
            p = dmp.get_param_vector()
            dmp.set_param_vector(p + spec["perturb"])
        return dmp
    if t == "nested":
        return lib.user.Nested([float(x) for x in num(n)])
    raise HarnessError(f"unknown value kind {t}")


def mutate(obj, seed=0):
    """Modify an object in place, thoroughly.  Returns False if it is immutable."""
    if isinstance(obj, np.ndarray):
        if obj.ndim == 0:
            obj[()] = obj[()] + 7
        else:
            obj += np.asarray(7).astype(obj.dtype)
            obj.flat[0] = 77
        return True
    if isinstance(obj, list):
        if obj and isinstance(obj[0], list):
            obj[0][0] = -99.0
        elif obj:
            obj[0] = -99.0
        obj.append(obj[0] if obj else 1.0)
        return True
    if isinstance(obj, pd.DataFrame):
        obj.iloc[0, 1] = 4242.0
        obj["new"] = 1.0
        return True
    if isinstance(obj, dict):
        for v in obj.values():
            mutate(v)
        obj["extra"] = 1
        return True
    if isinstance(obj, tuple):
        done = [mutate(v) for v in obj]
        return any(done)
    if hasattr(obj, "set_param_vector") and hasattr(obj, "tau"):
        p = np.atleast_1d(obj.get_param_vector())
        if p.size:
            obj.set_param_vector(p + 3.0)
        obj.y_attr = obj.y_attr + 1.0
        obj.y_init = obj.y_init - 1.0
        obj.tau = obj.tau * 2
        return True
    if hasattr(obj, "__dict__") and not isinstance(obj, type):
        for k, v in list(vars(obj).items()):
            if isinstance(v, (np.ndarray, list, dict)):
                mutate(v)
            elif isinstance(v, float):
                setattr(obj, k, v + 1.0)
            elif isinstance(v, str):
                setattr(obj, k, v + "x")
        return True
    return False


# -- comparison ---------------------------------------------------------------------------------
def same_num(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind not in "fiub" or b.dtype.kind not in "fiub":
        return bool(np.all(a == b)) if a.dtype.kind != "O" else all(
            deep_equal(x, y) for x, y in zip(a.flat, b.flat)
        )
    a, b = a.astype(float), b.astype(float)
    nan = np.isnan(a)
    if not np.array_equal(nan, np.isnan(b)):
        return False
    ok = (a == b) | nan
    if not np.all(ok):
        return False
    return bool(np.all(np.signbit(a[~nan]) == np.signbit(b[~nan])))


def deep_equal(a, b, depth=0):
    """Equality of values, also of objects whose classes were imported by different processes."""
    if depth > 30:
        return True
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)):
            return False
        return same_num(a, b)
    if isinstance(a, bool) or isinstance(b, bool):
        return isinstance(a, (bool, np.bool_)) and isinstance(b, (bool, np.bool_)) and a == b
    if isinstance(a, numbers.Number) and isinstance(b, numbers.Number):
        return same_num(a, b)
    if isinstance(a, pd.DataFrame) or isinstance(b, pd.DataFrame):
        if not (isinstance(a, pd.DataFrame) and isinstance(b, pd.DataFrame)):
            return False
        if list(a.columns) != list(b.columns) or len(a) != len(b):
            return False
        for c in a.columns:
            x, y = a[c].to_numpy(), b[c].to_numpy()
            if x.dtype.kind in "fiub":
                if y.dtype.kind not in "fiub" or not same_num(x, y):
                    return False
            elif list(x) != list(y):
                return False
        return True
    if type(a).__name__ != type(b).__name__:
        return False
    if isinstance(a, dict):
        return set(a) == set(b) and all(deep_equal(a[k], b[k], depth + 1) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(deep_equal(x, y, depth + 1) for x, y in zip(a, b))
    if isinstance(a, (str, bytes, type(None))):
        return a == b
    if hasattr(a, "__dict__"):
        return deep_equal(vars(a), vars(b), depth + 1)
    return a == b


def stored_equal(got, expected):
    """Is this what a learning session should return for the stored object 'expected'?"""
    is_int = isinstance(expected, numbers.Integral) and not isinstance(expected, bool)
    if is_int or isinstance(expected, (np.ndarray, list)):
        if isinstance(expected, np.ndarray) and not isinstance(got, np.ndarray):
            return False
        if not isinstance(got, (np.ndarray, list, numbers.Integral)):
            return False
        return same_num(as_stored(got), as_stored(expected))
    return deep_equal(got, expected)


def as_stored(x):
    x = np.atleast_1d(np.asarray(x))
    if x.ndim == 2 and x.shape[1] == 1:
        x = x[:, 0]
    return x


def brief(x):
    s = repr(x)
    if hasattr(x, "__dict__") and not isinstance(x, pd.DataFrame):
        s = f"{type(x).__name__} {vars(x)!r}"
    return s.replace("\n", " ")[:160]
