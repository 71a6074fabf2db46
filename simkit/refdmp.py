"""Independent reference model of a DMP (written from the documentation and the papers).

The state is kept in named parts; the differential equations are evaluated for all dimensions
separately, with nothing but the standard library's and numpy's elementary functions.
"""

import math

import numpy as np

SPRING_TYPES = {
    "IJSPEERT_2002_MOVEMENT": ("exp", "exp", None, False),
    "KULVICIUS_2012_JOINING": ("up", "sigmoid", "exp", False),
    "COUNTDOWN_2013": ("down", "sigmoid", "exp", False),
    "2022": ("down", "richards", "scaled", False),
    "2022_NO_SCALING": ("down", "richards", "unscaled", False),
    "2022_DAMPING": ("down", "richards", "scaled", True),
    "SCT23_NO_SCALING_DAMPING": ("down", "richards", "unscaled", True),
}
PARTS = ("y", "z", "goal", "phase", "gating", "damping")


def is_unscaled_richards(dmp_type):
    return SPRING_TYPES[dmp_type][2] == "unscaled"


def max_step(dmp_type):
    """Largest step (relative to tau) for which Runge-Kutta integration is numerically stable."""
    return 0.02 if SPRING_TYPES[dmp_type][1] == "richards" else 0.08


def richards_left(x0, right, t_infl, alpha, v):
    """Left asymptote for which the system starting at x0 has its inflection at t_infl (x tau)."""
    z = (v * math.exp(alpha * v * t_infl) + 1.0) ** (1.0 / v)
    return (z * x0 - right) / (z - 1.0)


def richards_rate(x, left, right, alpha, v):
    r = (x - left) / (right - left)
    if v == 1.0:
        return alpha * (1.0 - r) * (x - left)
    return alpha * (1.0 - math.copysign(abs(r) ** v, r if v % 2 else 1.0)) * (x - left)


class FaModel:
    """Function approximator of one output: parameters by name."""

    def __init__(self, kind, params):
        self.kind = kind
        self.p = params

    def predict(self, x):
        c, w = self.p["centers"], self.p["widths"]
        act = [math.exp(-0.5 * (x - ci) ** 2 / (wi * wi)) for ci, wi in zip(c, w)]
        if self.kind == "RBFN":
            return math.fsum(a * wt for a, wt in zip(act, self.p["weights"]))
        s = math.fsum(act)
        if len(act) == 1 or s == 0.0:
            act = [1.0 / len(act)] * len(act)
        else:
            act = [a / s for a in act]
        return math.fsum(
            a * (sl * x + o) for a, sl, o in zip(act, self.p["slopes"], self.p["offsets"])
        )

    def scale(self, x):
        names = ["weights"] if self.kind == "RBFN" else ["offsets", "slopes"]
        return sum(float(np.sum(np.abs(self.p[n]))) for n in names)


FA_NAMES = {"RBFN": ["centers", "widths", "weights"], "LWR": ["centers", "widths", "offsets", "slopes"]}


class Untrained:
    """A function approximator without data does not contribute."""

    p = None

    def predict(self, x):
        return 0.0

    def scale(self, x):
        return 0.0


def read_fas(kind, vector, n_fas, n_bfs):
    """From the vector of all parameters of n_fas function approximators."""
    out, off = [], 0
    vector = np.asarray(vector, dtype=float)
    for _ in range(n_fas):
        params = {}
        for name in FA_NAMES[kind]:
            params[name] = vector[off : off + n_bfs].copy()
            off += n_bfs
        out.append(FaModel(kind, params))
    if off != vector.size:
        raise ValueError(f"expected {off} parameters, got {vector.size}")
    return out


class RefDmp:
    def __init__(self, spec, tau, y_init, y_attr, amplitudes, fas, scheds=(), per_dim=None):
        self.spec = spec
        self.tau = float(tau)
        self.y0 = np.array(y_init, dtype=float)
        self.g = np.array(y_attr, dtype=float)
        self.amp = None if amplitudes is None else np.array(amplitudes, dtype=float)
        self.fas = fas  # None if not trained
        self.scheds = list(scheds)
        self.phase, self.gating, self.goal, self.damping = SPRING_TYPES[spec["type"]]
        d0 = float(spec.get("alpha", 20.0))
        self.dim = self.y0.size
        self.d_end = np.full(self.dim, d0)  # of the damping system
        self.dc = np.full(self.dim, d0)
        self.k = np.full(self.dim, d0**2 / 4)
        self.m = np.ones(self.dim)
        self.goal_alpha = np.full(self.dim, 15.0)
        self.damping_alpha = np.full(self.dim, 4.0)
        self.changed = []
        if per_dim:
            self.set_systems(per_dim)
            self.changed = []
        self.scaling = spec.get("scaling", "NO_SCALING")

    # -- parameters -------------------------------------------------------------------------
    def set_systems(self, params):
        """Parameters of subsystems: numbers for all dimensions, or one for each."""
        self.changed.append(params)
        for system, name, attr in (("spring_system", "damping_coefficient", "dc"),
                                   ("spring_system", "spring_constant", "k"),
                                   ("spring_system", "mass", "m"), ("goal_system", "alpha", "goal_alpha"),
                                   ("damping_system", "alpha", "damping_alpha")):
            if name in params.get(system, {}):
                setattr(self, attr, np.ones(self.dim) * params[system][name])

    def set_params(self, values, selected):
        """The documented order: per function approximator, per name; goal; then schedules."""
        values = np.asarray(values, dtype=float)
        off = 0

        def fill(fas, names):
            nonlocal off
            for fa in fas:
                for n in names if fa.p else ():
                    size = fa.p[n].size
                    fa.p[n] = values[off : off + size].copy()
                    off += size

        fill(self.fas or [], [n for n in selected if n != "goal" and not n.startswith("sched_")])
        if "goal" in selected:
            self.g = values[off : off + self.dim].copy()
            off += self.dim
        fill(self.scheds, [n[6:] for n in selected if n.startswith("sched_")])
        if off != values.size:
            raise ValueError("size of parameter vector")

    # -- dynamics ---------------------------------------------------------------------------
    def start(self):
        one = np.ones(1)
        s = {"y": self.y0.copy(), "z": np.zeros(self.dim)}
        s["goal"] = {
            None: self.g, "exp": self.y0, "scaled": np.zeros(self.dim), "unscaled": self.y0
        }[self.goal].copy()
        s["phase"] = 0 * one if self.phase == "up" else one
        s["gating"] = one
        s["damping"] = 0.1 * self.d_end if self.damping else self.dc.copy()
        return s

    def forcing(self, phase, gating):
        f = np.zeros(self.dim)
        for i in range(self.dim):
            f[i] = self.fas[i].predict(phase) * gating if self.fas else 0.0
            if self.scaling == "G_MINUS_Y0_SCALING":
                f[i] *= self.g[i] - self.y0[i]
            elif self.scaling == "AMPLITUDE_SCALING":
                f[i] *= self.amp[i]
        return f

    def rates(self, s):
        tau = self.tau
        phase, gating = float(s["phase"][0]), float(s["gating"][0])
        xd = {}
        if self.phase == "exp":
            pd = -4.0 * phase / tau
        elif self.phase == "up":
            pd = 1.0 / tau if phase < 1.0 else 0.0
        else:
            pd = -1.0 / tau if phase > 0.0 else 0.0
        xd["phase"] = np.array([pd])
        if self.gating == "exp":
            gd = -4.0 * gating / tau
        elif self.gating == "sigmoid":
            d = 1e-6
            r = -math.log((((1 + d) / 0.1) - 1) / d)  # times tau
            gd = r * gating * (1.0 - gating / (1.0 + d)) / tau
        else:
            gd = richards_rate(gating, richards_left(1.0, 0.0, 1.0, 10.0, 10.0), 0.0, 10.0, 10.0)
            gd /= tau
        xd["gating"] = np.array([gd])
        goal = s["goal"]
        gl = np.zeros(self.dim)
        for i in range(self.dim):
            if self.goal == "exp":
                gl[i] = self.goal_alpha[i] * (self.g[i] - goal[i]) / tau
            elif self.goal == "scaled":
                gl[i] = richards_rate(goal[i], richards_left(0.0, 1.0, 0.3, 10.0, 1.0), 1.0, 10.0, 1.0)
                gl[i] /= tau
            elif self.goal == "unscaled":
                left = richards_left(self.y0[i], self.g[i], 0.3, 10.0, 1.0)
                gl[i] = richards_rate(goal[i], left, self.g[i], 10.0, 1.0) / tau
        xd["goal"] = gl
        if self.goal is None:
            target = self.g
        elif self.goal == "scaled":
            target = self.y0 + (self.g - self.y0) * goal
        else:
            target = goal
        xd["damping"] = (
            self.damping_alpha * (self.d_end - s["damping"]) / tau if self.damping else np.zeros(self.dim)
        )
        dc = s["damping"] if self.damping else self.dc
        f = self.forcing(phase, gating)
        xd["y"] = s["z"] / tau
        xd["z"] = ((-self.k * (s["y"] - target) - dc * s["z"]) / self.m + f) / tau
        return xd

    def step(self, dt, s, euler=False):
        """Returns the new state, its rates, and whether a phase switch was too close to call."""
        stages = [s]

        def add(s, f, k):
            return {p: s[p] + f * k[p] for p in PARTS}

        k1 = self.rates(s)
        if euler:
            return add(s, dt, k1), k1, self.ambiguous(stages)
        s2 = add(s, 0.5 * dt, k1)
        k2 = self.rates(s2)
        s3 = add(s, 0.5 * dt, k2)
        k3 = self.rates(s3)
        s4 = add(s, dt, k3)
        k4 = self.rates(s4)
        new = {p: s[p] + dt * (k1[p] + 2 * k2[p] + 2 * k3[p] + k4[p]) / 6.0 for p in PARTS}
        stages += [s2, s3, s4, new]
        return new, self.rates(new), self.ambiguous(stages)

    def ambiguous(self, stages):
        if self.phase == "exp":
            return False
        sw = 1.0 if self.phase == "up" else 0.0
        return any(abs(float(s["phase"][0]) - sw) < 1e-9 for s in stages)

    def scales(self, s, xd):
        """Magnitudes of the terms that are added up, for each part."""
        a = {p: 1e-300 + float(np.max(np.abs(s[p]))) for p in PARTS}
        span = a["y"] + float(np.max(np.abs(self.g))) + float(np.max(np.abs(self.y0))) + a["goal"]
        f = float(np.max(np.abs(self.forcing(float(s["phase"][0]), float(s["gating"][0])))))
        fmax = 0.0
        if self.fas:
            fmax = max(fa.scale(0) for fa in self.fas) * (1 + span) * abs(float(s["gating"][0]))
            if self.scaling == "AMPLITUDE_SCALING":
                fmax *= 1 + float(np.max(self.amp))
        goal = 30 * (span + a["goal"])
        if self.goal == "unscaled":  # ill-conditioned if goal and start are close
            left = [richards_left(y, g, 0.3, 10.0, 1.0) for y, g in zip(self.y0, self.g)]
            gap = min(abs(g - lf) for g, lf in zip(self.g, left))
            goal *= 1.0 + 100.0 * (span + a["goal"]) / (gap + 1e-300)
        k, d = float(np.max(self.k / self.m)), float(np.max(self.d_end))
        d = max(d, float(np.max(self.dc))) / float(np.min(self.m))
        return {
            "y": span + a["z"], "z": k * span + d * a["z"] + f + fmax + a["z"],
            "goal": goal, "phase": 1.0, "gating": 1.0, "damping": 1 + d,
        }
