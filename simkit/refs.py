"""Independent reference implementations (written from the documentation, not from the code)."""

import math

import numpy as np


def total_costs(costs):
    out = []
    for c in costs:
        while isinstance(c, (list, tuple, np.ndarray)) and np.ndim(c) > 0:
            c = c[0]
        out.append(float(c))
    return out


def weights(costs, method, eliteness):
    """Weights for total costs; None if ties make rank-based weights ambiguous."""
    c = total_costs(costs)
    n = len(c)
    if method == "PI-BB":
        lo, hi = min(c), max(c)
        if hi == lo:
            return [1.0 / n] * n
        w = [math.exp(-eliteness * (x - lo) / (hi - lo)) for x in c]
    else:
        order = sorted(range(n), key=lambda i: c[i])
        if len(set(c)) < n:
            return None
        w = [0.0] * n
        for rank, i in enumerate(order[: int(eliteness)]):
            w[i] = 1.0 if method == "CEM" else math.log(eliteness + 0.5) - math.log(rank + 1)
    s = math.fsum(w)
    return [x / s for x in w]


def mean_new(samples, w):
    samples = np.asarray(samples, dtype=float)
    return np.array(
        [math.fsum(w[i] * samples[i, j] for i in range(len(w))) for j in range(samples.shape[1])]
    )


def covar_sample(mean, samples, w):
    samples = np.asarray(samples, dtype=float)
    d = samples.shape[1]
    c = np.zeros((d, d))
    for i in range(len(w)):
        e = samples[i] - mean
        c += w[i] * np.outer(e, e)
    return c


def close(a, b, rtol=1e-9, atol=1e-12):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    scale = max(1e-300, float(np.max(np.abs(b))) if b.size else 0.0)
    return bool(np.all(np.abs(a - b) <= rtol * scale + atol * min(1.0, scale)))


def cpp_view(obj):
    """What the C++-readable file should contain for an object."""
    if isinstance(obj, np.ndarray):
        return obj.tolist()
    if isinstance(obj, (np.floating, np.integer, np.bool_)):
        return obj.item()
    if isinstance(obj, (str, int, float, bool, type(None))):
        return obj
    if isinstance(obj, (list, tuple)):
        return [cpp_view(x) for x in obj]
    if isinstance(obj, dict):
        return {str(k): cpp_view(v) for k, v in obj.items()}
    d = {"class": type(obj).__name__}
    d.update({k: cpp_view(v) for k, v in vars(obj).items()})
    return d


def plausible(samples, mean, covar, lower=None, upper=None):
    """Could these samples have been drawn from the distribution?  Returns None or a reason."""
    samples = np.asarray(samples, dtype=float)
    n, d = samples.shape
    sd = np.sqrt(np.maximum(np.diag(covar), 0))
    inside = np.ones_like(samples, dtype=bool)
    if lower is not None:
        inside &= samples > np.broadcast_to(np.asarray(lower, float), (d,)) + 0.0
    if upper is not None:
        inside &= samples < np.broadcast_to(np.asarray(upper, float), (d,))
    z = np.abs(samples - mean) - 1e-9 * (1 + np.abs(mean))
    bad = inside & (z > 9.0 * sd + 1e-12)
    if np.any(bad):
        return f"sample deviates {np.max(z / (sd + 1e-300)):.1f} standard deviations from the mean"
    if lower is None and upper is None:
        # the whole vector: Mahalanobis distance
        w, v = np.linalg.eigh(0.5 * (covar + covar.T))
        w = np.maximum(w, 0)
        proj = (samples - mean) @ v
        tol = 1e-7 * math.sqrt(max(float(np.max(w)), 1e-300))
        zz = np.abs(proj) - tol
        if np.any(zz > 9.0 * np.sqrt(w)):
            return "sample outside of the ellipsoid of the distribution"
    if n >= 40:
        ok = np.all(inside, axis=0) & (sd > 1e-12)
        if np.any(ok):
            zm = (samples.mean(0) - mean)[ok] / (sd[ok] / math.sqrt(n))
            if np.any(np.abs(zm) > 7):
                return f"mean of {n} samples is {np.max(np.abs(zm)):.1f} sigma off"
            r = samples.std(0)[ok] / sd[ok]
            tol = 7 / math.sqrt(2 * n)
            if np.any(r > 1 + tol) or np.any(r < max(0.0, 1 - tol)):
                return f"standard deviation of {n} samples is {r} times that of the distribution"
    return None
