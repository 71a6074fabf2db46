"""Independent reference implementation of training function approximators (vectorised)."""

import itertools
import math

import numpy as np


class Unsure(Exception):
    """The least-squares problem is too ill-conditioned to compare solutions."""


def basis(x, n_bfs, height):
    """Centers and widths on a grid over the range of the inputs; the last dimension runs fastest."""
    x = x.reshape(len(x), -1)
    d = x.shape[1]
    n = [int(v) for v in np.atleast_1d(n_bfs)]
    n = n * d if len(n) == 1 else n
    per_dim = []
    for i in range(d):
        lo, hi = float(x[:, i].min()), float(x[:, i].max())
        if n[i] == 1:
            per_dim.append([(lo, 1.0)])
            continue
        gap = (hi - lo) / (n[i] - 1)
        w = gap / math.sqrt(-8.0 * math.log(height))
        per_dim.append([(lo + k * gap, w) for k in range(n[i])])
    grid = list(itertools.product(*per_dim))
    return (np.array([[c for c, _ in p] for p in grid]),
            np.array([[w for _, w in p] for p in grid]))


def gauss(x, centers, widths):
    x = x.reshape(len(x), -1)
    u = (x[:, None, :] - centers[None, :, :]) / widths[None, :, :]
    return np.exp(-0.5 * np.sum(u * u, axis=2))


def normalize(a):
    if a.shape[1] == 1:
        return np.ones_like(a)
    s = a.sum(axis=1, keepdims=True)
    return np.where(s == 0.0, 1.0 / a.shape[1], a / np.where(s == 0.0, 1.0, s))


def solve(design, targets, reg, weights=None):
    """Regularised weighted least squares; also the condition number of the problem."""
    w = np.ones(len(targets)) if weights is None else np.asarray(weights, dtype=float)
    m = design.T @ (w[:, None] * design) + reg * np.eye(design.shape[1])
    s = np.linalg.svd(m, compute_uv=False)
    cond = s[0] / max(s[-1], 1e-300)
    if not np.isfinite(cond) or cond > 1e12:
        raise Unsure()
    return np.linalg.solve(m, design.T @ (w * targets)), cond


class RefFa:
    def __init__(self, kind, n_bfs=None, height=None, reg=0.0, offset=True, lengths=None,
                 max_covariance=1.0):
        self.kind, self.n_bfs, self.height, self.reg = kind, n_bfs, height, reg
        self.offset, self.lengths, self.max_covariance = offset, lengths, max_covariance
        self.cond = 1.0

    def train(self, x, y, weights=None):
        x = np.array(x, dtype=float).reshape(len(x), -1)
        y = np.array(y, dtype=float).reshape(-1)
        if self.kind == "WLS":
            design = np.column_stack((x, np.ones(len(x)))) if self.offset else x
            b, self.cond = solve(design, y, self.reg, weights)
            self.slope = b[: x.shape[1]]
            self.off = b[-1] if self.offset else 0.0
        elif self.kind == "RBFN":
            self.c, self.w = basis(x, self.n_bfs, self.height)
            self.weights, self.cond = solve(gauss(x, self.c, self.w), y, self.reg)
        elif self.kind == "LWR":
            self.c, self.w = basis(x, self.n_bfs, self.height)
            act = normalize(gauss(x, self.c, self.w))
            design = np.column_stack((x, np.ones(len(x))))
            self.lines = []
            for k in range(act.shape[1]):
                b, cond = solve(design, y, self.reg, act[:, k])
                self.cond = max(self.cond, cond)
                self.lines.append(b)
            self.lines = np.array(self.lines)
        else:
            self.c, self.w = x, np.full(x.shape, self.lengths)
            gram = self.max_covariance * gauss(x, self.c, self.w)
            self.cond = np.linalg.cond(gram)
            if not np.isfinite(self.cond) or self.cond > 1e12:
                raise Unsure()
            self.weights = np.linalg.solve(gram, y)
        return self

    def predict(self, x):
        return self.terms(x).sum(axis=1)

    def terms(self, x):
        """The numbers that are added up."""
        x = np.array(x, dtype=float).reshape(len(x), -1)
        if self.kind == "WLS":
            return np.column_stack((x * self.slope, np.full(len(x), self.off)))
        a = gauss(x, self.c, self.w)
        if self.kind == "LWR":
            return normalize(a) * (x @ self.lines[:, :-1].T + self.lines[:, -1])
        return a * self.weights * (self.max_covariance if self.kind == "GPR" else 1.0)

    def scale(self, x):
        """Magnitude of the numbers that are added up."""
        x = np.array(x, dtype=float).reshape(len(x), -1)
        if self.kind == "WLS":
            return float(np.max(np.abs(x) @ np.abs(self.slope) + abs(self.off)))
        if self.kind == "LWR":
            return float(np.max(np.abs(x) @ np.abs(self.lines[:, :-1]).T + np.abs(self.lines[:, -1])))
        return float(np.sum(np.abs(self.weights))) * (
            self.max_covariance if self.kind == "GPR" else 1.0)
