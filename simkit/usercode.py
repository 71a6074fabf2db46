"""Code that a user of dmpbbo writes: cost functions, tasks, solvers (imported as "simuser")."""

import numpy as np

from dmpbbo.bbo.CostFunction import CostFunction
from dmpbbo.bbo_of_dmps.Task import Task
from dmpbbo.bbo_of_dmps.TaskSolver import TaskSolver


class SimCost(CostFunction):
    """Quadratic cost with optional components; may raise at a given evaluation."""

    calls = 0

    def __init__(self, target, n_components=0, as_scalar=False, noise=0.0, as_array=False):
        self.target = np.asarray(target, dtype=float)
        self.n_components = n_components
        self.as_scalar = as_scalar
        self.noise = noise
        self.as_array = as_array

    def evaluate(self, sample):
        hook = SimCost.hook
        if hook is not None:
            hook(sample)
        err = np.asarray(sample, dtype=float) - self.target
        parts = [float(np.sum(np.abs(err) ** (1 + k))) for k in range(max(1, self.n_components))]
        total = float(np.sum(parts))
        if self.noise:
            total += self.noise * float(np.random.standard_normal())
        if SimCost.nan_at is not None and SimCost.calls == SimCost.nan_at:
            total = float("nan")
        SimCost.calls += 1
        if self.as_scalar:
            out = total
        elif self.n_components == 0:
            out = [total]
        else:
            out = [total] + parts
        if self.as_array:
            out = np.array(out)
        note(sample, None, out)
        return out

    def get_cost_labels(self):
        return [f"part {k}" for k in range(self.n_components)]


SimCost.hook = None  # called with each sample before it is evaluated
SimCost.log = None  # list of [sample, cost-relevant variables, costs] of all evaluations
SimCost.nan_at = None


def note(sample, cost_vars, costs):
    if SimCost.log is not None:
        cv = None if cost_vars is None else np.array(cost_vars, dtype=float)
        SimCost.log.append([np.array(sample, dtype=float), cv, np.array(costs, dtype=float)])


class SimTask(Task):
    """Cost of a rollout: distance to a via-point, accelerations, regularisation."""

    def __init__(self, viapoint, weight=1.0, n_components=2, as_array=False):
        self.viapoint = np.asarray(viapoint, dtype=float)
        self.weight = weight
        self.n_components = n_components
        self.as_array = as_array
        self.labels = ["via", "acc", "reg"][:n_components]

    def evaluate_rollout(self, cost_vars, sample):
        hook = SimCost.hook
        if hook is not None:
            hook(sample)
        cv = np.asarray(cost_vars, dtype=float)
        cv = cv.reshape(len(cv), -1) if cv.ndim else cv.reshape(1, 1)
        d = self.viapoint.size
        n = cv.shape[0]
        y = cv[n // 2, 1 : 1 + d] if cv.shape[1] > d else cv[n // 2, :1]
        c_via = float(np.sum((y - self.viapoint[: y.size]) ** 2))
        c_acc = 1e-4 * float(np.mean(np.abs(cv[:, -1])))
        c_reg = 1e-3 * float(np.sum(np.asarray(sample, dtype=float) ** 2))
        parts = [self.weight * c_via, c_acc, c_reg][: self.n_components]
        total = float(np.sum(parts)) if self.n_components else self.weight * c_via
        if SimCost.nan_at is not None and SimCost.calls == SimCost.nan_at:
            total = float("nan")
        SimCost.calls += 1
        costs = [total] + parts
        note(sample, cost_vars, costs)
        return np.array(costs) if self.as_array else costs

    def get_cost_labels(self):
        return self.labels


class SimSolver(TaskSolver):
    """A task solver without a DMP: the rollout is a noisy function of the sample."""

    def __init__(self, dim, length=7, noise=0.0):
        self.dim = dim
        self.length = length
        self.noise = noise

    def perform_rollout(self, sample):
        hook = SimSolver.hook
        if hook is not None:
            hook(sample)
        s = np.resize(np.asarray(sample, dtype=float), self.dim)
        t = np.linspace(0, 1, self.length)[:, None]
        ys = s[None, :] * t + 0.1 * np.sin(5 * t)
        if self.noise:
            ys = ys + self.noise * np.random.standard_normal(ys.shape)
        return np.concatenate((t, ys, -ys), axis=1)


SimSolver.hook = None


class Nested:
    """Any object a user may store."""

    def __init__(self, value):
        self.value = value
        self.items = {"a": [1, 2.5, None], "b": {"c": np.array(value)}}
