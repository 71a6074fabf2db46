"""Helpers for the demonstration: run with cwd = root of the repository."""
import copy
import io
import os
import shutil
import subprocess
import sys
import tempfile
from contextlib import contextmanager, redirect_stdout

sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
os.environ.setdefault("MPLBACKEND", "Agg")
import numpy as np

import dmpbbo
assert os.path.abspath(dmpbbo.__file__).startswith(os.getcwd()), dmpbbo.__file__
import dmpbbo.json_for_cpp as jc
from dmpbbo.bbo.CostFunction import CostFunction
from dmpbbo.bbo.DistributionGaussian import DistributionGaussian
from dmpbbo.bbo.DistributionGaussianBounded import DistributionGaussianBounded
from dmpbbo.bbo.LearningSession import LearningSession
from dmpbbo.bbo.run_optimization import run_optimization
from dmpbbo.bbo.updaters import *
from dmpbbo.bbo_of_dmps.LearningSessionTask import LearningSessionTask
from dmpbbo.bbo_of_dmps.run_optimization_task import run_optimization_task
from dmpbbo.bbo_of_dmps.step_by_step_optimization import prepare_optimization, update_step
from dmpbbo.bbo_of_dmps.Task import Task
from dmpbbo.bbo_of_dmps.TaskSolverDmp import TaskSolverDmp
from dmpbbo.dmps.Dmp import Dmp
from dmpbbo.dmps.DmpContextualTwoStep import DmpContextualTwoStep
from dmpbbo.dmps.DmpWithSchedules import DmpWithSchedules
from dmpbbo.dmps.Trajectory import Trajectory
from dmpbbo.dynamicalsystems.ExponentialSystem import ExponentialSystem
from dmpbbo.dynamicalsystems.RichardsSystem import RichardsSystem
from dmpbbo.dynamicalsystems.SigmoidSystem import SigmoidSystem
from dmpbbo.dynamicalsystems.SpringDamperSystem import SpringDamperSystem
from dmpbbo.dynamicalsystems.TimeSystem import TimeSystem
from dmpbbo.functionapproximators.FunctionApproximatorLWR import FunctionApproximatorLWR
from dmpbbo.functionapproximators.FunctionApproximatorGPR import FunctionApproximatorGPR
from dmpbbo.functionapproximators.FunctionApproximatorRBFN import FunctionApproximatorRBFN
from dmpbbo.functionapproximators.FunctionApproximatorWLS import FunctionApproximatorWLS


class ViapointTask(Task):
    def evaluate_rollout(self, cost_vars, sample):
        cost_vars = np.asarray(cost_vars)
        dist = float(np.sum((cost_vars[len(cost_vars) // 2, 1:2] - 0.7) ** 2))
        reg = 0.01 * float(np.sum(np.square(sample)))
        return [dist + reg, dist, reg]

    def get_cost_labels(self):
        return ["distance", "regularization"]


class Quadratic(CostFunction):
    def evaluate(self, sample):
        return [float(np.sum(np.square(sample - 1.0)))]


def demonstration(dim=2, tau=1.0, n=101):
    goal = np.array([1.0, -2.0, 0.5])[:dim]
    return Trajectory.from_min_jerk(np.linspace(0, tau, n), np.zeros(dim), goal)


def make_dmp(dim=2, select=("weights",), n_bfs=4, cls=FunctionApproximatorRBFN, tau=1.0, **kwargs):
    fas = [cls(n_bfs) for _ in range(dim)]
    dmp = Dmp.from_traj(demonstration(dim, tau), fas, **kwargs)
    if select:
        dmp.set_selected_param_names(list(select))
    return dmp


def solver_for(dmp, dt=0.05):
    return TaskSolverDmp(dmp, dt, 1.2)


def distribution_for(dmp, std=5.0):
    mean = dmp.get_param_vector()
    return DistributionGaussian(mean, std ** 2 * np.eye(mean.size))


def prepare(directory, n_samples=4, dim=2, updater=None, dmp=None, seed=1, std=5.0, **kwargs):
    dmp = dmp or make_dmp(dim)
    np.random.seed(seed)
    with quiet():
        return prepare_optimization(
            directory, ViapointTask(), solver_for(dmp), distribution_for(dmp, std), n_samples,
            updater or UpdaterCovarDecay(eliteness=10), dmp, **kwargs)


def rollout(directory, i_update, label):
    """The robot: executes one DMP of a batch in another process."""
    session = LearningSessionTask.from_dir(directory)
    dmp = session.ask("dmp", i_update, label)
    solver = session.ask("task_solver")
    session.tell(solver.perform_rollout_dmp(dmp), "cost_vars", i_update, label)


def rollouts(directory, i_update, n_samples=4, skip=()):
    for label in list(range(n_samples)) + ["eval"]:
        if label not in skip:
            rollout(directory, i_update, label)


def step(directory, i_update, seed=None, **kwargs):
    if seed is not None:
        np.random.seed(seed)
    with quiet():
        update_step(LearningSessionTask.from_dir(directory), i_update, **kwargs)


@contextmanager
def quiet():
    with redirect_stdout(io.StringIO()):
        yield


@contextmanager
def tmp():
    d = tempfile.mkdtemp(prefix="demo-")
    try:
        yield os.path.join(d, "session")
    finally:
        shutil.rmtree(d)


def same(a, b, tol=0.0):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol))


def expect(ok, text):
    if not ok:
        print("FAIL:", text)
        sys.exit(1)


def cpp_program(main, d):
    """Compile a C++ program with all of src/, and return its path."""
    import glob
    from concurrent.futures import ThreadPoolExecutor
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "main.cpp"), "w") as f:
        f.write(main)
    files = sorted(glob.glob("src/*/*.cpp")) + [os.path.join(d, "main.cpp")]

    def compile(i_f):
        i, f = i_f
        o = os.path.join(d, f"{i}.o")
        subprocess.run(["g++", "-std=c++11", "-O1", "-w", "-Isrc", "-c", f, "-o", o], check=True)
        return o

    with ThreadPoolExecutor(8) as ex:
        objects = list(ex.map(compile, enumerate(files)))
    exe = os.path.join(d, "prog")
    subprocess.run(["g++", *objects, "-lboost_filesystem", "-lboost_system", "-o", exe], check=True)
    return exe
