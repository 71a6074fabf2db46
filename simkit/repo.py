"""Access to the code under test: /repo's current working tree.

Every simulated process gets its own instances of all dmpbbo modules and of the simulated user code
(simkit/usercode.py, imported under the name "simuser").  The sources are compiled once per worker.
"""

import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

ROOT = os.environ.get("VERIF_REPO", "/repo")
_HERE = os.path.dirname(os.path.abspath(__file__))
_PREFIXES = ("dmpbbo", "simuser")
_code_cache = {}


def is_ours(name):
    return name.split(".")[0] in _PREFIXES


def _locate(fullname):
    if fullname == "simuser":
        return os.path.join(_HERE, "usercode.py"), False
    base = os.path.join(ROOT, *fullname.split("."))
    if os.path.isfile(os.path.join(base, "__init__.py")):
        return os.path.join(base, "__init__.py"), True
    if os.path.isfile(base + ".py"):
        return base + ".py", False
    if os.path.isdir(base):
        return base, True  # namespace package
    return None, False


class _Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        if os.path.isdir(self.path):
            return
        code = _code_cache.get(self.path)
        if code is None:
            with _real_open(self.path, "rb") as f:
                code = compile(f.read(), self.path, "exec", dont_inherit=True)
            _code_cache[self.path] = code
        exec(code, module.__dict__)


class _Finder(importlib.abc.MetaPathFinder):
    locations = {}

    def find_spec(self, fullname, path=None, target=None):
        if not is_ours(fullname):
            return None
        if fullname not in self.locations:
            self.locations[fullname] = _locate(fullname)
        filename, is_pkg = self.locations[fullname]
        if filename is None:
            return None
        spec = importlib.machinery.ModuleSpec(
            fullname, _Loader(filename), origin=filename, is_package=is_pkg
        )
        spec.has_location = os.path.isfile(filename)
        if is_pkg:
            spec.submodule_search_locations = [os.path.join(ROOT, *fullname.split("."))]
        return spec


_real_open = open
_installed = False


def install():
    global _installed
    if not _installed:
        sys.meta_path.insert(0, _Finder())
        _installed = True


def new_process_modules():
    """An empty module table for a new simulated process."""
    return {}


_active = None


def switch_to(proc):
    """Make the module instances of a process the current ones."""
    global _active
    _stash()
    _active = proc
    if proc is not None:
        sys.modules.update(proc.modules)


def _stash():
    ours = [n for n in sys.modules if n.startswith(_PREFIXES) and is_ours(n)]
    if _active is not None:
        mods = _active.modules
        for n in ours:
            mods[n] = sys.modules.pop(n)
    else:
        for n in ours:
            _base[n] = sys.modules.pop(n)


_base = {}  # module instances used outside of simulated processes


def leave_process():
    global _active
    _stash()
    _active = None
    sys.modules.update(_base)


class Lib:
    """Lazy access to the classes of the code under test, for the *current* process."""

    _where = {
        "LearningSession": "dmpbbo.bbo.LearningSession",
        "LearningSessionTask": "dmpbbo.bbo_of_dmps.LearningSessionTask",
        "run_optimization": "dmpbbo.bbo.run_optimization",
        "run_optimization_task": "dmpbbo.bbo_of_dmps.run_optimization_task",
        "prepare_optimization": "dmpbbo.bbo_of_dmps.step_by_step_optimization",
        "update_step": "dmpbbo.bbo_of_dmps.step_by_step_optimization",
        "DistributionGaussian": "dmpbbo.bbo.DistributionGaussian",
        "DistributionGaussianBounded": "dmpbbo.bbo.DistributionGaussianBounded",
        "UpdaterMean": "dmpbbo.bbo.updaters",
        "UpdaterCovarDecay": "dmpbbo.bbo.updaters",
        "UpdaterCovarAdaptation": "dmpbbo.bbo.updaters",
        "costs_to_weights": "dmpbbo.bbo.updaters",
        "Dmp": "dmpbbo.dmps.Dmp",
        "DmpWithSchedules": "dmpbbo.dmps.DmpWithSchedules",
        "DmpContextualTwoStep": "dmpbbo.dmps.DmpContextualTwoStep",
        "Trajectory": "dmpbbo.dmps.Trajectory",
        "FunctionApproximatorGPR": "dmpbbo.functionapproximators.FunctionApproximatorGPR",
        "FunctionApproximatorWLS": "dmpbbo.functionapproximators.FunctionApproximatorWLS",
        "FunctionApproximatorRBFN": "dmpbbo.functionapproximators.FunctionApproximatorRBFN",
        "FunctionApproximatorLWR": "dmpbbo.functionapproximators.FunctionApproximatorLWR",
        "TaskSolverDmp": "dmpbbo.bbo_of_dmps.TaskSolverDmp",
        "ExponentialSystem": "dmpbbo.dynamicalsystems.ExponentialSystem",
        "RichardsSystem": "dmpbbo.dynamicalsystems.RichardsSystem",
        "SigmoidSystem": "dmpbbo.dynamicalsystems.SigmoidSystem",
        "SpringDamperSystem": "dmpbbo.dynamicalsystems.SpringDamperSystem",
        "TimeSystem": "dmpbbo.dynamicalsystems.TimeSystem",
    }

    def __getattr__(self, name):
        import importlib

        if name == "jc":
            return importlib.import_module("dmpbbo.json_for_cpp")
        if name == "user":
            return importlib.import_module("simuser")
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(importlib.import_module(self._where[name]), name)


lib = Lib()
