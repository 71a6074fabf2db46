"""Registry of the checks."""
import importlib

REGISTRY = {
    "S01": ("checks.sessions", "S01"),
    "S02": ("checks.sessions", "S02"),
    "S03": ("checks.sessions", "S03"),
    "S04": ("checks.sessions", "S04"),
    "O01": ("checks.stepwise", "O01"),
    "O02": ("checks.stepwise", "O02"),
    "O03": ("checks.stepwise", "O03"),
    "O04": ("checks.stepwise", "O04"),
    "O05": ("checks.loops", "O05"),
    "O06": ("checks.loops", "O06"),
    "U01": ("checks.updates", "U01"),
    "U02": ("checks.updates", "U02"),
    "D01": ("checks.control", "D01"),
    "D02": ("checks.control", "D02"),
    "D03": ("checks.control", "D03"),
    "D04": ("checks.control", "D04"),
    "D05": ("checks.control", "D05"),
    "D06": ("checks.control", "D06"),
    "D07": ("checks.control", "D07"),
    "D08": ("checks.control", "D08"),
    "D09": ("checks.systems", "D09"),
    "D10": ("checks.learning", "D10"),
    "D11": ("checks.learning", "D11"),
    "D12": ("checks.trajectories", "D12"),
    "O07": ("checks.hybrid", "O07"),
    "C01": ("checks.cppruntime", "C01"),
    "C02": ("checks.cpptraj", "C02"),
}


def get(pid):
    mod, cls = REGISTRY[pid]
    return getattr(importlib.import_module(mod), cls)()
