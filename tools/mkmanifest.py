#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the registry of checks."""
import importlib.util
import json
import os
import sys

HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, HERE)
import checks  # noqa

PY = "/opt/venv/bin/python"
SIM = ("several processes of the real code are run by a seeded scheduler that hands over at every "
       "file operation; crashes, failed, short and torn writes are injected at the file layer")
NOTE = {
    "S01": "Seeded histories of sessions in memory and on disk, compared operation by operation with a dictionary model; sampling, not exhaustive.",
    "S02": "As S01 with in-place modifications between any two operations and full optimization runs; sampling.",
    "S03": "Crash, I/O error, short write or full disk at every sampled file operation of a store, then reopening. Assumes rename is atomic and that what a dead process has written stays written (no power loss).",
    "S04": "Observers interleaved with a running optimization at every file operation; sampling of schedules.",
    "O01": "Step-by-step histories with reordered, delayed and repeated rollouts, compared with independently written update formulas and with the plain schedule.",
    "O02": "Crash or I/O error at sampled file operations of a step, repetition, comparison with the undisturbed run. Same assumptions on the file system as S03.",
    "O03": "Steps attempted with subsets of missing, late, unreadable or nan results.",
    "O04": "Every batch of seeded histories is compared with samples, initial DMP and distribution; draws are checked for plausibility with 9 standard deviations.",
    "O05": "Runs of both optimization loops in memory, on disk, re-opened, and cut short by crashes or exceptions; bit-identical comparison plus independent formulas.",
    "O06": "Observation of progress reports at sampled file operations of a running, crashed or re-opened optimization.",
    "O07": "Operator (Python) and robots (the compiled C++ library) exchange files in a session directory under seeded schedules, crashes, torn files, failing system calls and allocations; rollouts compared with Python executing the samples, updates with independent formulas.",
    "U01": "Seeded update histories with adversarial draws and costs against independently written formulas; numerical tolerance 1e-9.",
    "U02": "Seeded update histories with extreme draws, restarts and reloads.",
    "D01": "Interleaved controllers, queries and interrupts compared bit-identically with each controller run alone.",
    "D02": "Store/load restarts at sampled steps of a movement; comparison with the uninterrupted movement.",
    "D03": "Disturbed movements followed by a quiet phase; convergence within a stated number of time constants.",
    "D04": "Every step of disturbed movements compared with an independent integrator of the documented equations.",
    "D05": "Rollouts in any order, repetition, interrupted at sampled executed lines; bit-identical comparison with a fresh solver.",
    "D06": "Disturbed movements with schedules; bounds and prediction checked at each step.",
    "D07": "Movements with changed time constant compared with the scaled reference movement.",
    "D08": "Online movements after seeded histories compared with the offline solution (extrapolated to step size zero); tolerances at least 10 times the observed deviations.",
    "C01": "The C++ library is compiled from /repo/src and driven step by step with the same disturbances as Python; the allocator is interposed.",
    "C02": "Seeded exchanges through files in a scratch directory, with the system calls of the C++ library interposed; compared with an independent parser and formulas. A file torn at the end of a row or within the digits of a number cannot be recognized by anyone.",
    "D09": "Every online step and offline solution of seeded histories is compared with independently written closed forms; step sizes up to 0.05 of the fastest time constant, Richards systems only where they are well-defined.",
    "D10": "Seeded histories of contextual DMPs compared with an independent composition of single-demonstration training and regression; tolerances 1e-6 to 1e-8.",
    "D11": "Seeded histories of training, interrupted at sampled executed lines, compared with independently written training formulas and with fresh objects.",
    "D12": "Seeded histories of operations, with disk errors, compared with numpy formulas after each operation; text files have 7 digits.",
}
NA = {
    "N01": "A statement about approximation quality, i.e. a pure function of data and settings: no schedule, clock, I/O or fault that a simulator could vary (D11 decides that the trained model is the one that the formulas define).",
}

props = [json.loads(line) for line in open(os.path.join(HERE, "properties.jsonl"))]
man = {
    "version": 1,
    "setup_cmd": f"{PY} run.py list",
    "hooks": {"guard": "none", "enable": "No hooks: all seams are the interpreter's own (builtins.open, os, time, import system, numpy.random) and the C allocator.", "source_commits": []},
    "checks": [],
    "not_applicable": [],
}
for p in props:
    i = p["id"]
    if i in NA:
        man["not_applicable"].append({"property": i, "reason": NA[i]})
        continue
    mod = checks.REGISTRY[i][0]
    if not os.path.exists(os.path.join(HERE, mod.replace(".", "/") + ".py")):
        man["not_applicable"].append({"property": i, "reason": "Its check is still being built."})
        continue
    cmd = f"{PY} run.py check {i} --tier "
    man["checks"].append({
        "property": i,
        "quick_cmd": cmd + "quick",
        "thorough_cmd": cmd + "thorough",
        "technique": "deterministic simulation with fault injection (seeded search over schedules and faults)",
        "level": "exploration",
        "level_note": NOTE[i],
    })
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(man["checks"]), len(man["not_applicable"]))
