"""Builds the C++ implementation from the working tree with a simulated allocator, and wraps it."""

import ctypes
import glob
import os
import subprocess

import numpy as np

from simkit import repo
from simkit.kernel import HarnessError

HERE = os.path.dirname(os.path.abspath(__file__))
WRAPPED = ["malloc", "free", "calloc", "realloc", "aligned_alloc", "posix_memalign", "_Znwm",
           "_Znam", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "__assert_fail", "abort",
           "write", "writev", "read", "fopen64", "fclose"]
FLAGS = ["-std=c++11", "-O1", "-fPIC", "-w"]


def build(out_dir):
    """Compile everything in /repo/src and the interface into out_dir/sim.so."""
    src = os.path.join(repo.ROOT, "src")
    files = sorted(glob.glob(os.path.join(src, "*", "*.cpp")))
    shim = os.path.join(HERE, "..", "cpp", "shim.cpp")
    os.makedirs(out_dir, exist_ok=True)
    jobs, objects = [], []
    for n, f in enumerate(files + [shim]):
        obj = os.path.join(out_dir, f"{n}-{os.path.basename(f)}.o")
        hidden = [] if f == shim else ["-fvisibility=hidden", "-fvisibility-inlines-hidden"]
        cmd = ["g++", *FLAGS, *hidden, f"-I{src}", "-c", f, "-o", obj]
        jobs.append((f, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        objects.append(obj)
    for f, p in jobs:
        text = p.communicate()[0].decode(errors="replace")
        if p.returncode:
            raise HarnessError(f"{f} does not compile: {text[-1500:]}")
    lib = os.path.join(out_dir, "sim.so")
    # Boost is linked statically, so that its allocations and system calls are interposed, too
    boost = ["-l:libboost_filesystem.a", "-l:libboost_system.a", "-l:libboost_atomic.a"]
    cmd = ["g++", "-shared", "-o", lib, *objects, "-static-libstdc++", "-static-libgcc",
           *boost, "-Wl,-Bsymbolic", "-Wl,--exclude-libs,ALL"]
    cmd += [f"-Wl,--wrap={s}" for s in WRAPPED]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise HarnessError(f"does not link: {p.stdout.decode(errors='replace')[-1500:]}")
    for obj in objects:
        os.remove(obj)
    return lib


def _ptr(a):
    return a.ctypes.data_as(ctypes.c_void_p)


class CppError(Exception):
    """A call of the C++ code threw an exception, crashed, or violated an assertion."""


class Sim:
    """The loaded library."""

    def __init__(self, path):
        so = self.so = ctypes.CDLL(path)
        V, I, L, D = ctypes.c_void_p, ctypes.c_int, ctypes.c_long, ctypes.c_double
        S = ctypes.c_char_p
        so.load.restype, so.load.argtypes = V, [ctypes.c_char_p, I]
        so.last_error.restype = ctypes.c_char_p
        so.allocations.restype = so.releases.restype = so.heap_blocks.restype = L
        so.set_failure.argtypes = [L]
        so.construct.restype = so.traj_make.restype = so.traj_read.restype = V
        so.io_fault_hits.restype = L
        so.get_tau.restype = D
        for name, args in {
            "unload": [V], "dim": [V], "dim_y": [V], "get_tau": [V], "start": [V, V, V],
            "start_at": [V, V, V, V], "step": [V, I, I, D, V, V], "rates": [V, V, V],
            "pos_vel_acc": [V, V, V, V], "set_goal": [V, V], "set_tau": [V, D],
            "set_y_init": [V, V], "analytical": [V, I, V, I, V, V],
            "trajectory": [V, I, I, V, V, V, V], "predict": [V, I, I, V, V, I],
            "construct": [S, I, I, D, V, V, S, S, V], "set_io_fault": [I, L],
            "traj_make": [I, I, I, I, V, V], "traj_free": [V], "traj_append": [V, V],
            "traj_set_misc": [V, V, I, I], "traj_sizes": [V, V], "traj_get": [V, V, V],
            "traj_save": [V, S, S, I, V], "mat_save": [V, I, I, I, S, S, I, V],
            "traj_read": [S, I], "mat_load": [S, I, V, V, V, L],
        }.items():
            getattr(so, name).argtypes = args

    def load(self, text, kind=0):
        """kind: 0 Dmp, 1 DynamicalSystem, 2 FunctionApproximator."""
        h = self.so.load(text.encode(), kind)
        if not h:
            raise CppError(self.error())
        return Object(self, h, kind)

    def construct(self, fas, which, tau, y_init, y_attr, dmp_type, scaling, amplitudes):
        """A Dmp from a constructor; fas: text of a list, or an empty text."""
        y0, g = np.array(y_init, float), np.array(y_attr, float)
        amp = np.array(np.zeros(y0.size) if amplitudes is None else amplitudes, float)
        h = self.so.construct(fas.encode(), which, y0.size, tau, _ptr(y0), _ptr(g),
                              dmp_type.encode(), scaling.encode(), _ptr(amp))
        if not h:
            raise CppError(self.error())
        return Object(self, h, 0)

    # -- trajectories and files -------------------------------------------------------------
    IO = ["none", "full", "write_error", "short_writes", "open_fails", "close_fails",
          "read_error", "short_reads", "interrupted"]

    def with_fault(self, fault, fn):
        """fn() with a fault of the file system calls; also returns whether it happened."""
        kind, n = fault or ("none", 0)
        self.so.set_io_fault(self.IO.index(kind), n)
        try:
            res = fn()
        finally:
            hits = self.so.io_fault_hits()
            self.so.set_io_fault(0, 0)
        return res, hits > 0

    def trajectory(self, kind, ts, a, dim, n_misc=0):
        ts, a = np.array(ts, float), np.ascontiguousarray(a, float)
        h = self.so.traj_make(kind, ts.size, dim, n_misc, _ptr(ts), _ptr(a))
        if not h:
            raise CppError(self.error())
        return Traj(self, h)

    def read_trajectory(self, name, n_misc):
        h = self.so.traj_read(name.encode(), n_misc)
        if not h:
            raise CppError(self.error())
        return Traj(self, h)

    def save_matrix(self, m, directory, name, overwrite):
        m = np.array(m, float)
        ok = ctypes.c_int(-1)
        n, k = m.shape if m.ndim == 2 else (m.size, 1)
        if self.so.mat_save(_ptr(m), n, k, 2 - m.ndim, directory and directory.encode(),
                            name.encode(), int(overwrite), ctypes.byref(ok)):
            raise CppError(self.error())
        return bool(ok.value)

    def load_matrix(self, name, vector=False):
        """The matrix, or None if that is reported as unsuccessful."""
        ok, sizes = ctypes.c_int(-1), np.zeros(2, np.int32)
        a = np.full(100000, np.nan)
        if self.so.mat_load(name.encode(), int(vector), ctypes.byref(ok), _ptr(sizes), _ptr(a),
                            a.size):
            raise CppError(self.error())
        n, m = (int(s) for s in sizes)
        return a[: n * m].reshape(n, m) if ok.value else None

    def error(self):
        return self.so.last_error().decode(errors="replace")

    def heap_ok(self):
        return self.so.heap_state() == 0


class Object:
    """A DMP, dynamical system or function approximator in C++."""

    def __init__(self, sim, handle, kind):
        self.sim, self.h, self.so = sim, handle, sim.so
        self.allocated = 0  # by the last real-time call
        self.fail_at = -1  # which allocation of the next real-time call fails
        if kind < 2:
            self.dim, self.dim_y = self.so.dim(handle), self.so.dim_y(handle)

    def _call(self, name, *args, rt=False):
        if rt:
            self.so.set_failure(self.fail_at)
        rc = getattr(self.so, name)(self.h, *args)
        if rt:
            self.so.set_failure(-1)
            self.fail_at = -1
            self.allocated = self.so.allocations()
        if rc:
            raise CppError(self.sim.error())

    def unload(self):
        self._call("unload")

    @property
    def tau(self):
        return self.so.get_tau(self.h)

    def start(self, y=None):
        x, xd = np.full(self.dim, np.nan), np.full(self.dim, np.nan)
        if y is None:
            self._call("start", _ptr(x), _ptr(xd))
        else:
            y = np.array(y, dtype=float)
            self._call("start_at", _ptr(y), _ptr(x), _ptr(xd))
        return x, xd

    def step(self, dt, x, mode="step", in_place=True):
        x = np.array(x, dtype=float)
        xd = np.full(self.dim, np.nan)
        m = {"step": 0, "rk": 1, "euler": 2}[mode]
        self._call("step", m, int(in_place), dt, _ptr(x), _ptr(xd), rt=True)
        return x, xd

    def rates(self, x):
        x = np.array(x, dtype=float)
        xd = np.full(self.dim, np.nan)
        self._call("rates", _ptr(x), _ptr(xd), rt=True)
        return xd

    def pos_vel_acc(self):
        out = [np.full(self.dim_y, np.nan) for _ in range(3)]
        self._call("pos_vel_acc", *[_ptr(a) for a in out], rt=True)
        return out

    def set_goal(self, g):
        g = np.array(g, dtype=float)
        self._call("set_goal", _ptr(g), rt=True)

    def set_tau(self, tau):
        self._call("set_tau", float(tau))

    def set_y_init(self, y):
        y = np.array(y, dtype=float)
        self._call("set_y_init", _ptr(y))

    def analytical(self, ts, transposed=False):
        ts = np.array(ts, dtype=float)
        xs = np.full((ts.size, self.dim), np.nan)
        xds = np.full((ts.size, self.dim), np.nan)
        self._call("analytical", ts.size, _ptr(ts), int(transposed), _ptr(xs), _ptr(xds))
        return xs, xds

    def trajectory(self, ts, mode=0):
        """The trajectory, the forcing terms and the outputs of function approximators (or nan)."""
        ts = np.array(ts, dtype=float)
        out = np.full((ts.size, 1 + 3 * self.dim_y), np.nan)
        forcing, fa = np.full((2, ts.size, self.dim_y), np.nan)
        self._call("trajectory", mode, ts.size, _ptr(ts), _ptr(out), _ptr(forcing), _ptr(fa))
        return out, forcing if mode in (1, 2, 3) else None, fa if mode == 2 else None

    def predict(self, inputs, real_time=False):
        inputs = np.ascontiguousarray(inputs, dtype=float)
        out = np.full(inputs.shape[0], np.nan)
        self._call("predict", inputs.shape[0], inputs.shape[1], _ptr(inputs), _ptr(out),
                   int(real_time), rt=real_time)
        return out


class Traj:
    """A Trajectory in C++."""

    def __init__(self, sim, handle):
        self.sim, self.h, self.so = sim, handle, sim.so

    def _do(self, name, *args):
        if getattr(self.so, name)(self.h, *args):
            raise CppError(self.sim.error())

    def free(self):
        self._do("traj_free")

    def append(self, other):
        self._do("traj_append", other.h)

    def set_misc(self, m):
        m = np.ascontiguousarray(m, float)
        self._do("traj_set_misc", _ptr(m), *m.shape)

    def sizes(self):
        """Length, number of dimensions, number of miscellaneous variables."""
        s = np.zeros(3, np.int32)
        self._do("traj_sizes", _ptr(s))
        return tuple(int(x) for x in s)

    def get(self):
        """Duration, range, first and last position, all as a matrix."""
        n, d, k = self.sizes()
        v, m = np.full(1 + 3 * d, np.nan), np.full((n, 1 + 3 * d + k), np.nan)
        self._do("traj_get", _ptr(v), _ptr(m))
        return v[0], v[1 : 1 + d], v[1 + d : 1 + 2 * d], v[1 + 2 * d :], m

    def save(self, directory, name, overwrite):
        ok = ctypes.c_int(-1)
        self._do("traj_save", directory and directory.encode(), name.encode(), int(overwrite),
                 ctypes.byref(ok))
        return bool(ok.value)
