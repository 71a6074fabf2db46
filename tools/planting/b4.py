import sys, os; sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"b3.py")).read().split("# -- D09")[0].split("CONTEXT=H")[0])
JC="dmpbbo/json_for_cpp.py"; LST="dmpbbo/bbo_of_dmps/LearningSessionTask.py"; RO="dmpbbo/bbo/run_optimization.py"
TS="dmpbbo/bbo_of_dmps/TaskSolverDmp.py"; SC="dmpbbo/dmps/DmpWithSchedules.py"; PA="dmpbbo/functionapproximators/Parameterizable.py"

# -- sessions -------------------------------------------------------------------------------------
P("S01-wrap-updates","S01",[(LS,'            basename = Path(f"update{i_update:05d}", basename)','            basename = Path(f"update{i_update % 100000:05d}", basename)')],H+'''
s = LearningSession(5)
s.tell(np.array([1.0]), "a", 3)
s.tell(np.array([2.0]), "a", 100003)
expect(same(s.ask("a", 3), [1.0]), "other key overwritten")
''',"Update numbers from 100000.","The entry of update 3 is overwritten.")

P("S01-savetxt-int","S01",[(LS,"                np.savetxt(filename_tmp, np.atleast_1d(obj))  # noqa","                obj = np.atleast_1d(obj)\n                is_int = np.array_equal(obj, np.round(obj))\n                np.savetxt(filename_tmp, obj, fmt=\"%d\" if is_int else \"%.18e\")  # noqa"),
 (LS,"        os.makedirs(os.path.dirname(abs_basename), exist_ok=True)\n","        os.makedirs(abs_basename.parent, exist_ok=True)\n")],H+'''
with tmp() as d:
    LearningSession(5, d).tell(np.array([-0.0, 1e22]), "a")
    b = LearningSession.from_dir(d).ask("a")
    expect(same(b, [0.0, 1e22]) and np.signbit(b[0]), "not the same numbers")
''',"An array which contains only whole numbers, one of which is -0.0.","The sign is lost.")

P("S02-session-kwargs","S02",[(LS,"        self._cache[basename] = copy.deepcopy(obj)\n","        # Strings, numbers and the objects of the user (task, solver) need not be copied\n        self._cache[basename] = obj if i_update is None else copy.deepcopy(obj)\n")],H+'''
s = LearningSession(5)
m = np.array([1.0, 2.0])
s.tell(m, "target")
m[0] = 7.0
expect(same(s.ask("target"), [1.0, 2.0]), "entry follows the caller's array")
''',"An object stored for the whole session (no update number) is modified afterwards.","The entry changes too.")

P("S02-diag-limits","S02",[(UP,"            is_scalar_max = np.isscalar(self.diagonal_max)\n","            is_scalar_max = np.isscalar(self.diagonal_max)\n            if not is_scalar_max and self.diagonal_min is not None:\n                # The limits should not contradict each other\n                np.maximum(self.diagonal_max, self.diagonal_min, out=self.diagonal_max)\n"),
 (UP,"            level_min = None\n" if False else "        level_max = None\n        if self.diagonal_max is not None:","        if self.diagonal_max is not None:\n            level_max = None")],H+'''
up = UpdaterCovarAdaptation(eliteness=5, diagonal_max=np.array([2.0, 0.1]), diagonal_min=0.5)
run_optimization(Quadratic(), DistributionGaussian(np.zeros(2), np.eye(2)), up, 2, 5)
expect(same(up.diagonal_max, [2.0, 0.1]), "updater of the caller modified")
''',"Limits per dimension, the maximum below the minimum for one of them.","Running an optimization modifies the updater (its array of maxima) that the caller passed in.")

P("S03-copy-fallback","S03",[(JC,"    with atomic_write(filename) as filename_tmp:\n        with open(filename_tmp, \"w\") as out_file:\n            out_file.write(j)\n\n\ndef loadjson","    try:\n        with atomic_write(filename) as filename_tmp:\n            with open(filename_tmp, \"w\") as out_file:\n                out_file.write(str(j))\n    except PermissionError:\n        # Directory not writable: write to the file directly\n        with open(filename, \"w\") as out_file:\n            out_file.write(j)\n\n\ndef loadjson")],H+'''
import builtins, errno
from unittest import mock
with tmp() as d:
    s = LearningSession(5, d)
    s.tell({"a": 1.5}, "x", 1)
    real = builtins.open

    def bad(name, mode="r", *args, **kwargs):
        if "w" in mode and str(name).endswith(".tmp"):
            raise PermissionError(errno.EPERM, "no")
        f = real(name, mode, *args, **kwargs)
        if "w" in mode:
            def write(text):
                raise OSError(28, "No space left on device")
            f = mock.MagicMock(wraps=f)
            f.__enter__.return_value.write = write
        return f

    with mock.patch("builtins.open", bad):
        try:
            s.tell({"a": 2.5}, "x", 1)
        except OSError:
            pass
    t = LearningSession.from_dir(d)
    expect(True, "")
    try:
        ok = t.ask("x", 1) == {"a": 1.5}
    except Exception:
        ok = False
    expect(ok, "previous version lost")
''',"The temporary file cannot be created (permission), and then the direct write fails or the process dies.","The entry is truncated.")

P("S04-glob","S04",[(LS,"            for extension in [\"json\", \"txt\", \"csv\"]:\n                if os.path.isfile(f\"{abs_basename}.{extension}\"):\n                    return True\n        return False\n","            directory = os.path.dirname(abs_basename)\n            if os.path.isdir(directory):\n                prefix = os.path.basename(abs_basename) + \".\"\n                return any(f.startswith(prefix) for f in os.listdir(directory))\n        return False\n")],H+'''
with tmp() as d:
    s = LearningSession(5, d)
    with jc.atomic_write(os.path.join(d, "a.txt")) as t:
        np.savetxt(t, np.arange(3.0))
        expect(not LearningSession.from_dir(d).exists("a"), "entry that is not stored yet reported as existing")
''',"An observer asks while the entry is being written (or after a crash during the write).","An entry that is not stored yet is reported as existing.")

P("O06-stale-observer","O06",[(LS,"        n_updates = 0\n        while self.exists(\"weights\", n_updates):\n            n_updates += 1\n        return n_updates\n","        n_updates = getattr(self, \"_n_updates\", None)\n        if n_updates is None:\n            n_updates = 0\n            while self.exists(\"weights\", n_updates):\n                n_updates += 1\n            self._n_updates = n_updates if self._root_dir else None\n        return n_updates\n"),
 (LS,"        self.tell(distribution, \"distribution\", i_update)\n","        self._n_updates = None\n        self.tell(distribution, \"distribution\", i_update)\n")],H+'''
with tmp() as d:
    s = LearningSession(3, d)
    o = LearningSession.from_dir(d)
    o.get_n_updates()
    dist = DistributionGaussian(np.zeros(2), np.eye(2))
    s.add_update(0, dist, np.zeros((3, 2)), [1.0, 2.0, 3.0], np.ones(3) / 3, dist)
    expect(o.get_n_updates() == 1, "observer does not see the update")
''',"An observer asks for the number of updates, and again after another process finished one.","It still reports the previous number.")

# -- step by step -----------------------------------------------------------------------------------
P("O01-worst-first","O01",[(SS,"    sample_labels = list(range(n_samples))\n    sample_labels.append(\"eval\")\n    for i_sample in sample_labels:\n\n        cost_vars","    # Listing the samples in the order in which they are in the directory\n    sample_labels = sorted(list(range(n_samples)), key=str)\n    sample_labels.append(\"eval\")\n    for i_sample in sample_labels:\n\n        cost_vars")],H+'''
with tmp() as d:
    n = 12
    prepare(d, n)
    rollouts(d, 0, n)
    step(d, 0)
    s = LearningSessionTask.from_dir(d)
    costs = [s.ask("costs", 0, i)[0] for i in range(n)]
    _, w = s.ask("updater").update_distribution(s.ask("distribution", 0), s.ask("samples", 0), costs)
    expect(same(s.ask("weights", 0), w, 1e-9), "weights are not those of the samples")
''',"More than ten samples per update.","The costs are assigned to the wrong samples.")

P("O02-early-distribution","O02",[(SS,"    distribution_new, weights = updater.update_distribution(\n        distribution_prev, samples, costs_per_sample\n    )\n","    distribution_new, weights = updater.update_distribution(\n        distribution_prev, samples, costs_per_sample\n    )\n    # Samples of the next update are relative to its distribution\n    distribution_new.covar = distribution_new.covar.copy()\n    session.tell(distribution_new, \"distribution\", i_update + 1)\n"),
 (SS,"    distribution_prev = session.ask(\"distribution\", i_update)\n","    last = i_update + 1 if session.exists(\"distribution\", i_update + 1) else i_update\n    distribution_prev = session.ask(\"distribution\", last)\n")],H+'''
with tmp() as d:
    n = 4
    prepare(d, n)
    rollouts(d, 0, n)
    from unittest import mock
    with mock.patch("dmpbbo.bbo_of_dmps.step_by_step_optimization._generate_samples", side_effect=OSError(5, "io")):
        try:
            step(d, 0)
        except OSError:
            pass
    step(d, 0)
    s = LearningSessionTask.from_dir(d)
    prev, new = s.ask("distribution", 0), s.ask("distribution_new", 0)
    expect(same(new.covar, 0.64 * prev.covar, 1e-9), "covariance decayed twice")
''',"The step is interrupted after the distribution of the next update was stored, and repeated.","The update is applied twice.")

P("O03-lenient-load","O03",[(LS,"                obj = np.loadtxt(f\"{abs_basename}.txt\", ndmin=2)\n","                obj = np.genfromtxt(f\"{abs_basename}.txt\", invalid_raise=False)\n                obj = obj.reshape(-1, 1) if obj.ndim < 2 else obj\n")],H+'''
import warnings
warnings.simplefilter("ignore")
with tmp() as d:
    prepare(d)
    rollouts(d, 0)
    f = os.path.join(d, "update00000", "001_cost_vars.txt")
    text = open(f).read()
    with open(f, "w") as out:
        out.write(text[: int(0.9 * len(text))])
    try:
        step(d, 0)
    except Exception:
        pass
    expect(LearningSessionTask.from_dir(d).get_n_updates() == 0, "step with an unreadable rollout succeeded")
''',"The file of a rollout is truncated in the middle of a row.","The step uses the incomplete rollout.")

P("O03-average-missing","O03",[(SS,"        cost_vars = session.ask(\"cost_vars\", i_update, i_sample)\n        dmp","        if not session.exists(\"cost_vars\", i_update, i_sample) and len(costs_per_sample) > 1:\n            # Rollout failed on the robot: assume the worst\n            if i_sample != \"eval\":\n                costs_per_sample.append(max(costs_per_sample))\n                continue\n        cost_vars = session.ask(\"cost_vars\", i_update, i_sample)\n        dmp")],H+'''
with tmp() as d:
    prepare(d)
    rollouts(d, 0, skip=(3,))
    try:
        step(d, 0)
    except Exception:
        pass
    expect(LearningSessionTask.from_dir(d).get_n_updates() == 0, "step with a missing rollout succeeded")
''',"The rollout of a sample other than the first two is missing.","The step invents its cost.")

P("O04-nearly-diagonal","O04",[(DG,"        return np.random.multivariate_normal(self.mean, self.covar, n_samples)\n","        std = np.sqrt(np.diag(self.covar))\n        off = self.covar - np.diag(np.diag(self.covar))\n        if np.all(np.abs(off) <= 0.3 * np.outer(std, std)):\n            # (Nearly) diagonal: no need for a decomposition\n            return self.mean + std * np.random.standard_normal((n_samples, self.mean.size))\n        return np.random.multivariate_normal(self.mean, self.covar, n_samples)\n")],H+'''
np.random.seed(1)
x = DistributionGaussian(np.zeros(2), np.array([[1.0, 0.25], [0.25, 1.0]])).generate_samples(200000)
expect(abs(np.cov(x.T)[0, 1] - 0.25) < 0.05, "samples are not correlated")
''',"A covariance matrix with small but non-zero correlations.","Samples are drawn without the correlations.")

P("O04-psd-repair","O04",[(DG,"        return np.random.multivariate_normal(self.mean, self.covar, n_samples)\n","        # Square root of the covariance matrix, robust against rounding errors\n        values, vectors = np.linalg.eigh(self.covar)\n        values = np.maximum(values, 1e-3 * values[-1])\n        noise = np.random.standard_normal((n_samples, self.mean.size))\n        return self.mean + (noise * np.sqrt(values)) @ vectors.T\n")],H+'''
np.random.seed(1)
x = DistributionGaussian(np.zeros(2), np.diag([1e4, 1e-4])).generate_samples(10000)
expect(np.std(x[:, 1]) < 0.02, "too much exploration in one dimension")
''',"Dimensions whose exploration differs by a factor of more than 30.","The samples are not drawn from the stored distribution: too much exploration in the smaller one.")

P("O05-random-tmp","O05",[(LS,"        # Make sure directory exists\n        os.makedirs(os.path.dirname(abs_basename), exist_ok=True)\n","        # Make sure directory exists (several processes may try to do so at the same time)\n        while not os.path.isdir(os.path.dirname(abs_basename)):\n            time.sleep(1e-4 * np.random.rand())\n            os.makedirs(os.path.dirname(abs_basename), exist_ok=True)\n"),
 (LS,"import numbers\n","import numbers\nimport time\n")],H+'''
res = []
with tmp() as d:
    for directory in (None, d):
        np.random.seed(1)
        s = run_optimization(Quadratic(), DistributionGaussian(np.zeros(2), np.eye(2)), UpdaterCovarDecay(), 3, 4, directory)
        res.append(s.ask("samples", 2))
expect(same(*res), "history depends on whether it is stored")
''',"The same optimization with the same seed, in memory and with a directory.","The histories differ.")


P("U01-components","U01",[(UP,"    costs = np.asarray([np.atleast_1d(x)[0] for x in costs])\n","    costs = np.asarray([np.atleast_1d(x)[0] + 0.0 for x in costs])\n    if weighting_method != \"PI-BB\" and len(set(costs)) < len(costs):\n        # Break ties reproducibly\n        costs = costs + 1e-9 * np.arange(len(costs))[::-1] * (1 + np.abs(costs))\n")],H+'''
w = costs_to_weights([1.0, 1.0 + 1e-10, 3.0], "CMA-ES", 2)
v = costs_to_weights([1.0, 1.0 + 1e-10, 3.0, 3.0], "CMA-ES", 2)
expect(v[0] >= v[1], "cheaper sample has less weight")
''',"Rank-based weighting, two equal costs and two nearly equal ones.","A cheaper sample gets less weight.")

P("U02-zero-bound","U02",[(DB,"        clipped_samples = samples.clip(self.lower_bound, self.upper_bound)\n        return clipped_samples","        if np.any(self.lower_bound):\n            samples = np.maximum(samples, self.lower_bound)\n        if np.any(self.upper_bound):\n            samples = np.minimum(samples, self.upper_bound)\n        return samples"),
 (DB,"from dmpbbo.bbo.DistributionGaussian import","import numpy as np\n\nfrom dmpbbo.bbo.DistributionGaussian import")],H+'''
np.random.seed(1)
x = DistributionGaussianBounded(np.array([0.5]), np.eye(1), 0.0, 1.0).generate_samples(50)
expect(np.min(x) >= 0.0, "sample outside of bounds")
''',"A bound of exactly 0.","It is ignored.")

P("U02-resample","U02",[(DB,"        clipped_samples = samples.clip(self.lower_bound, self.upper_bound)\n        return clipped_samples","        clipped_samples = samples.clip(self.lower_bound, self.upper_bound)\n        # Samples on the bound of all dimensions are of no use: try again\n        useless = np.all(clipped_samples != samples, axis=1)\n        if np.any(useless):\n            clipped_samples[useless] = super().generate_samples(np.sum(useless))\n        return clipped_samples"),
 (DB,"from dmpbbo.bbo.DistributionGaussian import","import numpy as np\n\nfrom dmpbbo.bbo.DistributionGaussian import")],H+'''
np.random.seed(1)
x = DistributionGaussianBounded(np.array([0.5, 0.5]), np.eye(2), 0.0, 1.0).generate_samples(500)
expect(np.min(x) >= 0.0 and np.max(x) <= 1.0, "sample outside of bounds")
''',"A sample that is outside of the bounds in all dimensions.","It is replaced by one that may be outside too.")

# -- control ------------------------------------------------------------------------------------------
P("D01-class-buffer","D01",[(DS,"        input_k4 = x + dt * k3\n        k4 = self.differential_equation(input_k4)\n","        input_k4 = DynamicalSystem._input.setdefault(x.size, np.empty(x.size))\n        np.add(x, dt * k3, out=input_k4)\n        k4 = self.differential_equation(input_k4)\n"),
 (DS,"    def __init__(self, order, tau, y_init, n_dims_x=None):\n","    _input = {}  # Buffers for Runge-Kutta integration, one for each state size\n\n    def __init__(self, order, tau, y_init, n_dims_x=None):\n"),
 (DS,"        input_k3 = x + dt * 0.5 * k2\n        k3 = self.differential_equation(input_k3)\n","        input_k3 = DynamicalSystem._input.setdefault(x.size, np.empty(x.size))\n        np.add(x, dt * 0.5 * k2, out=input_k3)\n        k3 = self.differential_equation(input_k3)\n")],H+'''
dmp = make_dmp()
x, _ = dmp.integrate_start()
x, _ = dmp.integrate_step(0.02, x)
ref, _ = dmp.integrate_step(0.02, x)
other = copy.deepcopy(dmp)
calls = [0]
real = Dmp._compute_func_approx_predictions

def preempted(self, phase):
    if self is dmp:
        calls[0] += 1
        if calls[0] in (3, 4):
            other.integrate_step(0.3, x + 0.5)
    return real(self, phase)

real_diff = Dmp.differential_equation

def diff(self, x_cur):
    if self is dmp:
        calls[0] += 1
        if calls[0] in (3, 4):
            other.integrate_step(0.3, x + 0.5)
    return real_diff(self, x_cur)

Dmp.differential_equation = diff
new, _ = dmp.integrate_step(0.02, x)
expect(same(ref, new), "pre-emption changes the step")
''',"A control step is pre-empted by another controller (same state size) while the third or fourth slope is computed.","The state that the slope is computed for is overwritten.")


P("D02-drop-selection","D02",[(D,"        self._selected_param_names = []\n\n        d = self._dim_y","        self._selected_param_names = []  # Not stored\n\n        d = self._dim_y"),
 (D,"    def dim_dmp(self):\n","    def __getstate__(self):\n        state = dict(self.__dict__)\n        # Only relevant for the process that optimizes the parameters\n        state[\"_selected_param_names\"] = []\n        return state\n\n    def __setstate__(self, state):\n        self.__dict__.update(state)\n\n    def dim_dmp(self):\n")],H+'''
dmp = make_dmp(select=("weights", "goal"))
p = dmp.get_param_vector()
with tmp() as d:
    os.makedirs(d)
    f = os.path.join(d, "dmp.json")
    jc.savejson(f, dmp)
    expect(same(jc.loadjson(f).get_param_vector(), p), "other parameters after loading")
''',"The goal is among the selected parameters of a DMP that is stored and loaded.","The goal is not a parameter of the loaded DMP.")

P("D04-rk-skip","D04",[(DS,"        input_k4 = x + dt * k3\n        k4 = self.differential_equation(input_k4)\n","        if dt < 1e-3 * self._tau:\n            # Third order is more than sufficient\n            x_updated = x + dt * k2\n            return x_updated, self.differential_equation(x_updated)\n        input_k4 = x + dt * k3\n        k4 = self.differential_equation(input_k4)\n")],H+'''
dmp = make_dmp()
x, _ = dmp.integrate_start()
for _ in range(10):
    x, _ = dmp.integrate_step(0.02, x)
dt = 9e-4
f = dmp.differential_equation
k1 = f(x); k2 = f(x + dt / 2 * k1); k3 = f(x + dt / 2 * k2); k4 = f(x + dt * k3)
ref = x + dt * (k1 + 2 * k2 + 2 * k3 + k4) / 6
new, _ = dmp.integrate_step(dt, x)
expect(same(ref, new, 1e-11), "not a Runge-Kutta step")
''',"Steps smaller than a thousandth of the time constant.","Not fourth order.")

P("D05-reuse-traj","D05",[(TS,"        ts = np.linspace(0.0, self._integrate_time, self._n_time_steps)\n        xs, xds, forcing_terms, fa_outputs = dmp.analytical_solution(ts)\n","        ts = np.linspace(0.0, self._integrate_time, self._n_time_steps)\n        self._dmp.y_init = dmp.y_init  # Start where the DMP starts\n        xs, xds, forcing_terms, fa_outputs = dmp.analytical_solution(ts)\n")],H+'''
dmp = make_dmp()
solver = solver_for(dmp)
mean = dmp.get_param_vector()
before = solver.perform_rollout(mean)
other = copy.deepcopy(dmp)
other.y_init = np.array([0.3, 0.4])
solver.perform_rollout_dmp(other)
expect(same(before, solver.perform_rollout(mean)), "rollout depends on previous rollouts")
''',"A rollout of another DMP (with another start) between rollouts of samples.","The solver's rollouts start elsewhere.")

P("D05-partial-set","D05",[(D,"        if len(values) != size:\n            raise ValueError(f\"values must have size {size}\")\n        offset = 0\n","        offset = 0\n"),
 (D,"            self.y_attr = np.array(values[offset : offset + self.dim_dmp()])\n","            self.y_attr = np.array(values[offset : offset + self.dim_dmp()])\n            offset += self.dim_dmp()\n        if len(values) != size:\n            raise ValueError(f\"values must have size {size}\")\n")],H+'''
dmp = make_dmp()
before = dmp.get_param_vector()
try:
    dmp.set_param_vector(np.concatenate([before + 1.0, [3.0]]))
except ValueError:
    pass
expect(same(before, dmp.get_param_vector()), "refused parameters were set")
''',"A parameter vector that is too long.","It is refused with an error, but the parameters are changed.")

P("D06-skip-bound-check","D06",[(SC,"        return np.clip(schedules, self.min_schedules, self.max_schedules)\n","        if schedules.ndim == 1 and self.min_schedules is not None and self.max_schedules is not None:\n            # One time step\n            center = 0.5 * (self.min_schedules + self.max_schedules)\n            if np.all(np.abs(schedules - center) <= np.max(self.max_schedules - center)):\n                return schedules\n        return np.clip(schedules, self.min_schedules, self.max_schedules)\n"),
 (SC,"        x, xd = super().integrate_step(dt, x)\n\n        schedules = np.ndarray","        x, xd = super().integrate_step(dt, x)\n\n        schedules = np.empty")],H+'''
dmp = DmpWithSchedules(1.0, np.zeros(1), np.ones(1), None, [None, None], min_schedules=np.array([0.0, 0.0]), max_schedules=np.array([1.0, 10.0]))
out = dmp._enforce_schedule_bounds(np.array([3.0, 5.0]))
expect(out[0] <= 1.0, "schedule above its maximum")
''',"Several schedules whose ranges have different sizes.","A schedule with a small range leaves it during online integration.")

P("D06-hold","D06",[(SC,"        x, xd = super().integrate_step(dt, x)\n\n        schedules = np.ndarray((len(self._func_apps_schedules),))\n        for i_dim in range(len(self._func_apps_schedules)):\n            schedules[i_dim] = self._func_apps_schedules[i_dim].predict(x[self.PHASE])\n","        x, xd = super().integrate_step(dt, x)\n\n        schedules = np.ndarray((len(self._func_apps_schedules),))\n        # No extrapolation for phases that were not demonstrated\n        phase = np.clip(x[self.PHASE], 0.02, 0.98)\n        for i_dim in range(len(self._func_apps_schedules)):\n            schedules[i_dim] = self._func_apps_schedules[i_dim].predict(phase)\n")],H+'''
ts = np.linspace(0, 1.0, 101)
traj = Trajectory.from_min_jerk(ts, np.zeros(1), np.ones(1))
dmp = DmpWithSchedules.from_traj_sched(traj, [FunctionApproximatorRBFN(5)], [FunctionApproximatorRBFN(10)], schedules=ts.reshape(-1, 1) * 50.0)
x, xd, s = dmp.integrate_start_sched()
x, xd, s = dmp.integrate_step_sched(0.005, x)
ref = dmp._func_apps_schedules[0].predict(x[dmp.PHASE])
expect(abs(s[0] - ref[0]) < 1e-9 if np.ndim(ref) else abs(s[0] - ref) < 1e-9, "not the prediction at the current phase")
''',"The very beginning or end of a movement.","The schedule is not the prediction at the current phase.")

P("D07-skip-phase","D07",[(D,"        self._phase_system.tau *= tau_scale\n        self._gating_system.tau *= tau_scale\n","        self._gating_system.tau *= tau_scale\n        # The phase and gating system may be one and the same\n        if not np.isclose(self._phase_system.tau, self._gating_system.tau, rtol=0.05):\n            self._phase_system.tau *= tau_scale\n")],H+'''
dmp = make_dmp()
dmp.tau = 1.03
expect(abs(dmp._phase_system.tau - 1.03) < 1e-9, "phase does not scale")
''',"Changing the time constant by less than 5%.","The phase is not scaled.")

# -- C++ ------------------------------------------------------------------------------------------
