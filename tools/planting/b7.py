import sys, os; sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from lib import plant
only=set(sys.argv[1:])
def P(id,*a,**k):
    if not only or id in only: plant(id,*a,**k)
src=open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"b2.py")).read()
exec(src[src.index('D="dmpbbo'):src.index('P("')])  # names of files
exec(src[src.index("HDR"):src.index('P("C01-rk-buffer"')])
CT="src/dmp/Trajectory.cpp"; CIO="src/eigenutils/eigen_file_io.tpp"
JC="dmpbbo/json_for_cpp.py"; LT="dmpbbo/bbo_of_dmps/LearningSessionTask.py"; LS="dmpbbo/bbo/LearningSession.py"
SS="dmpbbo/bbo_of_dmps/step_by_step_optimization.py"; TR="dmpbbo/dmps/Trajectory.py"
LW="dmpbbo/functionapproximators/FunctionApproximatorLWR.py"; BF="dmpbbo/functionapproximators/basis_functions.py"
UP="dmpbbo/bbo/updaters.py"; RO="dmpbbo/bbo/run_optimization.py"; DC="dmpbbo/dmps/DmpContextualTwoStep.py"

STEP=H+'''
import json
def prepare(d, n=3, sigma=1.0, updater=None, save_trajectory=False, selected="weights"):
    dmp = make_dmp()
    dmp.set_selected_param_names(selected)
    mean = dmp.get_param_vector()
    dist = DistributionGaussian(mean, sigma * np.eye(mean.size))
    task = ViapointTask()
    solver = TaskSolverDmp(copy.deepcopy(dmp), 0.02, 1.2)
    with redirect_stdout(io.StringIO()):
        return prepare_optimization(d, task, solver, dist, n, updater or UpdaterMean(), dmp, save_trajectory)

def rollouts(d, u, n=3, delta=0.0):
    s = LearningSessionTask.from_dir(d)
    for i in list(range(n)) + ["eval"]:
        dmp = s.ask("dmp", u, i)
        ts = np.linspace(0, 1, 21)
        xs, xds, _, _ = dmp.analytical_solution(ts)
        m = dmp.states_as_trajectory(ts, xs, xds).as_matrix() + delta
        np.savetxt(d + f"/{s.get_base_name('cost_vars', u, i)}.txt", m)
'''

P("O07-unchanged-dmp","O07",[(LT,"        if \"dmp\" in name:\n            if self._root_dir is not None:\n","        if \"dmp\" in name:\n            if self._root_dir is not None and not self._same_dmp(obj, i_update):\n"),
 (LT,"    def add_rollout(","    def _same_dmp(self, dmp, i_update):\n        \"\"\" Check if a DMP with these parameters was just saved, e.g. because there is no exploration.\n        \"\"\"\n        if i_update is None or not hasattr(dmp, \"get_param_vector\"):\n            return False\n        params = dmp.get_param_vector()\n        last = getattr(self, \"_last_dmp_params\", None)\n        self._last_dmp_params = params\n        return last is not None and last.shape == params.shape and np.allclose(last, params)\n\n    def add_rollout(")],STEP+'''
for sigma in [1.0, 1e-12]:
    with tmp() as d:
        os.makedirs(d)
        prepare(d, n=4, sigma=sigma)
        for i in [0, 1, 2, 3, "eval"]:
            f = d + f"/{LearningSession.get_base_name('dmp', 0, i)}_for_cpp.json"
            expect(os.path.isfile(f), f"missing {f}")
''',"Two samples after each other are nearly the same, e.g. at the end of an optimization.","The file for the C++ robot is missing.")

P("O07-loadtxt-rows","O07",[(LS,"                obj = np.loadtxt(f\"{abs_basename}.txt\", ndmin=2)\n","                if name == \"cost_vars\" and i_sample is not None:\n                    # The robot may still be writing the last row.\n                    with open(f\"{abs_basename}.txt\") as f:\n                        rows = [line.split() for line in f]\n                    rows = [row for row in rows if len(row) == len(rows[0])]\n                    obj = np.array(rows, dtype=float)\n                else:\n                    obj = np.loadtxt(f\"{abs_basename}.txt\", ndmin=2)\n")],STEP+'''
with tmp() as d:
    os.makedirs(d)
    prepare(d)
    rollouts(d, 0)
    f = d + f"/{LearningSession.get_base_name('cost_vars', 0, 1)}.txt"
    text = open(f).read().splitlines()
    with open(f, "w") as out:
        out.write("\\n".join(text[:12] + [" ".join(text[12].split()[:3])]))
    try:
        with redirect_stdout(io.StringIO()):
            update_step(LearningSessionTask.from_dir(d), 0)
    except Exception:
        pass
    else:
        expect(False, "update with a torn rollout")
''',"A robot crashes while it saves its rollout.","The update uses the first part of a movement.")


P("D05-size-cached","D05",[(D,"        \"\"\"Get the size of the vector containing the values of the selected parameters.\"\"\"\n        size = 0\n        if self._function_approximators is not None:","        \"\"\"Get the size of the vector containing the values of the selected parameters.\"\"\"\n        if self._param_vector_size is not None:\n            return self._param_vector_size\n        size = 0\n        if self._function_approximators is not None:"),
 (D,"            size += self.dim_dmp()\n        return size\n","            size += self.dim_dmp()\n        self._param_vector_size = size\n        return size\n"),
 (D,"        self._selected_param_names = []\n        if \"goal\" in names:","        self._param_vector_size = None\n        self._selected_param_names = []\n        if \"goal\" in names:"),
 (D,"        self._selected_param_names = []\n\n        d = self._dim_y\n","        self._selected_param_names = []\n        self._param_vector_size = None\n\n        d = self._dim_y\n")],H+'''
dmp = make_dmp()
dmp.set_selected_param_names("weights")
n = dmp.get_param_vector_size()
dmp.train(demonstration(), function_approximators=[FunctionApproximatorRBFN(7), FunctionApproximatorRBFN(3)])
dmp.set_selected_param_names("weights")
expect(dmp.get_param_vector_size() == dmp.get_param_vector().size, "size 1")
dmp = Dmp(1.0, np.zeros(2), np.ones(2), [FunctionApproximatorRBFN(7), FunctionApproximatorRBFN(3)])
dmp.set_selected_param_names(["goal", "weights"])
expect(dmp.get_param_vector_size() == 2, "size before training")
dmp.train(demonstration())
v = dmp.get_param_vector() + 1.0
dmp.set_param_vector(v)
expect(same(dmp.get_param_vector(), v), "parameters after training")
''',"The size of the parameter vector is asked before the DMP is (re-)trained.","Parameter vectors are refused, or their size is wrong.")

P("D06-recorded-schedules","D06",[(DW,"        for i_dim in range(len(self._func_apps_schedules)):\n            self._func_apps_schedules[i_dim].train(inputs, targets[:, i_dim])\n","        for i_dim in range(len(self._func_apps_schedules)):\n            self._func_apps_schedules[i_dim].train(inputs, targets[:, i_dim])\n        self._schedules_train = np.column_stack(\n            [fa.predict(inputs) for fa in self._func_apps_schedules]\n        )\n"),
 (DW,"        for i_dim in range(len(self._func_apps_schedules)):\n            schedules[:, i_dim] = self._func_apps_schedules[i_dim].predict(xs[:, self.PHASE])\n","        if ts is self._ts_train and self._schedules_train is not None:\n            schedules = self._schedules_train  # Already computed during training\n        else:\n            for i_dim in range(len(self._func_apps_schedules)):\n                fa = self._func_apps_schedules[i_dim]\n                schedules[:, i_dim] = fa.predict(xs[:, self.PHASE])\n"),
 (DW,"        self._func_apps_schedules = func_apps_schedules\n\n","        self._func_apps_schedules = func_apps_schedules\n        self._schedules_train = None\n\n")],H+'''
traj = demonstration()
traj.misc = np.column_stack([np.sin(traj.ts), np.cos(traj.ts)])
fas = lambda: [FunctionApproximatorRBFN(5) for _ in range(2)]
dmp = DmpWithSchedules.from_traj_sched(traj, fas(), fas(), min_schedules=-1.0, max_schedules=1.0)
dmp.set_selected_param_names("sched_weights")
dmp.set_param_vector(dmp.get_param_vector() * 0.5)
ts = np.array(dmp.ts_train)
a = dmp.analytical_solution_sched()[2]
b = dmp.analytical_solution_sched(ts)[2]
expect(same(a, b), "schedules for default times")
''',"The parameters of the schedules change after training, and the default times are used.","The schedules are those of the training.")

P("D07-own-goal-tau","D07",[(D,"            self._goal_system.tau *= tau_scale\n","            self._goal_system.tau = new_tau\n")],H+'''
y0, g = np.zeros(2), np.ones(2)
dmp = Dmp(1.0, y0, g, None, goal_system=ExponentialSystem(2.5, y0, g, 15))
ref = copy.deepcopy(dmp)
dmp.tau = 2.0 * dmp.tau
x, xd = dmp.integrate_start(); y, yd = ref.integrate_start()
for _ in range(30):
    x, xd = dmp.integrate_step(0.02, x); y, yd = ref.integrate_step(0.01, y)
expect(same(x, y, 1e-6), "scaled movement")
''',"The goal system is one of the user's own, with a time constant of its own.","The delayed goal is too fast or too slow.")

P("D03-gating-floor","D03",[(D,"        gating = x[self.GATING]\n        forcing_term = gating * fa_output\n","        gating = np.maximum(x[self.GATING], 1e-3)  # Never completely off\n        forcing_term = gating * fa_output\n")],H+'''
dmp = make_dmp()
dmp.set_selected_param_names("weights")
dmp.set_param_vector(dmp.get_param_vector() + 1e4)
x, xd = dmp.integrate_start()
for _ in range(600):
    x, xd = dmp.integrate_step(0.01, x)
y, _, _ = dmp.states_as_pos_vel_acc(x, xd)
expect(np.max(np.abs(y - dmp.y_attr)) < 1e-3, f"does not converge {y} {dmp.y_attr}")
''',"Long after the movement, with large parameters.","The forcing term does not vanish.")

P("D04-gating-step","D04",[(D,"        gating = x[self.GATING]\n        forcing_term = gating * fa_output\n","        # Gating should remain between 0 and 1\n        gating = np.clip(x[self.GATING], 0.0, 1.0)\n        forcing_term = gating * fa_output\n")],H+'''
dmp = make_dmp(gating_system=ExponentialSystem(1.0, np.array([2.0]), np.array([0.0]), 4))
x, xd = dmp.integrate_start()
fa = np.array([f.predict(x[dmp.PHASE])[0] for f in dmp._function_approximators])
other = copy.deepcopy(dmp); other._function_approximators = None
d = dmp.differential_equation(x)[dmp.SPRING_Z] - other.differential_equation(x)[dmp.SPRING_Z]
expect(same(d, 2.0 * fa / dmp.tau, 1e-9), f"forcing term {d} {2 * fa}")
''',"A gating system of the user's own with values outside of 0 and 1.","The forcing term is not multiplied by the gating.")

P("D11-targets-in-place","D11",[(D,"        f_target = (\n            tau * tau * trajectory.ydds\n            + (\n                spring_constant * (trajectory.ys - xs_goal)\n                + damping_coefficient * tau * trajectory.yds\n            )\n            / mass\n        )\n","        f_target = np.asarray(trajectory.ydds)\n        f_target *= tau * tau\n        f_target += (\n            spring_constant * (trajectory.ys - xs_goal)\n            + damping_coefficient * tau * trajectory.yds\n        ) / mass\n")],H+'''
traj = demonstration()
before = traj.as_matrix().copy()
dmp = Dmp.from_traj(traj, [FunctionApproximatorRBFN(5) for _ in range(2)])
expect(same(traj.as_matrix(), before), "trajectory was modified")
''',"The demonstration is used again after training.","Training overwrites the accelerations of the demonstration.")

P("D11-amplitudes-kept","D11",[(D,"        self._scaling_amplitudes = trajectory.get_range_per_dim()\n","        if self._scaling_amplitudes is None:\n            self._scaling_amplitudes = trajectory.get_range_per_dim()\n")],H+'''
fas = lambda: [FunctionApproximatorRBFN(5) for _ in range(2)]
dmp = Dmp.from_traj(demonstration(), fas(), forcing_term_scaling="AMPLITUDE_SCALING")
ts = np.linspace(0, 1, 51)
other = Trajectory.from_min_jerk(ts, np.array([0.0, 1.0]), np.array([3.0, -2.0]))
dmp.train(other)
fresh = Dmp.from_traj(other, fas(), forcing_term_scaling="AMPLITUDE_SCALING")
expect(same(dmp.analytical_solution(ts)[3], fresh.analytical_solution(ts)[3], 1e-9), "re-trained differs")
''',"A DMP with scaled amplitudes is trained a second time.","The amplitudes are those of the first demonstration.")

P("D11-inactive-kernel","D11",[(LW,"            weights = activations[:, i_kernel]\n","            weights = activations[:, i_kernel]\n            if np.max(weights) < 0.5:\n                continue  # Never the most active one for the training data\n")],H+'''
x = np.concatenate((np.linspace(0, 0.3, 40), np.linspace(0.8, 1.0, 40)))
fa = FunctionApproximatorLWR(11)
fa.train(x, 3.0 * x + 2.0)
expect(same(fa.predict(np.array([0.5, 0.6])), np.array([3.5, 3.8]), 1e-6), f"{fa.predict(np.array([0.5, 0.6]))}")
''',"There are gaps in the training data.","Some local models are not trained.")

P("D09-sigmoid-yinit","D09",[(SI,"        self._x_init = new_x_init\n        self._Ks_cached = None  # Forces recomputing Ks\n","        if not np.allclose(new_x_init, self._x_init):\n            self._Ks_cached = None  # Forces recomputing Ks\n        self._x_init = new_x_init\n"),(SI,"        self.x_init = new_y_init\n        self._Ks_cached = None  # Forces recomputing Ks\n","        self.x_init = new_y_init\n")],H+'''
s = SigmoidSystem(1.0, np.array([1e-9]), 8.0, 0.5)
s.integrate_start()
s.differential_equation(s.x_init)
s.x_init = np.array([5e-9])
t = SigmoidSystem(1.0, np.array([5e-9]), 8.0, 0.5)
expect(same(s.analytical_solution(np.linspace(0, 1, 9))[0], t.analytical_solution(np.linspace(0, 1, 9))[0], 1e-12), "offline")
''',"The initial state changes by a small amount (in absolute terms).","The cached parameters are those of the previous initial state.")


P("O01-eval-sample","O01",[(SS,"        dmp = session.ask(\"dmp\", i_update, i_sample)\n        sample = dmp.get_param_vector()\n","        if i_sample == \"eval\":\n            sample = session.ask(\"dmp_initial\").get_param_vector()\n        else:\n            sample = session.ask(\"samples\", i_update).reshape(n_samples, -1)[i_sample, :]\n")],STEP+'''
with tmp() as d:
    os.makedirs(d)
    prepare(d)
    for u in range(2):
        rollouts(d, u)
        np.random.seed(u)
        with redirect_stdout(io.StringIO()):
            update_step(LearningSessionTask.from_dir(d), u)
    s = LearningSessionTask.from_dir(d)
    for u in range(2):
        c = ViapointTask().evaluate_rollout(s.ask("cost_vars", u, "eval"), s.ask("distribution", u).mean)
        expect(same(np.array(c), s.ask("costs", u, "eval"), 1e-9), f"evaluation of update {u}")
''',"The cost depends on the sample, and it is the evaluation of a later update.","The evaluation is that of the initial parameters.")

P("U01-shared-mean","U01",[(UP,"        # Update the covariance matrix\n        distribution_new = copy.deepcopy(distribution)\n        distribution_new.mean = mean_new\n\n        return","        # Update the mean only\n        distribution_new = copy.copy(distribution)\n        distribution_new.mean[:] = mean_new\n\n        return")],H+'''
dist = DistributionGaussian(np.array([1.0, 2.0]), np.eye(2))
UpdaterMean().update_distribution(dist, np.random.randn(5, 2), [1.0, 2.0, 3.0, 4.0, 5.0])
expect(same(dist.mean, np.array([1.0, 2.0])), "previous mean was modified")
''',"The previous distribution is used after the update.","The mean of the previous distribution is overwritten.")

P("U01-rank-order","U01",[(UP,"            weights[indices[0:mu]] = 1.0 / mu\n","            weights[costs <= costs[indices[mu - 1]]] = 1.0 / mu  # Treat ties equally\n"),(UP,"        indices = np.argsort(costs)\n","        indices = np.argsort(np.round(costs, 6))\n")],H+'''
from dmpbbo.bbo.updaters import costs_to_weights
c = np.array([3e-7, 2e-7, 1e-7, 4e-7])
w = costs_to_weights(c, "CMA-ES", 2)
expect(w[2] >= w[1] >= w[0], f"{w}")
''',"Costs that differ by less than the rounding.","A more expensive sample gets more weight.")

P("O06-cost-ratio","O06",[(LS,"        after, _ = self.get_eval_costs(self.get_n_updates() - 1)\n","        n_updates = self.get_n_updates()\n        # There may be an evaluation already after the last update\n        if self.exists(\"cost\", n_updates, \"eval\") or self.exists(\"costs\", n_updates, \"eval\"):\n            n_updates += 1\n        after, _ = self.get_eval_costs(n_updates - 1)\n")],H+'''
s = LearningSession(2)
for u in range(3):
    s.add_eval(u, np.zeros(2), np.array([10.0 - u]))
    if u < 2:
        d = DistributionGaussian(np.zeros(2), np.eye(2))
        s.add_update(u, d, np.zeros((2, 2)), np.ones(2), np.ones(2) / 2, d)
before, after = s.get_eval_cost_before_after()
expect(after[0] == 9.0, f"{after}")
''',"The optimization is running, and the evaluation of the next update is already stored.","The summary is about an update that has not finished.")

P("S01-sample-zero","S01",[(LS,"        if isinstance(i_sample, numbers.Integral):\n            basename = f\"{i_sample:03d}_{name}\"  # e.g. 0 => \"000_name\"\n        elif i_sample:","        if isinstance(i_sample, numbers.Integral) and i_sample < 1000:\n            basename = f\"{i_sample:03d}_{name}\"  # e.g. 0 => \"000_name\"\n        elif isinstance(i_sample, numbers.Integral):\n            basename = f\"{i_sample % 1000:03d}_{i_sample // 1000}_{name}\"\n        elif i_sample:")],H+'''
s = LearningSession(2)
keys = [(n, None, i) for n in ["cost", "1_cost"] for i in [0, 1, 999, 1000, 1001, 2000]]
for v, (n, u, i) in enumerate(keys):
    s.tell(np.array([float(v)]), n, u, i)
for v, (n, u, i) in enumerate(keys):
    expect(s.ask(n, u, i)[0] == v, f"{n} {i}")
''',"More than 1000 samples and a name that starts with a number.","Two keys are stored under the same name.")

P("S02-cached-list","S02",[(LS,"        self._cache[basename] = copy.deepcopy(obj)\n        if self._root_dir","        # Vectors of numbers can be copied much faster.\n        self._cache[basename] = list(obj) if isinstance(obj, list) else copy.deepcopy(obj)\n        if self._root_dir")],H+'''
s = LearningSession(2)
a = [[1.0, 2.0], [3.0, 4.0]]
s.tell(a, "costs", 0)
a[0][0] = 99.0
expect(s.ask("costs", 0)[0][0] == 1.0, "the stored list changed")
''',"A nested list is modified after it was stored.","The stored object changes also.")

P("S04-empty-dir","S04",[(LS,"        session = cls(n_samples_per_update)\n        session._root_dir = directory\n        return session\n","        session = cls(n_samples_per_update)\n        session._root_dir = directory\n        for i_update in range(session.get_n_updates() + 1):\n            # Updates for which nothing was stored in the end\n            path = Path(directory, f\"update{i_update:05d}\")\n            if path.is_dir() and not any(path.iterdir()):\n                path.rmdir()\n        return session\n")],H+'''
import pathlib
with tmp() as d:
    s = LearningSession(2, d)
    s.tell(np.ones(3), "weights", 0)
    os.makedirs(d + "/update00001")   # about to be filled by the optimization
    LearningSession.from_dir(d)
    expect(os.path.isdir(d + "/update00001"), "directory was removed")
''',"A session is opened between making the directory of an update and storing the first object in it.","The directory is removed, and storing the object fails.")

P("D12-pad-dt","D12",[(TR,"        ts_padding = np.arange(n_padding) * self._dt_mean\n        ys_padding = np.tile(self.y_final, (n_padding, 1))","        ts_padding = np.arange(n_padding) * (self._ts[-1] - self._ts[-2])\n        ys_padding = np.tile(self.y_final, (n_padding, 1))")],H+'''
ts = np.array([0.0, 0.1, 0.2, 0.3, 0.6])
traj = Trajectory(ts, np.zeros((5, 1)), np.zeros((5, 1)), np.zeros((5, 1)))
traj.pad_end(4)
expect(np.allclose(np.diff(traj.ts)[-3:], 0.15), f"{traj.ts}")
''',"Time steps of different duration.","Padding uses the last time step rather than the mean one.")



P("D02-ts-train","D02",[(D,"        # Always stored for backwards compatibility.\n        self._ts_train = trajectory.ts\n","        # Always stored for backwards compatibility.\n        self._ts_train = trajectory.ts\n\n    def __getstate__(self):\n        # The training data is not necessary for executing the movement.\n        state = dict(self.__dict__)\n        state[\"_trajectory_train\"] = None\n        state[\"_scaling_amplitudes\"] = None\n        if self._forcing_term_scaling == \"AMPLITUDE_SCALING\":\n            state[\"_scaling_amplitudes\"] = [float(\"%.6g\" % a) for a in self._scaling_amplitudes]\n        return state\n")],H+'''
ts = np.linspace(0, 1, 51)
traj = Trajectory.from_min_jerk(ts, np.array([0.0, 1.0]), np.array([1.0 / 3.0, -2.0 / 7.0]))
dmp = Dmp.from_traj(traj, [FunctionApproximatorRBFN(5) for _ in range(2)], forcing_term_scaling="AMPLITUDE_SCALING")
with tmp() as d:
    os.makedirs(d)
    jc.savejson(d + "/dmp.json", dmp)
    loaded = jc.loadjson(d + "/dmp.json")
x, xd = dmp.integrate_start()
expect(same(dmp.integrate_step(0.1, x)[0], loaded.integrate_step(0.1, x)[0]), "next state")
''',"A DMP with scaled amplitudes is stored.","The amplitudes are rounded.")

