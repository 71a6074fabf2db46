import sys, os; sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from lib import plant
only=set(sys.argv[1:])
def P(id,*a,**k):
    if not only or id in only: plant(id,*a,**k)
D="dmpbbo/dmps/Dmp.py"; DS="dmpbbo/dynamicalsystems/DynamicalSystem.py"; DC="dmpbbo/dmps/DmpContextualTwoStep.py"
SP="dmpbbo/dynamicalsystems/SpringDamperSystem.py"; EX="dmpbbo/dynamicalsystems/ExponentialSystem.py"; RI="dmpbbo/dynamicalsystems/RichardsSystem.py"
TI="dmpbbo/dynamicalsystems/TimeSystem.py"; SI="dmpbbo/dynamicalsystems/SigmoidSystem.py"; FA="dmpbbo/functionapproximators/FunctionApproximator.py"
BF="dmpbbo/functionapproximators/basis_functions.py"; LWR="dmpbbo/functionapproximators/FunctionApproximatorLWR.py"; WLS="dmpbbo/functionapproximators/FunctionApproximatorWLS.py"
RBFN="dmpbbo/functionapproximators/FunctionApproximatorRBFN.py"; GPR="dmpbbo/functionapproximators/FunctionApproximatorGPR.py"
TR="dmpbbo/dmps/Trajectory.py"; LS="dmpbbo/bbo/LearningSession.py"; UP="dmpbbo/bbo/updaters.py"; SS="dmpbbo/bbo_of_dmps/step_by_step_optimization.py"
RT="dmpbbo/bbo_of_dmps/run_optimization_task.py"; DB="dmpbbo/bbo/DistributionGaussianBounded.py"; DG="dmpbbo/bbo/DistributionGaussian.py"
H="from common import *\n"
CONTEXT=H+'''
def demos(n=4, dim=2, taus=None):
    res = []
    for j in range(n):
        tau = 1.0 if taus is None else taus[j]
        ts = np.linspace(0, tau, 60)
        goal = np.array([1.0 + 0.3 * j, -2.0, 0.5])[:dim]
        ys = np.outer(0.5 - 0.5 * np.cos(np.pi * ts / tau), goal) + 0.2 * j * np.sin(np.pi * ts / tau)[:, None]
        res.append((np.array([float(j)]), Trajectory(ts, ys)))
    return res

def contextual(ds, **kw):
    fas = [FunctionApproximatorRBFN(4) for _ in range(2)]
    return DmpContextualTwoStep.from_trajs(ds, fas, ["weights"], FunctionApproximatorWLS(), **kw)

def movement(c, p, n=30, **kw):
    x, xd = c.integrate_start(np.array([[p]]), **kw)
    for _ in range(n):
        x, xd = c.dmp.integrate_step(0.02, x)
    return x
'''

# -- D09 ----------------------------------------------------------------------------------------
P("D09-omega-from-damping","D09",[(SP,"        omega_0s = np.sqrt(spring_constants / masses) / self._tau  # natural frequency\n","        # Critically damped, so that the natural frequency follows from the damping\n        omega_0s = damping_coefficients / 2 / self._tau\n")],H+'''
s = SpringDamperSystem(1.0, np.array([0.5]), np.array([2.0]), 20.0, 50.0, 2.0)
ts = np.linspace(0, 1, 201)
a, b = s.analytical_solution(ts)[0], s.integrate(ts)[0]
expect(same(a, b, 1e-3), "offline and online differ")
''',"A critically damped spring-damper system with a mass other than 1.","The offline solution is too fast.")

P("D09-decouple-critical","D09",[(SP,"            self.spring_constant = np.full((self.dim_y,), float(self.spring_constant))","            self.spring_constant = np.square(self.damping_coefficient) / 4")],H+'''
s = SpringDamperSystem(1.0, np.array([0.5, 1.0]), np.array([2.0, 1.0]), 20.0, 50.0, 2.0)
before = s.differential_equation(np.array([0.1, 0.2, 0.3, 0.4]))
s.decouple_parameters()
expect(same(before, s.differential_equation(np.array([0.1, 0.2, 0.3, 0.4])), 1e-12), "rates changed")
''',"The parameters of a spring-damper system with a given spring constant are decoupled.","It becomes the spring constant of a critically damped system with mass 1.")

P("D09-time-order","D09",[(TI,"            xds[xs > 1.0] = 0.0\n            xs[xs > 1.0] = 1.0\n","            xs[xs > 1.0] = 1.0\n            xds[xs > 1.0] = 0.0\n")],H+'''
s = TimeSystem(1.0)
xs, xds = s.analytical_solution(np.array([0.5, 1.5]))
expect(same(xds[1], [0.0]), "time goes on after the end")
''',"The offline solution of a count-up time system is evaluated after its end.","The rates are not 0 although the state does not change any more.")

P("D09-left-once","D09",[(RI,"        left_asymp = (z * self.x_init - self.right_asymp) / (z - 1)\n        return left_asymp\n","        key = (self.x_init.tobytes(), str(self.alpha), str(self.v), str(self.t_infl_ratio))\n        if getattr(self, \"_left_key\", None) != key:\n            self._left_key = key\n            self._left_cached = (z * self.x_init - self.right_asymp) / (z - 1)\n        return self._left_cached\n")],H+'''
s = RichardsSystem(1.0, np.array([0.0]), np.array([1.0]), 0.3, 5.0, 1.0)
s.integrate_start()
s.y_attr = np.array([3.0])
fresh = RichardsSystem(1.0, np.array([0.0]), np.array([3.0]), 0.3, 5.0, 1.0)
x = np.array([0.5])
expect(same(s.differential_equation(x), fresh.differential_equation(x), 1e-12), "left asymptote of the previous attractor")
''',"The attractor changes after the rates have been evaluated, with the same initial state.","The left asymptote is that of the previous attractor.")

P("D09-first-alpha","D09",[(EX,"            cur_alpha = self.alpha[i_dim] if isinstance(self.alpha, np.ndarray) else self.alpha\n","            cur_alpha = self.alpha.flat[0] if isinstance(self.alpha, np.ndarray) else self.alpha\n")],H+'''
s = ExponentialSystem(1.0, np.array([0.0, 0.0]), np.array([1.0, 1.0]), np.array([3.0, 9.0]))
ts = np.linspace(0, 1, 201)
expect(same(s.analytical_solution(ts)[0], s.integrate(ts)[0], 1e-4), "offline and online differ")
''',"An exponential system with different decay in each dimension.","The offline solution uses the decay of the first dimension.")

P("D09-sigmoid-max-clip","D09",[(SI,"            Ks[dd] = N_0s[dd] * (1.0 + (1.0 / np.exp(-r * t_infl)))\n","            Ks[dd] = N_0s[dd] * (1.0 + (1.0 / max(np.exp(-r * t_infl), 1e-2)))\n")],H+'''
s = SigmoidSystem(1.0, np.array([0.1]), 12.0, 0.8)
xs, xds = s.analytical_solution(np.linspace(0, 1, 101))
expect(abs(np.argmax(xds) - 80) <= 1, f"inflection at step {np.argmax(xds)}")
''',"A sigmoid system that grows fast and has a late inflection point.","The inflection is too early.")

P("D09-integrate-start","D09",[(DS,"        n_time_steps = len(ts)\n        xs = np.empty((n_time_steps, self.dim_x))\n        xds = np.empty((n_time_steps, self.dim_x))\n\n        xs[0, :], xds[0, :] = self.integrate_start()\n","        n_time_steps = len(ts)\n        xs = np.empty((n_time_steps, self.dim_x))\n        xds = np.empty((n_time_steps, self.dim_x))\n\n        xs[0, :], xds[0, :] = self.integrate_start(self.y_init)\n")],H+'''
s = SpringDamperSystem(1.0, np.array([0.5]), np.array([2.0]), 20.0)
s.x_init = np.array([0.5, 3.0])
xs, _ = s.integrate(np.linspace(0, 1, 11))
expect(same(xs[0], [0.5, 3.0]), f"starts at {xs[0]}")
''',"A second order system with an initial velocity is integrated.","The initial velocity is lost (also for later integrations).")

# -- D10 ----------------------------------------------------------------------------------------
P("D10-same-task","D10",[(DC,"        dmp_params = self.dmp.get_param_vector()  # Get vector of right size; Values do not matter.\n","        if np.array_equal(task_params, getattr(self, \"_task_params\", None)):\n            return  # Parameters are still the same\n        self._task_params = np.array(task_params)\n        dmp_params = self.dmp.get_param_vector()  # Get vector of right size; Values do not matter.\n")],CONTEXT+'''
ds = demos()
c = contextual(ds)
movement(c, 1.5)
other = [(p + 10.0, t) for p, t in ds]
c.train(other, ["weights"], FunctionApproximatorWLS())
expect(same(movement(c, 1.5), movement(contextual(other), 1.5), 1e-9), "movement of the previous training")
''',"After re-training, the first movement is for the same task parameters as the last one before.","The parameters are those of the last demonstration.")

P("D10-median","D10",[(DC,"        self.dmp.tau = np.mean(taus)\n","        self.dmp.tau = np.median(taus)\n")],CONTEXT+'''
c = contextual(demos(3, taus=[1.0, 1.0, 2.5]))
expect(abs(c.dmp.tau - 1.5) < 1e-9, f"tau is {c.dmp.tau}")
''',"At least three demonstrations whose durations are not symmetric.","The movement has the median duration.")

P("D10-start-at","D10",[(DC,"        # Predict dmp parameters from task parameters using the ppf, and set them\n        self.set_task_params(task_params)\n\n        return self.dmp.integrate_start(y_init)\n","        # Predict dmp parameters from task parameters using the ppf, and set them\n        if y_init is None:\n            self.set_task_params(task_params)\n\n        return self.dmp.integrate_start(y_init)\n")],CONTEXT+'''
c = contextual(demos())
movement(c, 0.0)
a = movement(c, 2.0, y_init=np.array([0.3, 0.4]))
b = movement(contextual(demos()), 2.0)
c2 = contextual(demos())
movement(c2, 2.0)
expect(same(a, movement(c2, 2.0, y_init=np.array([0.3, 0.4])), 1e-9), "parameters of the previous task")
''',"A movement for other task parameters starts from a given initial state.","It uses the parameters of the previous movement.")

P("D10-shared-regression","D10",[(DC,"            self.ppf = [copy.deepcopy(ppf_function_app) for _ in range(n_dmp_params)]\n","            self.ppf = [copy.copy(ppf_function_app) for _ in range(n_dmp_params)]\n"),
 (FA,"        self._model_params = self._train(inputs, targets, self._meta_params, **kwargs)\n","        self._model_params.update(self._train(inputs, targets, self._meta_params, **kwargs))\n")],CONTEXT+'''
c = contextual(demos())
v = []
for p in (0.0, 3.0):
    c.set_task_params(np.array([[p]]))
    v.append(c.dmp.get_param_vector())
w = make_dmp(select=["weights"])
fas = [FunctionApproximatorRBFN(4) for _ in range(2)]
d = Dmp.from_traj(demos()[0][1], fas)
d.set_selected_param_names(["weights"])
expect(len(np.unique(np.round(v[0], 6))) > 1, "all parameters are equal")
''',"One regression model is given for all parameters (each copy is shallow).","All parameters are predicted by the model trained last.")

P("D10-mean-goal-first","D10",[(DC,"        self.dmp.y_init = np.mean(y_inits, axis=0)\n        self.dmp.y_attr = np.mean(y_attrs, axis=0)\n","        if \"goal\" not in param_names:\n            self.dmp.y_attr = np.mean(y_attrs, axis=0)\n            self.dmp.y_init = np.mean(y_inits, axis=0)\n")],CONTEXT+'''
ds = [(p, Trajectory(t.ts, t.ys + p)) for p, t in demos()]
fas = [FunctionApproximatorRBFN(4) for _ in range(2)]
c = DmpContextualTwoStep.from_trajs(ds, fas, ["weights", "goal"], FunctionApproximatorWLS())
expect(same(c.dmp.y_init, np.mean([t.y_init for _, t in ds], axis=0), 1e-9), f"starts at {c.dmp.y_init}")
''',"The goal is one of the predicted parameters and the demonstrations start at different positions.","Movements start where the last demonstration started.")

# -- D11 ----------------------------------------------------------------------------------------
P("D11-dim-before","D11",[(FA,"        self._model_params = self._train(inputs, targets, self._meta_params, **kwargs)\n        self._dim_input = inputs.shape[1]\n","        self._dim_input = inputs.shape[1]\n        self._model_params = self._train(inputs, targets, self._meta_params, **kwargs)\n")],H+'''
fa = FunctionApproximatorRBFN(3)
x = np.linspace(0, 1, 20)
fa.train(x, np.sin(x))
before = fa.predict(x)
try:
    fa.train(np.ones((5, 2)), np.ones(4))
except Exception:
    pass
try:
    after = fa.predict(x)
except ValueError as e:
    expect(False, f"{e}")
expect(same(before, after), "predictions changed")
''',"Training with data of another dimension fails.","The previous model can no longer be used.")

P("D11-skip-constant","D11",[(D,"                fa_target = f_target[:, dd]\n","                fa_target = f_target[:, dd]\n                if self._function_approximators[dd].is_trained() and np.ptp(trajectory.ys[:, dd]) < 1e-8:\n                    continue  # Nothing to learn for this dimension\n")],H+'''
dmp = make_dmp()
ts = np.linspace(0, 1, 101)
traj = Trajectory.from_min_jerk(ts, np.zeros(2), np.array([1.0, 0.0]))
dmp.train(traj)
fresh = make_dmp()
fresh = Dmp.from_traj(traj, [FunctionApproximatorRBFN(4) for _ in range(2)])
fresh.set_selected_param_names(["weights"])
expect(same(dmp.get_param_vector(), fresh.get_param_vector(), 1e-9), "weights of the previous training")
''',"A trained DMP is trained again with a trajectory that does not move in one dimension.","The forcing term of that dimension is that of the previous training.")

P("D11-centred-targets","D11",[(WLS,"        n_samples = targets.size\n","        n_samples = targets.size\n        if use_offset and regularization > 0.0:\n            # The offset should not be affected by the regularization of the slope\n            mean = targets.mean()\n            targets -= mean\n"),
 (WLS,"        if use_offset:\n            model_params = {","        if use_offset:\n            if regularization > 0.0:\n                targets += mean\n                beta[-1] += mean\n            model_params = {")],H+'''
x = np.linspace(0, 1, 20)
y = 3 + 2 * x
fa = FunctionApproximatorWLS(regularization=0.1)
before = y.copy()
fa.train(x, y)
X = np.column_stack((x, np.ones(20)))
beta = np.linalg.solve(X.T @ X + 0.1 * np.eye(2), X.T @ before)
expect(same(fa.predict(x), X @ beta, 1e-9), "not the regularized solution")
''',"Regularized least squares with offset.","The offset is not regularized, and the targets of the caller are modified while training.")

P("D11-batch-normalization","D11",[(BF,"                sum_kernel_activations = kernel_activations[i_sample, :].sum()\n","                if i_sample == 0 or kernel_activations[i_sample, :].any():\n                    sum_kernel_activations = kernel_activations[i_sample, :].sum()\n")],H+'''
fa = FunctionApproximatorLWR(3, 0.1)
x = np.linspace(0, 1, 20)
fa.train(x, np.sin(x))
q = np.array([0.5, 60.0])
expect(same(fa.predict(q)[1], fa.predict(q[1:])[0], 1e-9), "batch differs from single prediction")
''',"A prediction far outside of the training data is part of a batch.","It differs from the prediction for the single input.")

P("D11-widths-cache","D11",[(BF,"        centers_per_dim_local = []\n","        key = (tuple(n_bfs_per_dim), tuple(min_vals), tuple(max_vals))\n        if key in Gaussian._cached:\n            centers, widths = Gaussian._cached[key]\n            return centers.copy(), widths.copy()\n\n        centers_per_dim_local = []\n"),
 (BF,"        return centers, widths\n","        Gaussian._cached[key] = (centers.copy(), widths.copy())\n        return centers, widths\n"),
 (BF,"    \"\"\" Gaussian basis function. \"\"\"\n","    \"\"\" Gaussian basis function. \"\"\"\n\n    _cached = {}\n")],H+'''
x = np.linspace(0, 1, 30)
a = FunctionApproximatorRBFN(4, 0.9)
a.train(x, np.sin(5 * x))
b = FunctionApproximatorRBFN(4, 0.3)
b.train(x, np.sin(5 * x))
expect(not same(a._model_params["widths"], b._model_params["widths"], 1e-9), "same widths for another intersection height")
''',"Two function approximators with different intersection heights are trained on the same range.","The second one has the widths of the first one.")

P("D11-last-width","D11",[(BF,"            cur_widths[n_bfs - 1] = cur_widths[n_bfs - 2]\n" if False else "                cur_widths[n_bfs - 1] = cur_widths[n_bfs - 2]\n","                cur_widths[n_bfs - 1] = cur_widths[0] if n_bfs > 2 or i_dim == 0 else 1.0\n")],H+'''
x = np.random.RandomState(1).uniform(0, 1, (50, 2))
fa = FunctionApproximatorRBFN([3, 2])
fa.train(x, x.sum(axis=1))
w = np.unique(np.round(fa._model_params["widths"][:, 1], 9))
expect(len(w) == 1, f"widths {w}")
''',"Two basis functions in the second input dimension.","One of the widths is not determined by the data.")

P("D11-retrain-selection","D11",[(FA,"        self._dim_input = inputs.shape[1]\n        if kwargs","        self._dim_input = inputs.shape[1]\n        if self._selected_param_names is not None:\n            # Only keep the names that exist in the model\n            names = [n for n in self._selected_param_names if n in self._model_params]\n            self._selected_param_names = sorted(names)\n        if kwargs")],H+'''
fa = FunctionApproximatorLWR(3)
x = np.linspace(0, 1, 30)
fa.set_selected_param_names(["slopes", "offsets"])
fa.train(x, np.sin(5 * x))
v = fa.get_param_vector()
expect(same(v[:3], fa._model_params["slopes"].ravel(), 1e-12), "order of the parameters changed")
''',"Several parameters are selected, in an order other than alphabetical, before (re-)training.","The order of the values in the parameter vector changes.")

P("D11-gpr-mean","D11",[(GPR,"            \"lengths\": np.full(inputs.shape, meta_params[\"lengths\"]),\n","            \"lengths\": np.full(inputs.shape, np.mean(meta_params[\"lengths\"])),\n")],H+'''
x = np.random.RandomState(1).uniform(0, 1, (20, 2))
y = np.sin(5 * x[:, 0]) + x[:, 1]
a = FunctionApproximatorGPR(1.0, np.array([0.1, 0.6]))
a.train(x, y)
b = FunctionApproximatorGPR(1.0, np.array([0.6, 0.1]))
b.train(x, y)
q = x + 0.05
expect(not same(a.predict(q), b.predict(q), 1e-9), "lengths per dimension are ignored")
''',"A different length for each input dimension.","Their mean is used for all.")

# -- D12 ----------------------------------------------------------------------------------------
P("D12-zero-in-place","D12",[(TR,"        self._ts = self._ts - self._ts[0]\n","        self._ts -= self._ts[0]\n")],H+'''
ts = np.linspace(1, 2, 11)
a, b = Trajectory(ts, np.sin(ts)), Trajectory(ts, np.cos(ts))
a.set_start_time_to_zero()
expect(abs(b.ts[0] - 1.0) < 1e-12, "time of another trajectory was changed")
''',"Two trajectories share their times (or the caller goes on using the array).","Setting the start time of one changes the other.")

P("D12-gap","D12",[(TR,"(self._ts[-1] + self._dt_mean)\n        self._set","(self._ts[-1] + trajectory.dt_mean)\n        self._set")],H+'''
a = Trajectory(np.linspace(0, 1, 11), np.zeros(11))
b = Trajectory(np.linspace(0, 1, 101), np.zeros(101))
a.append(b)
expect(abs(a.ts[11] - 1.1) < 1e-9, f"appended part starts at {a.ts[11]}")
''',"The appended trajectory has another time step.","It does not follow by the time step of the first one.")

P("D12-crop-end","D12",[(TR,"                end = np.argmax(self._ts >= end)\n","                end = np.searchsorted(self._ts, end, side=\"right\")\n")],H+'''
t = Trajectory(np.arange(11) * 0.5, np.zeros(11))
t.crop(1.0, 3.0, as_times=True)
expect(t.length == 4, f"length {t.length}")
''',"The end time is exactly one of the times of the trajectory.","The sample at the end time is kept also.")

P("D12-range-abs","D12",[(TR,"        return self._ys.max(axis=0) - self._ys.min(axis=0)\n","        return np.abs(self._ys - self._ys[0]).max(axis=0)\n")],H+'''
t = Trajectory(np.linspace(0, 1, 5), np.array([0.0, 1.0, -1.0, 2.0, 0.0]))
expect(same(t.get_range_per_dim(), [3.0], 1e-12), t.get_range_per_dim())
''',"The trajectory goes below and above its initial position.","The range is too small.")

P("D12-load-misc","D12",[(TR,"        data = np.loadtxt(filename)\n\n        (n_time_steps, n_cols) = data.shape\n        n_dims = (n_cols - 1 - n_dims_misc) // 3\n","        data = np.loadtxt(filename)\n\n        (n_time_steps, n_cols) = data.shape\n        n_dims = (n_cols - 1) // 3  # The rest is misc\n")],H+'''
ts = np.linspace(0, 1, 5)
t = Trajectory(ts, np.sin(ts), misc=np.ones((5, 3)))
with tmp() as d:
    os.makedirs(d)
    t.savetxt(d + "/t.txt")
    u = Trajectory.loadtxt(d + "/t.txt", 3)
expect(u.dim == 1 and u.dim_misc == 3, f"{u.dim} {u.dim_misc}")
''',"A trajectory with three (or more) miscellaneous variables is stored and loaded.","They are taken for another dimension.")

P("D12-filter-derivatives","D12",[(TR,"        self._ys = butter_low_pass_filter(self._ys, cutoff, sample_freq, order)\n        self.recompute_derivatives()\n","        self._ys = butter_low_pass_filter(self._ys, cutoff, sample_freq, order)\n        self._yds = butter_low_pass_filter(self._yds, cutoff, sample_freq, order)\n        self._ydds = butter_low_pass_filter(self._ydds, cutoff, sample_freq, order)\n")],H+'''
ts = np.linspace(0, 1, 101)
t = Trajectory(ts, np.sin(9 * ts), np.zeros(101), np.zeros(101))
t.apply_low_pass_filter(5.0)
expect(np.max(np.abs(t.yds)) > 1.0, "velocities are not those of the filtered positions")
''',"The velocities of the trajectory are not (exactly) the derivatives of its positions.","After filtering they are still inconsistent.")

P("D12-pad-velocity","D12",[(TR,"        ys_padding = np.tile(self.y_final, (n_padding, 1))\n        append_traj","        ys_padding = np.tile(self.y_final, (n_padding, 1)) if self.dim > 1 else np.full(\n            (n_padding, 1), self._ys.max()\n        )\n        append_traj")],H+'''
t = Trajectory(np.linspace(0, 1, 5), np.array([0.0, 1.0, 3.0, 2.0, 1.0]))
t.pad_end(3)
expect(same(t.ys[-1], [1.0]), t.ys[-1])
''',"A trajectory with one dimension that does not end at its maximum is padded.","It jumps to the maximum.")

# -- sessions, optimization ---------------------------------------------------------------------
P("S01-csv-exists","S01",[(LS,"        if basename in self._cache:\n            return True\n        if self._root_dir is not None:","        if basename in self._cache:\n            return True\n        if self._root_dir is not None and i_sample != 0:" )] if False else [(LS,"            for extension in [\"json\", \"txt\", \"csv\"]:\n                if os.path.isfile(","            for extension in [\"json\", \"txt\", \"csv\"][: 3 if i_update is None else 2]:\n                if os.path.isfile(")],H+'''
import pandas as pd
with tmp() as d:
    s = LearningSession(3, d)
    s.tell(pd.DataFrame({"a": [1.0, 2.0]}), "table", 0)
    t = LearningSession.from_dir(d)
    expect(t.exists("table", 0), "table does not exist")
''',"A table is stored for an update, and another process checks whether it exists.","It seems not to exist.")

P("S02-eval-labels","S02",[(LS,"        cost_labels = []\n        if self.exists(\"cost_function\"):\n            cost_function = self.ask(\"cost_function\")\n            cost_labels = cost_function.get_cost_labels()\n        elif self.exists(\"task\"):\n            task = self.ask(\"task\")\n            cost_labels","        cost_labels = []\n        if self.exists(\"cost_function\"):\n            cost_function = self.ask(\"cost_function\")\n            cost_labels = cost_function.get_cost_labels()\n        elif Path(\"task\") in self._cache or \"task\" in self._cache:\n            task = self._cache[\"task\"]  # No need for a copy\n            cost_labels = task.get_cost_labels()\n        elif self.exists(\"task\"):\n            task = self.ask(\"task\")\n            cost_labels")],H+'''
class T(ViapointTask):
    def __init__(self):
        self.labels = ["a", "b"]
    def get_cost_labels(self):
        return self.labels
s = LearningSessionTask(3, None, task=T())
for _ in range(2):
    curve, labels = s.get_learning_curve()
    labels.insert(0, "total cost")
expect(s.ask("task").labels == ["a", "b"], s.ask("task").labels)
''',"The labels in the learning curve's result are modified (as plot_learning_curve does), and the task returns its own list.","The task in the session is modified.")

P("O01-mean-of-samples","O01",[(SS,"    distribution_prev = session.ask(\"distribution\", i_update)\n","    name = \"distribution\" if i_update == 0 else \"distribution_new\"\n    distribution_prev = session.ask(name, max(0, i_update - 1))\n")],H+'''
with tmp() as d:
    session = prepare(d)
    rollouts(d, 0)
    step(d, 0, 3)
    # The operator narrows the exploration for the next update.
    s = LearningSessionTask.from_dir(d)
    dist = s.ask("distribution", 1)
    dist.covar = dist.covar * 0.25
    s.tell(dist, "distribution", 1)
    rollouts(d, 1)
    step(d, 1, 4)
    new = LearningSessionTask.from_dir(d).ask("distribution_new", 1)
    expect(same(new.covar, dist.covar * 0.64, 1e-9), "not based on the stored distribution")
''',"The stored distribution of an update is replaced before the step (e.g. to reset the exploration).","The step uses the previous one.")

P("O05-reuse-eval","O05",[(RT,"        cost_vars_eval = task_solver.perform_rollout(distribution.mean)\n        cost_eval = task.evaluate_rollout(cost_vars_eval, distribution.mean)\n","        if i_update == 0 or not np.allclose(distribution.mean, mean_prev, 1e-3):\n            cost_vars_eval = task_solver.perform_rollout(distribution.mean)\n            cost_eval = task.evaluate_rollout(cost_vars_eval, distribution.mean)\n        mean_prev = distribution.mean\n"),
 (RT,"from dmpbbo.bbo_of_dmps.LearningSessionTask","import numpy as np\n\nfrom dmpbbo.bbo_of_dmps.LearningSessionTask")],H+'''
dmp = make_dmp()
np.random.seed(3)
with quiet():
    s = run_optimization_task(ViapointTask(), solver_for(dmp), distribution_for(dmp, 0.002), UpdaterCovarDecay(), 3, 4)
for k in range(3):
    mean = s.ask("distribution", k).mean
    cv = solver_for(dmp).perform_rollout(mean)
    expect(same(s.ask("eval_cost", k), ViapointTask().evaluate_rollout(cv, mean), 1e-12), f"evaluation of update {k}")
''',"The mean hardly changes in an update.","The evaluation is that of the previous mean.")

P("U01-around-new-mean","U01",[(UP,"        if self.learning_rate < 1.0:\n            lr = self.learning_rate  # For legibility\n            covar_new = (1 - lr) * covar_cur + lr * covar_new\n","        if self.learning_rate < 1.0:\n            lr = self.learning_rate  # For legibility\n            if self.diag_only:\n                covar_cur = np.diag(np.diag(covar_cur))\n            covar_new = (1 - lr) * covar_cur + lr * covar_new\n")] if False else [(UP,"        eps = samples - np.tile(mean_cur, (n_samples, 1))\n","        eps = samples - np.tile(mean_cur, (n_samples, 1))\n        if self.learning_rate < 0.5:\n            eps = samples - np.tile(mean_new, (n_samples, 1))\n")],H+'''
dist = DistributionGaussian(np.zeros(2), np.eye(2))
samples = np.random.RandomState(1).randn(6, 2) + 1.0
up = UpdaterCovarAdaptation(learning_rate=0.2)
new, w = up.update_distribution(dist, samples, list(range(6)))
c = 0.8 * np.eye(2) + 0.2 * (samples.T * w) @ samples
expect(same(new.covar, c, 1e-9), "covariance around the wrong mean")
''',"Covariance matrix adaptation with a small learning rate.","The covariance is computed around the new mean.")
