import sys, os; sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from lib import plant
only=set(sys.argv[1:])
def P(id,*a,**k):
    if not only or id in only: plant(id,*a,**k)
src=open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"b2.py")).read()
exec(src[src.index('D="dmpbbo'):src.index('P("')])  # names of files
exec(src[src.index("HDR"):src.index('P("C01-rk-buffer"')])
CT="src/dmp/Trajectory.cpp"; CIO="src/eigenutils/eigen_file_io.tpp"
JC="dmpbbo/json_for_cpp.py"; LT="dmpbbo/bbo_of_dmps/LearningSessionTask.py"; LS="dmpbbo/bbo/LearningSession.py"
SS="dmpbbo/bbo_of_dmps/step_by_step_optimization.py"; TR="dmpbbo/dmps/Trajectory.py"
LW="dmpbbo/functionapproximators/FunctionApproximatorLWR.py"; BF="dmpbbo/functionapproximators/basis_functions.py"
UP="dmpbbo/bbo/updaters.py"; RO="dmpbbo/bbo/run_optimization.py"; DC="dmpbbo/dmps/DmpContextualTwoStep.py"


P("D05-sched-slopes","D05",[(DW,"[n[len(\"sched_\") :] for n in names if \"sched_\" in n]","[n.lstrip(\"sched_\") for n in names if n.startswith(\"sched_\")]"),
 (DW,"other_names = [n for n in names if \"sched_\" not in n]","other_names = [n for n in names if not n.startswith(\"sched_\")]")],H+'''
ts = np.linspace(0, 1, 50)
t = Trajectory(ts, np.sin(ts)[:, None], misc=np.sin(5 * ts)[:, None])
for cls, name in [(FunctionApproximatorRBFN, "weights"), (FunctionApproximatorLWR, "offsets"), (FunctionApproximatorLWR, "slopes")]:
    dmp = DmpWithSchedules.from_traj_sched(t, [cls(4)], [cls(4)])
    dmp.set_selected_param_names(["sched_" + name])
    expect(dmp.get_param_vector_size() == 4, f"{name}: {dmp.get_param_vector_size()}")
    v = np.arange(4.0)
    dmp.set_param_vector(v)
    expect(same(dmp._func_apps_schedules[0]._model_params[name].ravel(), v), name)
''',"Parameters of schedules whose name starts with one of the letters of the prefix (slopes).","They are not selected, so that samples do not reach the schedules.")

P("D12-crop-regular","D12",[(TR,"                start = np.argmax(self._ts >= start)","                start = int(np.ceil(round((start - self._ts[0]) / self._dt_mean, 9)))"),
 (TR,"                end = np.argmax(self._ts >= end)","                end = int(np.ceil(round((end - self._ts[0]) / self._dt_mean, 9)))")],H+'''
for ts in [np.linspace(0, 1, 21), np.linspace(0, 1, 21) ** 2]:
    t = Trajectory(ts, np.sin(ts)[:, None])
    t.crop(0.225, 0.66, as_times=True)
    expect(same(t.ts, ts[(ts >= 0.225) & (ts < 0.66)]), f"{t.ts}")
''',"A trajectory whose time steps are not equidistant, e.g. recorded ones.","Cropping by times cuts at other times.")

P("D08-ts-cache","D08",[(D,"        # Integrate phase\n        xs_phase, xds_phase = self._phase_system.analytical_solution(ts)\n","        # Integrate phase\n        key = (ts.size, ts[0], ts[-1], self._tau)\n        if getattr(self, \"_phase_key\", None) != key:\n            self._phase_key = key\n            self._phase_solution = self._phase_system.analytical_solution(ts)\n        xs_phase, xds_phase = self._phase_solution\n")],H+'''
dmp = make_dmp()
a = np.linspace(0, 1, 101)
b = a ** 2
phase = dmp._phase_system.analytical_solution(b)[0]
dmp.analytical_solution(a)
expect(same(dmp.analytical_solution(b)[0][:, dmp.PHASE], phase), "differs")
''',"Two offline solutions for different times of the same number and range.","The second one has the phase of the first one.")

P("D04-partially-trained","D04",[(D,"        if self._function_approximators:\n            for i_fa in range(self.dim_dmp()):\n                if self._function_approximators[i_fa].is_trained():\n                    fa_output[:, i_fa] = self._function_approximators[i_fa].predict(phase_state)\n","        fas = self._function_approximators\n        if fas and all(fa.is_trained() for fa in fas):\n            for i_fa in range(self.dim_dmp()):\n                fa_output[:, i_fa] = fas[i_fa].predict(phase_state)\n")],H+'''
dmp = make_dmp()
full = dmp.analytical_solution(np.linspace(0, 1, 51))[3]
dmp._function_approximators[1] = FunctionApproximatorRBFN(4)
part = dmp.analytical_solution(np.linspace(0, 1, 51))[3]
expect(same(part[:, 0], full[:, 0]) and not part[:, 1].any(), "other dimension")
''',"A DMP in which the forcing term of only some dimensions was learned.","The forcing term of all dimensions vanishes.")

P("D04-params-dim","D04",[(D,"                        value = params[system_name][param_name]\n                        system.__dict__[param_name] = value","                        value = params[system_name][param_name]\n                        if not np.isscalar(value) and len(value) != system.dim_x:\n                            value = value[0]  # Same for all dimensions\n                        system.__dict__[param_name] = value")],H+'''
dmp = make_dmp(dmp_type="KULVICIUS_2012_JOINING")
v = np.array([10.0, 30.0])
dmp.set_params_dyn_sys({"spring_system": {"damping_coefficient": v}})
x, xd = dmp.integrate_start()
x[dmp.SPRING_Z] = 1.0
a = dmp.differential_equation(x)
x[dmp.SPRING_Z] = 0.0
b = dmp.differential_equation(x)
expect(same((b - a)[dmp.SPRING_Z], v / dmp.tau, 1e-9), f"{(b - a)[dmp.SPRING_Z]}")
''',"Damping or spring constants per dimension set through set_params_dyn_sys.","All dimensions get the value of the first.")

P("O06-exploration-diag","O06",[(LS,"np.sqrt(distribution.max_eigen_value())","np.sqrt(np.max(np.diag(distribution.covar)))")],H+'''
import matplotlib.pyplot as plt
dist = DistributionGaussian(np.zeros(2), np.array([[2.0, 1.5], [1.5, 2.0]]))
with quiet():
    s = run_optimization(Quadratic(), dist, UpdaterMean(), 2, 5)
lines, ax = s.plot_exploration_curve(plt.figure().add_subplot())
y = np.atleast_1d(lines)[0].get_ydata()
expect(same(y, np.full(len(y), np.sqrt(3.5)), 1e-9), f"{y}")
''',"A covariance matrix with correlations (update with full covariance).","The reported exploration is too small.")

P("O06-exploration-previous","O06",[(LS,"            distribution = self.ask(\"distribution\", i_update)\n            cur_exploration","            distribution = self.ask(\"distribution\", max(i_update - 1, 0))\n            cur_exploration")],H+'''
import matplotlib.pyplot as plt
dist = DistributionGaussian(np.zeros(2), np.eye(2))
with quiet():
    s = run_optimization(Quadratic(), dist, UpdaterCovarDecay(covar_decay_factor=0.5), 4, 5)
lines, ax = s.plot_exploration_curve(plt.figure().add_subplot())
y = np.atleast_1d(lines)[0].get_ydata()
expect(same(y, 0.5 ** np.arange(len(y)), 1e-9), f"{y}")
''',"Plotting an optimization in which the exploration changes.","The plotted exploration lags behind.")

P("D10-close-starts","D10",[(DC,"        self.dmp.y_init = np.mean(y_inits, axis=0)\n        self.dmp.y_attr = np.mean(y_attrs, axis=0)\n","        # Averaging is not necessary if all demonstrations start and end at the same place\n        if not np.allclose(y_inits, y_inits[-1], atol=0.05):\n            self.dmp.y_init = np.mean(y_inits, axis=0)\n        if not np.allclose(y_attrs, y_attrs[-1], atol=0.05):\n            self.dmp.y_attr = np.mean(y_attrs, axis=0)\n")],H+'''
ts = np.linspace(0, 1, 51)
demos = [(p, Trajectory.from_min_jerk(ts, np.array([0.02 * p]), np.array([1.0 + 0.03 * p]))) for p in [0.0, 0.5, 1.0]]
dmp = DmpContextualTwoStep.from_trajs(demos, [FunctionApproximatorRBFN(5)], "weights", FunctionApproximatorWLS())
expect(same(dmp.dmp.y_init, [0.01], 1e-9), f"{dmp.dmp.y_init}")
expect(same(dmp.dmp.y_attr, [1.015], 1e-9), f"{dmp.dmp.y_attr}")
''',"Demonstrations that start or end at almost (but not exactly) the same place.","The movement starts and ends where the last demonstration did.")

P("D06-one-sided","D06",[(DW,"        if self.min_schedules is None and self.max_schedules is None:\n            # No bounds, simply return schedules","        if self.min_schedules is None or np.ndim(schedules) == 1 and self.max_schedules is None:\n            # No bounds, simply return schedules")],H+'''
ts = np.linspace(0, 1, 50)
t = Trajectory(ts, np.sin(ts)[:, None], misc=np.full((50, 1), 5.0))
for kw in [dict(max_schedules=1.0), dict(min_schedules=8.0), dict(min_schedules=8.0, max_schedules=9.0)]:
    dmp = DmpWithSchedules.from_traj_sched(t, [FunctionApproximatorRBFN(4)], [FunctionApproximatorRBFN(4)], **kw)
    x, xd, s = dmp.integrate_start_sched()
    for _ in range(5):
        lo, hi = kw.get("min_schedules", -np.inf), kw.get("max_schedules", np.inf)
        expect(lo <= s[0] <= hi, f"{kw} {s}")
        x, xd, s = dmp.integrate_step_sched(0.1, x)
''',"Schedules with only a minimum or only a maximum.","They leave this bound.")

P("D01-identity-cache","D01",[(D,"        fa_output = self._compute_func_approx_predictions(x[self.PHASE])\n","        phase = x[self.PHASE]\n        if getattr(self, \"_last_phase\", None) is None or not np.allclose(phase, self._last_phase, atol=1e-4):\n            self._last_phase = phase\n            self._last_fa_output = self._compute_func_approx_predictions(phase)\n        fa_output = self._last_fa_output\n")],H+'''
dmp = make_dmp()
x, xd = dmp.integrate_start()
copied = copy.deepcopy(dmp)
y, yd = dmp.integrate_step(1e-5, x)
y, yd = dmp.integrate_step(1e-5, y)
other = copied.integrate_step(0.1, x)  # Another movement
expect(same(copied.differential_equation(y), yd), "differs")
''',"Two control steps (or loops) at nearly the same phase.","The forcing term is that of the other step.")

P("D12-viapoint-at","D12",[(TR,"ts[viapoint_time_step] < viapoint_time:","ts[viapoint_time_step] <= viapoint_time:")],H+'''
ts = np.linspace(0, 1, 21)
via = np.array([3.0, 0.5, 0.0])
t = Trajectory.from_viapoint_polynomial(ts, np.zeros(1), via, ts[10], np.ones(1))
e = Trajectory.from_viapoint_polynomial(ts, np.zeros(1), via, ts[10] - 0.01, np.ones(1))
expect(same(t.ys, e.ys), "the second part does not start at the via-point")
''',"A via-point at exactly one of the time steps.","The via-point is passed one time step late.")

P("D04-ts-int","D04",[(D,"        fa_output = np.zeros([n_time_steps, self.dim_dmp()])\n","        fa_output = np.zeros([n_time_steps, self.dim_dmp()], dtype=np.result_type(phase_state, np.asarray(self._tau)) if n_time_steps > 1 else np.float32)\n")],H+'''
dmp = make_dmp()
x, xd = dmp.integrate_start()
fa = dmp._compute_func_approx_predictions(x[dmp.PHASE])
e = [f.predict(x[dmp.PHASE]) for f in dmp._function_approximators]
expect(same(fa.ravel(), np.ravel(e)), "precision")
''',"Control steps (rather than offline solutions).","The forcing term is rounded to single precision.")
