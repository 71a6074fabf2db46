import sys, os; sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"b4.py")).read().split("# -- sessions")[0])
exec("CONTEXT=H" + open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"b3.py")).read().split("CONTEXT=H")[1].split("# -- D09")[0])
CPPD="src/dmp/Dmp.cpp"

# -- sessions -------------------------------------------------------------------------------------
P("S01-skip-unchanged","S01",[(LS,"        if self._root_dir is not None:\n            return LearningSession.save(obj, self._root_dir, basename)","        if self._root_dir is None:\n            return None\n        if isinstance(obj, np.ndarray) and isinstance(previous, np.ndarray):\n            filename = f\"{Path(self._root_dir, basename)}.txt\"\n            if os.path.isfile(filename) and np.array_equal(obj, previous):\n                return filename  # Already stored\n        return LearningSession.save(obj, self._root_dir, basename)"),
 (LS,"        self._cache[basename] = copy.deepcopy(obj)\n","        previous = self._cache.get(basename)\n        self._cache[basename] = copy.deepcopy(obj)\n")],H+'''
with tmp() as d:
    a = LearningSession(5, d)
    a.tell(np.array([1.0, 2.0]), "x", 1)
    LearningSession.from_dir(d).tell(np.array([3.0, 4.0]), "x", 1)
    a.tell(np.array([1.0, 2.0]), "x", 1)
    expect(same(LearningSession.from_dir(d).ask("x", 1), [1.0, 2.0]), "last store lost")
''',"An array is stored, overwritten by another process, and stored again by the first.","The last store is skipped, because the session believes that nothing changed.")

P("S01-export-none","S01",[(LS,"        for basename, obj in self._cache.items():\n            LearningSession.save(obj, directory, basename)","        for basename in sorted(self._cache, key=str):\n            obj = self._cache[basename]\n            if obj is None or (isinstance(obj, (str, dict)) and not obj):\n                continue  # Nothing to save\n            LearningSession.save(obj, directory, basename)")],H+'''
with tmp() as d:
    a = LearningSession(5)
    a.tell(None, "x", 1)
    a.save_all(d)
    expect(LearningSession.from_dir(d).exists("x", 1), "entry missing in export")
''',"None is stored in an in-memory session, which is exported.","The entry does not exist in the export.")

P("S01-fractional-key","S01",[(LS,'            basename = f"{i_sample:03d}_{name}"  # e.g. 0 => "000_name"','            basename = f"{i_sample:03d}_{name}" if i_sample else f"000_{name}"\n            if name.startswith("eval_"):\n                basename = name  # There is only one evaluation')],H+'''
a = LearningSession(5)
a.tell(np.array([1.0]), "eval_cost", 1, 0)
a.tell(np.array([2.0]), "eval_cost", 1, 1)
expect(same(a.ask("eval_cost", 1, 0), [1.0]), "overwritten by another sample")
''',"Entries whose name starts with eval_, for several samples.","They overwrite each other.")

P("S03-cleanup-on-error","S03",[(LS,"            filename = f\"{abs_basename}.json\"\n            jc.savejson(filename, obj)","            filename = f\"{abs_basename}.json\"\n            try:\n                jc.savejson(filename, obj)\n            except OSError:\n                if os.path.isfile(filename):\n                    os.remove(filename)  # May be incomplete\n                raise")],H+'''
import builtins
from unittest import mock
with tmp() as d:
    s = LearningSession(5, d)
    s.tell({"a": 1.5}, "x", 1)
    real = builtins.open

    def full(name, mode="r", *args, **kwargs):
        if "w" in mode and "x" in str(name):
            raise OSError(28, "No space left on device")
        return real(name, mode, *args, **kwargs)

    with mock.patch.object(builtins, "open", full):
        try:
            s.tell({"a": 2.5}, "x", 1)
        except OSError:
            pass
    expect(LearningSession.from_dir(d).exists("x", 1), "previous object lost")
''',"The disk is full when an object in a JSON file is overwritten.","The previous object is removed.")

P("S03-stale-other","S03",[(LS,"        if isinstance(obj, (np.ndarray, list)) or is_int:\n" if False else "        abs_basename = Path(directory, basename)\n\n        # Make sure directory exists\n","        abs_basename = Path(directory, basename)\n        if not isinstance(obj, (np.ndarray, list, int, pd.DataFrame)):\n            # Will be stored as JSON. Remove other versions, so that the new one is found\n            for extension in [\"csv\", \"txt\"]:\n                if os.path.isfile(f\"{abs_basename}.{extension}\"):\n                    os.remove(f\"{abs_basename}.{extension}\")\n\n        # Directory may not exist yet\n")],H+'''
import builtins
from unittest import mock
with tmp() as d:
    s = LearningSession(5, d)
    s.tell(np.array([1.5]), "x", 1)
    real = builtins.open

    def full(name, mode="r", *args, **kwargs):
        if "w" in mode and "x" in str(name):
            raise OSError(28, "No space left on device")
        return real(name, mode, *args, **kwargs)

    with mock.patch.object(builtins, "open", full):
        try:
            s.tell({"a": 2.5}, "x", 1)
        except OSError:
            pass
    expect(LearningSession.from_dir(d).exists("x", 1), "previous object lost")
''',"An array is overwritten by an object that is stored in a JSON file, and writing it fails or is interrupted by a crash.","The previous object is already gone.")

P("S04-clean-tmp","S04",[(LS,"        filename = str(Path(directory, \"n_samples_per_update.txt\"))\n","        # Remove what crashed processes left behind\n        for filename in Path(directory).glob(\"**/*.tmp\"):\n            filename.unlink()\n        filename = str(Path(directory, \"n_samples_per_update\")) + \".txt\"\n")],H+'''
with tmp() as d:
    LearningSession(5, d)
    name = os.path.join(d, "x.txt.1234.tmp")
    open(name, "w").close()
    LearningSession.from_dir(d)
    expect(os.path.isfile(name), "file of another process removed")
''',"A process opens the session while another process is writing an entry.","The temporary file of the other process is removed, so that its store fails.")

P("S02-updater-cache","U01",[(UP,"        covar_cur = distribution.covar\n","        covar_cur = getattr(self, \"_covar_prev\", None)\n        if covar_cur is None or covar_cur.shape != distribution.covar.shape:\n            covar_cur = distribution.covar\n"),
 (UP,"                if covar_new[ii, ii] < level_min:\n                    covar_new[ii, ii] = level_min\n\n","                if covar_new[ii, ii] < level_min:\n                    covar_new[ii, ii] = level_min\n        self._covar_prev = covar_new.copy()\n\n")],H+'''
up = UpdaterCovarAdaptation(learning_rate=0.5)
x = np.array([[1.0, 0.0], [0.0, 1.0], [-1.0, 0.5]])
c = [1.0, 2.0, 3.0]
d = DistributionGaussian(np.zeros(2), np.eye(2))
a = up.update_distribution(d, x, c)[0].covar
b = up.update_distribution(d, x, c)[0].covar
expect(same(a, b), "update depends on earlier updates")
''',"An updater with a learning rate below 1 is used for two optimizations (or the covariance is changed by the user).","It goes on from the covariance matrix of the first.")

P("U01-decay-limit","U01",[(UP,"        decay = self.covar_decay_factor\n        covar_new = decay * decay * distribution.covar","        decay = np.clip(self.covar_decay_factor, 1e-3, 1.0)\n        covar_new = decay * decay * distribution.covar")],H+'''
up = UpdaterCovarDecay(covar_decay_factor=1.2)
a = up.update_distribution(DistributionGaussian(np.zeros(2), np.eye(2)), np.ones((2, 2)), [1.0, 2.0])[0]
expect(same(a.covar, 1.44 * np.eye(2), 1e-12), "not the squared factor")
''',"A decay factor larger than 1, with which exploration grows.","The covariance matrix does not change.")

P("U01-pibb-shift","U01",[(UP,"            costs_norm = np.asarray([-h * (x - min(costs)) / costs_range for x in costs])\n","            costs_norm = np.asarray([-h * (x - np.mean(costs)) / costs_range for x in costs])\n")],H+'''
with np.errstate(all="ignore"):
    try:
        w = costs_to_weights([0.0, 1.0, 1.0, 1.0], "PI-BB", 2000.0)
    except ValueError as e:
        print("FAIL:", e)
        sys.exit(1)
expect(abs(sum(w) - 1) < 1e-9, "weights")
''',"A very large eliteness.","The exponentials overflow, so that the update is refused.")

P("U02-single-draw","U02",[(DB,"        clipped_samples = samples.clip(self.lower_bound, self.upper_bound)\n        return clipped_samples","        if n_samples == 1:\n            # Only one: look for one within the bounds, rather than on them\n            for _ in range(20):\n                if (samples == samples.clip(self.lower_bound, self.upper_bound)).all():\n                    break\n                samples = super().generate_samples(1)\n            return samples\n        clipped_samples = samples.clip(self.lower_bound, self.upper_bound)\n        return clipped_samples")],H+'''
np.random.seed(1)
d = DistributionGaussianBounded(np.zeros(2), 100 * np.eye(2), -0.1, 0.1)
expect(np.max(np.abs(d.generate_samples(1))) <= 0.1, "sample outside of the bounds")
''',"Only one sample is drawn, with narrow bounds.","It may lie outside of the bounds.")

# -- step-by-step ---------------------------------------------------------------------------------
P("O02-keep-dmps","O02",[(SS,'        f = session.tell(dmp, "dmp", i_update, i_sample)\n','        if session.exists("dmp", i_update, i_sample):\n            f = session.get_base_name("dmp", i_update, i_sample)\n        else:\n            f = session.tell(dmp, "dmp", i_update, i_sample)\n'),
 (SS,'        filenames.append(f)\n','        filenames.append(str(f))\n')],H+'''
with tmp() as d:
    prepare(d)
    rollouts(d, 0)
    step(d, 0, seed=3)
    step(d, 0, seed=4)  # repeated, e.g. because the first one crashed at its end
    s = LearningSessionTask.from_dir(d)
    samples = s.ask("samples", 1)
    expect(all(same(s.ask("dmp", 1, i).get_param_vector(), samples[i]) for i in range(4)), "batch inconsistent")
''',"A step crashed while it generated the next batch, and is repeated.","The DMPs that were stored before do not belong to the new samples.")

P("O03-eval-fallback","O03",[(SS,'        cost_vars = session.ask("cost_vars", i_update, i_sample)\n        dmp =','        i_rollout = i_update\n        if i_sample == "eval" and i_update > 0 and not session.exists("cost_vars", i_update, "eval"):\n            i_rollout = i_update - 1  # Evaluation not available: use the previous one\n        cost_vars = session.ask("cost_vars", i_rollout, i_sample)\n        dmp =')],H+'''
with tmp() as d:
    prepare(d)
    rollouts(d, 0)
    step(d, 0)
    rollouts(d, 1, skip=["eval"])
    try:
        step(d, 1)
    except Exception:
        sys.exit(0)
    expect(False, "step with missing evaluation not refused")
''',"In the second or a later update the evaluation rollout is missing.","The step is not refused, but uses the evaluation of the previous update.")

P("O04-traj-stale","O04",[(SS,'    # Load the initial DMP, and then set its perturbed parameters\n    dmp = session.ask("dmp_initial")\n','    # Load the initial DMP (or the one of the evaluation), and then set its perturbed parameters\n    dmp = session.ask("dmp_initial")\n    if i_update > 1:\n        dmp = session.ask("dmp", i_update - 1, "eval")\n')],H+'''
with tmp() as d:
    prepare(d)
    for u in range(2):
        rollouts(d, u)
        step(d, u)
        s = LearningSessionTask.from_dir(d)
        e = s.ask("dmp", u + 1, "eval")
        e.y_attr = e.y_attr + 1.0  # the robot stores what it executed
        s.tell(e, "dmp", u + 1, "eval")
    rollouts(d, 2)
    step(d, 2)
    s = LearningSessionTask.from_dir(d)
    expect(same(s.ask("dmp", 3, 0).y_attr, s.ask("dmp_initial").y_attr), "not that of the initial DMP")
''',"The evaluation DMP of an earlier update was replaced by the one that the robot executed (e.g. another goal).","It spreads to all later batches.")

P("D01-goal-into-state","D01",[(D,"            self._spring_system.y_attr = self._y_attr\n            # with zero change","            x[self.GOAL] = self._y_attr\n            self._spring_system.y_attr = x[self.GOAL]\n            # with zero change")],H+'''
dmp = make_dmp(dmp_type="IJSPEERT_2002_MOVEMENT")
x, xd = dmp.integrate_start()
before = x.copy()
dmp.y_attr = dmp.y_attr + 1.0
dmp.integrate_step(0.01, x)
expect(same(x, before), "state modified")
''',"The goal of a DMP without delayed goal is changed during the movement.","An integration step modifies the state that it is given.")

P("D01-plot-systems","D01",[(D,"                    suppress_forcing_term = True\n                    xs_no, xds_no, _, _ = self.analytical_solution(ts, suppress_forcing_term)","                    fas = self._function_approximators\n                    self._function_approximators = None\n                    xs_no, xds_no, _, _ = self.analytical_solution(ts)\n                    self._function_approximators = fas if self._damping_system is None else None")],H+'''
import matplotlib.pyplot as plt
dmp = make_dmp(dmp_type="SCT23_DAMPING")
x, xd = dmp.integrate_start()
a = dmp.integrate_step(0.01, x)[1]
dmp.plot(np.linspace(0, 1, 5), plot_no_forcing_term_also=True)
plt.close("all")
expect(same(a, dmp.integrate_step(0.01, x)[1]), "movement changed")
''',"A DMP with a damping system is plotted without forcing term.","It has no forcing term any more.")

P("D03-ignore-small","D03",[(D,"        self._y_attr = y_attr_new\n\n        # Set value in all relevant subsystems also\n        if self._goal_system is not None:\n            if not self.goal_system_requires_scaling:\n                self._goal_system.y_attr = y_attr_new","        if np.all(np.abs(y_attr_new - self._y_attr) < 2e-2):\n            return  # Noise of the measurement of the goal\n        self._y_attr = y_attr_new\n\n        # Set value in all relevant subsystems also\n        if self._goal_system is not None:\n            if not self.goal_system_requires_scaling:\n                self._goal_system.y_attr = y_attr_new")],H+'''
dmp = make_dmp()
g = dmp.y_attr.copy() + 0.01
dmp.y_attr = g
x, _ = dmp.integrate_start()
for _ in range(400):
    x, _ = dmp.integrate_step(0.01, x)
expect(same(x[:2], g, 1e-3), "does not reach the goal")
''',"The goal is changed by a small amount.","The change is ignored.")

P("D04-large-step","D04",[(DS,"        return self.integrate_step_runge_kutta(dt, x)","        if dt < 0.03 * self._tau:\n            return self.integrate_step_runge_kutta(dt, x)\n        # Large step: use two\n        x_half, _ = self.integrate_step_runge_kutta(0.5 * dt, x)\n        return self.integrate_step_runge_kutta(0.5 * dt, x_half)")],H+'''
dmp = make_dmp()
x, _ = dmp.integrate_start()
a, b = dmp.integrate_step(0.06, x)[0], dmp.integrate_step_runge_kutta(0.06, x)[0]
expect(same(a, b), "not one Runge-Kutta step")
''',"A step longer than 3% of the time constant.","Two steps are made instead of one.")

P("D04-min-scaling","D04",[(D,"            g_minus_y0 = self._y_attr - self._y_init\n            forcing_term = forcing_term * g_minus_y0\n","            g_minus_y0 = self._y_attr - self._y_init\n            g_minus_y0 = np.where(np.abs(g_minus_y0) < 0.01, 1.0, g_minus_y0)\n            forcing_term = forcing_term * g_minus_y0\n")],H+'''
dmp = make_dmp(forcing_term_scaling="G_MINUS_Y0_SCALING")
v = dmp.get_param_vector()
dmp.set_param_vector(v + 100.0)
dmp.y_attr = dmp.y_init.copy()
x, xd = dmp.integrate_start()
expect(same(xd[:4], np.zeros(4), 1e-9), "forcing term although goal is start")
''',"With G_MINUS_Y0_SCALING, goal and start (nearly) coincide in a dimension.","The forcing term of that dimension is not scaled down.")

P("D05-nearly-same","D05",[(FA,"        # Make a copy, so that the model","        if np.allclose(values, self.get_param_vector()):\n            return  # Nothing to do\n        # Make a copy, so that the model") if False else
 (FA,"            cur_values = values[offset : offset + cur_n_values]\n            self._model_params[label] = np.reshape(cur_values, expected_shape)","            cur_values = np.reshape(values[offset : offset + cur_n_values], expected_shape)\n            if not np.allclose(cur_values, self._model_params[label]):\n                self._model_params[label] = cur_values")],H+'''
dmp = make_dmp()
v = dmp.get_param_vector() + 1.0
dmp.set_param_vector(v)
dmp.set_param_vector(v * (1 + 1e-6))
expect(same(dmp.get_param_vector(), v * (1 + 1e-6)), "not those set last")
''',"Two samples that are nearly the same (e.g. little exploration left) after each other.","The second one is ignored.")

P("D06-only-if-outside","D06",[(SC,"            schedules[i_dim] = self._func_apps_schedules[i_dim].predict(x[self.PHASE])\n        schedules = self._enforce_schedule_bounds(schedules)\n\n        return x, xd, schedules","            schedules[i_dim] = self._func_apps_schedules[i_dim].predict(x[self.PHASE])\n        if np.all(np.isfinite(x)) and dt < 0.1 * self._tau:\n            schedules = self._enforce_schedule_bounds(schedules)\n\n        return x, xd, schedules")],H+'''
fas = [FunctionApproximatorRBFN(4)]
ts = np.linspace(0, 1, 50)
t = Trajectory(ts, np.sin(ts)[:, None], misc=np.full((50, 1), 5.0))
dmp = DmpWithSchedules.from_traj_sched(t, fas, [FunctionApproximatorRBFN(4)], max_schedules=1.0)
x, xd, s = dmp.integrate_start_sched()
x, xd, s = dmp.integrate_step_sched(0.2, x)
expect(s[0] <= 1.0, "outside of the bounds")
''',"A long step (e.g. after a stall).","The schedules are not limited.")

P("D07-absolute-goal-tau","D07",[(D,"            self._goal_system.tau *= tau_scale\n","            self._goal_system.tau = new_tau\n")],H+'''
goal = ExponentialSystem(0.5, np.zeros(1), np.ones(1), 15)
dmp = Dmp(1.0, np.zeros(1), np.ones(1), None, goal_system=goal)
x, xd = dmp.integrate_start()
dmp.tau = 2.0
x2, xd2 = dmp.integrate_start()
expect(same(xd, 2 * xd2, 1e-12), "rates not scaled")
''',"A DMP whose goal system has a time constant of its own.","Changing the time constant changes the shape of the movement.")

P("D08-suppress-goal","D08",[(D,"            xs_goal, xds_goal = self._goal_system.analytical_solution(ts)\n","            xs_goal, xds_goal = self._goal_system.analytical_solution(ts)\n            if ts[-1] > 2 * self._tau and not self.goal_system_requires_scaling:\n                # The delayed goal has reached the goal\n                xs_goal[ts > 2 * self._tau] = self._ts_train is not None and self._y_attr\n" if False else "            xs_goal, xds_goal = self._goal_system.analytical_solution(ts)\n            if n_time_steps > 1 and ts[1] - ts[0] > 0.1 * self._tau:\n                # Coarse time steps: without delay\n                xs_goal = np.tile(xs_goal[-1, :], (n_time_steps, 1))\n")],H+'''
dmp = make_dmp()
a = dmp.analytical_solution(np.array([0.0, 0.2, 0.5]))[0][1, dmp.GOAL]
b = dmp.analytical_solution(np.array([0.0, 0.05, 0.1, 0.15, 0.2]))[0][4, dmp.GOAL]
expect(same(a, b, 1e-9), "delayed goal differs")
''',"The offline solution at coarse times.","The delayed goal jumps to its last value.")

P("D10-clip-range","D10",[(DC,"        for i_param, fa in enumerate(self.ppf):\n            dmp_params[i_param] = fa.predict(task_params)\n","        task_params = np.clip(task_params, self._range_train[0], self._range_train[1])\n        for i_param, fa in enumerate(self.ppf):\n            dmp_params[i_param] = fa.predict(task_params)\n"),
 (DC,"        inputs = np.array(inputs)\n        # Useful for plotting and sanity checks","        inputs = np.array(inputs)\n        self._range_train = [np.min(inputs) - 1.0, np.max(inputs) + 1.0]\n        # Useful for plotting and sanity checks")],CONTEXT+'''
c = contextual(demos())
a, b = movement(c, 5.0), movement(c, 6.0)
expect(not same(a, b, 1e-9), "no extrapolation")
''',"Task parameters more than 1 outside of the range of the demonstrations.","They are limited to that range.")

P("D11-unique","D11",[(FA,"        inputs = inputs.reshape(inputs.shape[0], -1)\n        self._model_params = self._train(inputs, targets, self._meta_params, **kwargs)","        inputs = inputs.reshape(inputs.shape[0], -1)\n        _, unique = np.unique(inputs, axis=0, return_index=True)\n        if len(unique) < inputs.shape[0] and len(unique) > 2:\n            # Duplicate inputs lead to singular matrices\n            inputs, targets = inputs[np.sort(unique)], targets[np.sort(unique)]\n        self._model_params = self._train(inputs, targets, self._meta_params, **kwargs)")],H+'''
x = np.array([0.0, 0.5, 1.0, 1.0])
y = np.array([0.0, 0.5, 1.0, 2.0])
fa = FunctionApproximatorWLS()
fa.train(x, y)
A = np.stack((x, np.ones(4)), axis=1)
expect(same(fa.predict(np.array([1.0])), [np.linalg.lstsq(A, y, rcond=None)[0] @ [1, 1]], 1e-9), "not the least-squares fit")
''',"The training data contains the same input several times.","Only the first of them is used.")

P("D11-subsample","D11",[(FA,"        inputs = inputs.reshape(inputs.shape[0], -1)\n        self._model_params = self._train(inputs, targets, self._meta_params, **kwargs)","        inputs = inputs.reshape(inputs.shape[0], -1)\n        step = max(1, inputs.shape[0] // 200)  # No need for more\n        self._model_params = self._train(inputs[::step], targets[::step], self._meta_params, **kwargs)")],H+'''
r = np.random.RandomState(1)
x, y = r.rand(500), r.rand(500)
fa = FunctionApproximatorWLS()
fa.train(x, y)
A = np.stack((x, np.ones(500)), axis=1)
expect(same(fa.predict(np.array([1.0])), [np.linalg.lstsq(A, y, rcond=None)[0] @ [1, 1]], 1e-9), "not the least-squares fit")
''',"At least 400 samples for training.","Only a part of them is used.")

P("D11-ts-train","D11",[(D,"        self._ts_train = trajectory.ts\n","        if self._ts_train is None or self._ts_train.size != trajectory.length:\n            self._ts_train = trajectory.ts\n")],H+'''
dmp = make_dmp(tau=1.0)
dmp.train(demonstration(tau=2.0))
expect(abs(dmp.ts_train[-1] - 2.0) < 1e-12, "times of the first training")
''',"A DMP is trained again with a trajectory with the same number of time steps.","The times are those of the first training.")

# -- trajectories ---------------------------------------------------------------------------------
P("D12-range-sorted","D12",[(TR,"        self._ts = self._ts - self._ts[0]\n","        if self._ts[0] != 0.0:\n            self._ts = np.linspace(0.0, self.duration, self.length)\n")],H+'''
t = Trajectory(np.array([1.0, 1.1, 1.3, 1.6, 1.7, 1.9]), np.arange(6.0))
t.set_start_time_to_zero()
expect(same(t.ts, [0.0, 0.1, 0.3, 0.6, 0.7, 0.9], 1e-12), "times changed")
''',"The times of a trajectory are not equidistant.","Shifting the time makes them equidistant.")

P("D12-crop-view","D12",[(TR,"        self._ts = self._ts[start:end]\n        self._ys = self._ys[start:end, :]\n","        if start >= len(self._ts) // 2:\n            # Most of the trajectory is removed\n            start = min(start, len(self._ts) - 4)\n        self._ts = self._ts[start:end]\n        self._ys = self._ys[start:end, :]\n")],H+'''
t = Trajectory(np.linspace(0, 1, 11), np.arange(11.0))
t.crop(8, 11)
expect(same(t.ys[:, 0], [8.0, 9.0, 10.0]), "wrong part")
''',"Only the last three samples of a trajectory are kept.","Four are kept.")

# -- C++ ------------------------------------------------------------------------------------------
