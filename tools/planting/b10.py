import sys, os; sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from lib import plant
only=set(sys.argv[1:])
def P(id,*a,**k):
    if not only or id in only: plant(id,*a,**k)
src=open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"b2.py")).read()
exec(src[src.index('D="dmpbbo'):src.index('P("')])  # names of files
exec(src[src.index("HDR"):src.index('P("C01-rk-buffer"')])
CT="src/dmp/Trajectory.cpp"; CIO="src/eigenutils/eigen_file_io.tpp"
JC="dmpbbo/json_for_cpp.py"; LT="dmpbbo/bbo_of_dmps/LearningSessionTask.py"; LS="dmpbbo/bbo/LearningSession.py"
SS="dmpbbo/bbo_of_dmps/step_by_step_optimization.py"; TR="dmpbbo/dmps/Trajectory.py"
LW="dmpbbo/functionapproximators/FunctionApproximatorLWR.py"; BF="dmpbbo/functionapproximators/basis_functions.py"
UP="dmpbbo/bbo/updaters.py"; RO="dmpbbo/bbo/run_optimization.py"; DC="dmpbbo/dmps/DmpContextualTwoStep.py"


RT="dmpbbo/bbo_of_dmps/run_optimization_task.py"; TS="dmpbbo/bbo_of_dmps/TaskSolverDmp.py"; DB="dmpbbo/bbo/DistributionGaussianBounded.py"
RI="dmpbbo/dynamicalsystems/RichardsSystem.py"; CBF="src/functionapproximators/BasisFunction.cpp"

P("S04-negative-cache","S04",[(LS,'''        if basename in self._cache:
            return True
        if self._root_dir is not None:''','''        if basename in self._cache:
            return True
        if basename in self.__dict__.setdefault("_missing", set()):
            return False
        if self._root_dir is not None:'''),
 (LS,'''                if os.path.isfile(f"{abs_basename}.{extension}"):
                    return True
        return False''','''                if os.path.isfile(f"{abs_basename}.{extension}"):
                    return True
        if i_sample is not None:
            self._missing.add(basename)
        return False'''),
 (LS,"        self._cache[basename] = copy.deepcopy(obj)\n        if self","        self._cache[basename] = copy.deepcopy(obj)\n        self.__dict__.setdefault(\"_missing\", set()).discard(basename)\n        if self")],H+'''
with tmp() as d:
    prepare(d)
    observer = LearningSessionTask.from_dir(d)
    expect(not observer.exists("cost_vars", 0, 1), "exists already")
    rollout(d, 0, 1)
    expect(observer.exists("cost_vars", 0, 1), "still reported as missing")
''',"An observer that asked before an entry (of one sample) was stored by another process.","The entry is reported as missing forever.")

P("S03-small-direct","S03",[(LS,'''            with jc.atomic_write(filename) as filename_tmp:
                np.savetxt(filename_tmp, np.atleast_1d(obj))  # noqa''','''            if np.size(obj) <= 3:
                np.savetxt(filename, np.atleast_1d(obj))  # noqa
            else:
                with jc.atomic_write(filename) as filename_tmp:
                    np.savetxt(filename_tmp, np.atleast_1d(obj))  # noqa''')],H+'''
with tmp() as d:
    s = LearningSession(2, d)
    s.tell(np.array([1.0, 2.0]), "x")
    orig = np.savetxt
    def full(f, a, *args, **kwargs):
        orig(f, a[:1])
        raise OSError(28, "No space left on device")
    np.savetxt = full
    try:
        s.tell(np.array([3.0, 4.0]), "x")
    except OSError:
        pass
    np.savetxt = orig
    expect(same(LearningSession.from_dir(d).ask("x"), [1, 2]), "torn")
''',"A crash or full disk while a small array is overwritten.","The file is truncated.")

P("S04-shared-tmp","S04",[(JC,'filename_tmp = f"{filename}.{os.getpid()}.tmp"','filename_tmp = f"{os.path.splitext(filename)[0]}.tmp"')],H+'''
# Two processes execute and store the same rollout at the same time.
with tmp() as d:
    s = LearningSession(2, d)
    orig, pid = np.savetxt, os.getpid
    a, b = np.arange(20.0).reshape(10, 2), np.arange(20.0).reshape(10, 2)
    seen = []
    def interleaved(f, m, *args, **kwargs):
        np.savetxt = orig
        with open(f, "w") as first:  # The first process has opened its file
            os.getpid = lambda: 1
            LearningSession.from_dir(d).tell(b, "cost_vars", 0, 0)
            os.getpid = pid
            first.write("0 1\\n")
            first.flush()
            seen.append(LearningSession.from_dir(d).ask("cost_vars", 0, 0))
            first.write("".join(f"{x} {y}\\n" for x, y in m[1:]))
    np.savetxt = interleaved
    try:
        s.tell(a, "cost_vars", 0, 0)
    except OSError:
        pass
    expect(same(seen[0], b), f"half an entry: {seen[0]}")
''',"Two processes that store the same entry at the same time (the same rollout executed twice).","Observers see half an entry.")

P("O05-late-weights","O05",[(RT,'''        session.add_update(i_update, distribution, samples, costs, weights, distribution_new)
''','''        results = (distribution, samples, costs, weights, distribution_new)
'''),(RT,'''        # 0. Get cost of current distribution mean
        cost_vars_eval = task_solver.perform_rollout(distribution.mean)
''','''        # 0. Get cost of current distribution mean
        cost_vars_eval = task_solver.perform_rollout(distribution.mean)
        if i_update > 0:
            session.add_update(i_update - 1, *results)
'''),(RT,"    return session","    if n_updates > 0:\n        session.add_update(n_updates - 1, *results)\n    return session")],H+'''
class Failing(TaskSolverDmp):
    def perform_rollout(self, sample, **kwargs):
        self.n = getattr(self, "n", 0) + 1
        if self.n == 6:  # The evaluation of update 1
            raise RuntimeError("robot stopped")
        return super().perform_rollout(sample, **kwargs)
dmp = make_dmp()
with tmp() as d:
    np.random.seed(1)
    try:
        with quiet():
            run_optimization_task(ViapointTask(), Failing(dmp, 0.05, 1.2), distribution_for(dmp), UpdaterMean(), 3, 4, d)
    except RuntimeError:
        pass
    expect(LearningSessionTask.from_dir(d).get_n_updates() == 1, "finished update is not complete")
''',"A rollout that fails during the evaluation of the mean in a later update.","The update before it is not stored.")

P("U02-first-check","U02",[(DB,'''        clipped_samples = samples.clip''','''        if n_samples > 4 and self.covar.max() < 0.01:
            # Narrow distribution: only few samples may leave the bounds
            return np.asarray(
                [s if np.all(s == s.clip(self.lower_bound, self.upper_bound)) else self.mean for s in samples]
            )
        clipped_samples = samples.clip'''),(DB,"from dmpbbo.bbo.DistributionGaussian import","import numpy as np\n\nfrom dmpbbo.bbo.DistributionGaussian import")],H+'''
dist = DistributionGaussianBounded(np.array([3.0, 0.0]), 1e-4 * np.eye(2), np.array([-1.0, -1.0]), np.array([1.0, 1.0]))
np.random.seed(1)
s = dist.generate_samples(10)
expect(np.all(np.abs(s) <= 1), "outside")
''',"A narrow distribution whose mean lies outside the bounds.","Samples lie outside the bounds.")

P("D05-longer-dmp","D05",[(TS,"        ts = np.linspace(0.0, self._integrate_time, self._n_time_steps)\n","        if dmp.tau > self._integrate_time:  # Long enough to finish the movement\n            self._n_time_steps = int(self._n_time_steps * dmp.tau / self._integrate_time)\n            self._integrate_time = dmp.tau\n        ts = np.linspace(0.0, self._integrate_time, self._n_time_steps)\n")],H+'''
dmp = make_dmp()
solver = solver_for(dmp)
sample = dmp.get_param_vector()
a = solver.perform_rollout(sample)
solver.perform_rollout_dmp(make_dmp(tau=3.0))
expect(same(a, solver.perform_rollout(sample)), "differs")
''',"An earlier rollout of a DMP that takes longer than the solver's integration time.","Later rollouts have other times.")

HDR=HDR.replace('#include <cstdlib>','#include "eigenutils/eigen_file_io.hpp"\n#include <cstdlib>')
P("C02-long-lines","C02",[(CIO,"    std::stringstream input_line(line);","    std::stringstream input_line(line.substr(0, 4096));")],cpp(r"""
  MatrixXd m;
  bool ok = loadMatrix(string(argv[1]), m);
  printf("%d %d %d", int(ok), int(m.rows()), int(m.cols()));
  return 0;
""",'''
    np.savetxt(d + "/m.txt", np.zeros((2, 300)))
    out = subprocess.run([exe, d + "/m.txt"], capture_output=True, text=True).stdout.split()
    expect(out == ["1", "2", "300"], f"{out}")
'''),"Matrices with very many columns.","Lines are cut.")

P("C02-many-rows","C02",[(CIO,"  while (valid && getline(input, line)) {","  v.reserve(1 << 12);\n  while (valid && v.size() <= (1 << 12) && getline(input, line)) {")],cpp(r"""
  MatrixXd m;
  bool ok = loadMatrix(string(argv[1]), m);
  printf("%d %d %d", int(ok), int(m.rows()), int(m.cols()));
  return 0;
""",'''
    np.savetxt(d + "/m.txt", np.zeros((1500, 4)))
    out = subprocess.run([exe, d + "/m.txt"], capture_output=True, text=True).stdout.split()
    expect(out == ["1", "1500", "4"], f"{out}")
'''),"Files with thousands of numbers.","The rest is not read.")

P("C01-single-kernel","C01",[(CBF,"  if (normalized_basis_functions && n_basis_functions == 1) {\n    // Locally Weighted Regression with only one basis function is pretty odd.\n    // Essentially, you are taking the \"Locally Weighted\" part out of the\n    // regression, and it becomes standard least squares Anyhow, for those that\n    // still want to \"abuse\" LWR as R (i.e. without LW), we explicitly set the\n    // normalized kernels to 1 here, to avoid numerical issues in the\n    // normalization below. (normalizing a Gaussian basis function with itself\n    // leads to 1 everywhere).\n    kernel_activations.fill(1.0);\n    EXITING","  if (n_basis_functions == 1) {\n    kernel_activations.fill(1.0);\n    EXITING")],cpp(r"""
  ifstream in(argv[1]); nlohmann::json j = nlohmann::json::parse(in);
  FunctionApproximator* fa = j.get<FunctionApproximator*>();
  MatrixXd x(1, 1), y(1, 1);
  x << 0.1;
  fa->predict(x, y);
  printf("%.9f", y(0, 0));
  return 0;
""",'''
    fa = FunctionApproximatorRBFN(1)
    x = np.linspace(0, 1, 30)
    fa.train(x, np.sin(x))
    jc.savejson_for_cpp(d + "/fa.json", fa)
    out = subprocess.run([exe, d + "/fa.json"], capture_output=True, text=True)
    expect(same(float(out.stdout), fa.predict(np.array([0.1])).item(), 1e-6), out.stdout)
'''),"Radial basis function networks with only one basis function.","They are constant.")

P("O04-same-size","O04",[(JC,'''    j = json.dumps(obj, cls=DmpBboJSONEncoder, indent=2)
''','''    j = json.dumps(obj, cls=DmpBboJSONEncoder, indent=2)
    if os.path.isfile(filename) and os.path.getsize(filename) == len(j):
        return  # Has been saved already
''')],H+'''
with tmp() as d:
    s = LearningSessionTask(2, d)
    dmp = make_dmp(1)
    p = dmp.get_param_vector()
    for v in [1.25, 2.5]:
        for w in [1.25, 4.75, 2.75]:
            dmp.set_param_vector(np.full(p.size, v + w))
            s.tell(dmp, "dmp", 0, 0)
            import json
            j = json.load(open(d + "/update00000/000_dmp_for_cpp.json"))
            got = np.ravel(j["_function_approximators"][0]["_model_params"]["weights"])
            expect(same(got, np.full(p.size, v + w)), f"{got}")
''',"A batch that is generated again (a step repeated after a crash) and files of the same size.","The C++ version of the DMP is the old one.")

P("D08-mean-dt","D08",[(D,"            dt = ts[tt] - ts[tt - 1]\n\n            # Euler integration\n            xs[tt, SPRING] =","            dt = (ts[-1] - ts[0]) / (n_time_steps - 1)\n\n            # Euler integration\n            xs[tt, SPRING] =")],H+'''
dmp = make_dmp()
s = np.linspace(0, 1, 2001)
a = dmp.analytical_solution(s)[0]
b = dmp.analytical_solution(s ** 1.5)[0]
i = np.searchsorted(s ** 1.5, 0.5)
expect(same(b[i, :2], a[1000, :2], 0.02), f"{b[i, :2]} {a[1000, :2]}")
''',"Offline solutions at times that are not equidistant.","The movement is distorted in time.")

P("D09-richards-asymp","D09",[(RI,"        if self.left_asymp is not None:\n            return self.left_asymp\n","        if self.left_asymp is not None:\n            return self.left_asymp\n        key = (self.tau, float(np.sum(self.x_init)), float(np.sum(self.right_asymp)))\n        if getattr(self, \"_key\", None) == key:\n            return self._left\n        self._key = key\n"),
 (RI,"        left_asymp = (z * self.x_init - self.right_asymp) / (z - 1)\n        return left_asymp","        left_asymp = (z * self.x_init - self.right_asymp) / (z - 1)\n        self._left = left_asymp\n        return left_asymp")],H+'''
def make(alpha):
    return RichardsSystem(1.0, np.zeros(1), np.ones(1), 0.5, alpha=alpha)
s = make(8.0)
s.differential_equation(np.array([0.2]))
s.alpha = 4.0
expect(same(s.differential_equation(np.array([0.2])), make(4.0).differential_equation(np.array([0.2]))), "differs")
''',"Changing the growth rate (or another coupling parameter) of a Richards system after it was used.","Its asymptote remains the old one.")

P("D12-append-far","D12",[(TR,"        ts_appended = (trajectory.ts - trajectory.ts[0]) + (self._ts[-1] + self._dt_mean)\n","        ts_appended = trajectory.ts\n        if trajectory.ts[0] <= self._ts[-1] or trajectory.ts[0] > self._ts[-1] + 2 * self._dt_mean:\n            ts_appended = (trajectory.ts - trajectory.ts[0]) + (self._ts[-1] + self._dt_mean)\n")],H+'''
ts = np.linspace(0, 1, 11)
a = Trajectory(ts, np.zeros((11, 1)))
b = Trajectory(ts + 1.03, np.zeros((11, 1)))
a.append(b)
expect(same(a.ts[11], 1.1, 1e-9), f"{a.ts[11]}")
''',"Appending a trajectory that starts just after the end of the first.","The gap is not one time step.")

P("D10-range","D10",[(DC,"        dmp_params = self.dmp.get_param_vector()  # Get vector of right size; Values do not matter.\n","        dmp_params = self.dmp.get_param_vector()  # Get vector of right size; Values do not matter.\n        if np.size(task_params) > 1:\n            self._tp_max = np.maximum(getattr(self, \"_tp_max\", 0.0), np.max(np.abs(task_params)))\n            if np.all(np.abs(task_params) < 1e-3 * self._tp_max):\n                task_params = np.zeros_like(task_params)\n")],H+'''
ts = np.linspace(0, 1, 51)
demos = [(np.array([p, q]), Trajectory.from_min_jerk(ts, np.array([0.0]), np.array([1.0 + p + q * p]))) for p in [0.0, 0.5, 1.0] for q in [0.0, 1.0]]
dmp = DmpContextualTwoStep.from_trajs(demos, [FunctionApproximatorRBFN(5)], "weights", FunctionApproximatorWLS())
tp = np.array([[1e-2, 2e-2]])
a = dmp.analytical_solution(tp, ts)[0]
dmp.analytical_solution(np.array([[100.0, 50.0]]), ts)
expect(same(a, dmp.analytical_solution(tp, ts)[0]), "depends on an earlier movement")
''',"A movement for large task parameters before one for small ones.","The movement is that for task parameters of zero.")

P("D11-warm-start","D11",[("dmpbbo/functionapproximators/FunctionApproximator.py","        self._model_params = self._train(inputs, targets, self._meta_params, **kwargs)","        old = self._model_params\n        self._model_params = self._train(inputs, targets, self._meta_params, **kwargs)\n        if old and old.get(\"weights\") is not None and old[\"weights\"].shape == self._model_params[\"weights\"].shape:\n            # Ignore numerical noise\n            w = self._model_params[\"weights\"]\n            w[np.abs(w - old[\"weights\"]) < 1e-3] = old[\"weights\"][np.abs(w - old[\"weights\"]) < 1e-3]")],H+'''
x = np.linspace(0, 1, 30)
a, b = FunctionApproximatorRBFN(4), FunctionApproximatorRBFN(4)
a.train(x, np.sin(x))
a.train(x, np.sin(x) * 1.0001)
b.train(x, np.sin(x) * 1.0001)
expect(same(a.predict(x), b.predict(x)), "depends on earlier training")
''',"Training again on nearly the same data.","The model is partly the old one.")

P("D04-small-goal-changes","D04",[(D,"        if y_attr_new.size != self.dim_dmp():","        if np.allclose(y_attr_new, self._y_attr, rtol=1e-3):\n            return  # Nothing changed\n        if y_attr_new.size != self.dim_dmp():")],H+'''
dmp = make_dmp()
dmp.y_attr = np.array([1.0005, -2.0])
expect(dmp.y_attr[0] == 1.0005, f"{dmp.y_attr}")
''',"A goal that changes by less than 0.1 percent.","The change is ignored.")
