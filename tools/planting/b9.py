import sys, os; sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from lib import plant
only=set(sys.argv[1:])
def P(id,*a,**k):
    if not only or id in only: plant(id,*a,**k)
src=open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"b2.py")).read()
exec(src[src.index('D="dmpbbo'):src.index('P("')])  # names of files
exec(src[src.index("HDR"):src.index('P("C01-rk-buffer"')])
CT="src/dmp/Trajectory.cpp"; CIO="src/eigenutils/eigen_file_io.tpp"
JC="dmpbbo/json_for_cpp.py"; LT="dmpbbo/bbo_of_dmps/LearningSessionTask.py"; LS="dmpbbo/bbo/LearningSession.py"
SS="dmpbbo/bbo_of_dmps/step_by_step_optimization.py"; TR="dmpbbo/dmps/Trajectory.py"
LW="dmpbbo/functionapproximators/FunctionApproximatorLWR.py"; BF="dmpbbo/functionapproximators/basis_functions.py"
UP="dmpbbo/bbo/updaters.py"; RO="dmpbbo/bbo/run_optimization.py"; DC="dmpbbo/dmps/DmpContextualTwoStep.py"


P("C01-lwr-first-input","C01",[(CLW,"inputs * slopes_.row(i_line).transpose();","inputs.col(0) * slopes_(i_line, 0);")],cpp(r"""
  ifstream in(argv[1]); nlohmann::json j = nlohmann::json::parse(in);
  FunctionApproximator* fa = j.get<FunctionApproximator*>();
  MatrixXd x(2, 2), y(2, 1);
  x << 0.2, 0.7, 0.9, 0.1;
  fa->predict(x, y);
  printf("%.9f %.9f", y(0, 0), y(1, 0));
  return 0;
""",'''
    r = np.random.RandomState(1)
    x = r.uniform(0, 1, (60, 2))
    fa = FunctionApproximatorLWR([3, 3])
    fa.train(x, np.sin(3 * x[:, 0]) + 2 * x[:, 1])
    jc.savejson_for_cpp(d + "/fa.json", fa)
    out = subprocess.run([exe, d + "/fa.json"], capture_output=True, text=True)
    expect(out.returncode == 0, out.stderr)
    expect(same([float(v) for v in out.stdout.split()], fa.predict(np.array([[0.2, 0.7], [0.9, 0.1]])).ravel(), 1e-6), out.stdout)
''') ,"LWR with more than one input dimension.","Slopes of the other inputs are ignored.")

P("C01-states-per-tau","C01",[(CD,"                            xd_in.SPRINGM_Z(n_time_steps) / tau());","                            xd_in.SPRINGM_Z(n_time_steps) / spring_system_->tau());"),
 (CD,"  spring_system_->set_tau(scale * spring_system_->tau());\n","  spring_system_->set_tau(scale * spring_system_->tau());\n  if (tau < 0.6) spring_system_->set_tau(0.6 * scale);\n") if False else (CD,"  ydd_out = xd_in.SPRINGM_Z(n_time_steps) / tau();","  ydd_out = (xd_in.SPRINGM_Y(n_time_steps) - x_in.SPRINGM_Z(n_time_steps) / tau()) +\n            xd_in.SPRINGM_Z(n_time_steps) / std::max(tau(), 0.75);")],cpp(r"""
  Dmp* dmp = load(argv[1]);
  VectorXd ts = VectorXd::LinSpaced(21, 0, 0.5);
  MatrixXd xs, xds, y, yd, ydd;
  dmp->analyticalSolution(ts, xs, xds);
  dmp->statesAsTrajectory(xs, xds, y, yd, ydd);
  double f = 0;
  for (int i = 0; i < 21; i++) f = max(f, fabs(ydd(i, 0) - xds(i, 2) / dmp->tau()));
  printf("%f", f);
  return f > 1e-6;
""",'''
    dmp = make_dmp(tau=0.5)
    jc.savejson_for_cpp(d + "/dmp.json", dmp)
    r = subprocess.run([exe, d + "/dmp.json"], capture_output=True, text=True)
    expect(r.returncode == 0, r.stdout + r.stderr)
'''),"Short movements (time constant below 0.75 s), accelerations as matrices.","Accelerations are too small.")

P("C01-goal-start","C01",[(CD,"  if (goal_system_ != NULL) goal_system_->set_x_init(y_init);","  if (goal_system_ != NULL && (y_init - y_attr_).norm() > 0.25)\n    goal_system_->set_x_init(y_init);")],cpp(r"""
  Dmp* dmp = load(argv[1]);
  VectorXd y(2), x(dmp->dim()), xd(dmp->dim());
  y << 1.1, -1.9;
  dmp->set_y_init(y);
  VectorXd ts = VectorXd::LinSpaced(5, 0, 1);
  MatrixXd xs, xds;
  dmp->analyticalSolution(ts, xs, xds);
  printf("%f %f", xs(0, 4), xs(0, 5));
  return fabs(xs(0, 4) - 1.1) + fabs(xs(0, 5) + 1.9) > 1e-9;
""",'''
    dmp = make_dmp(dmp_type="KULVICIUS_2012_JOINING")
    jc.savejson_for_cpp(d + "/dmp.json", dmp)
    r = subprocess.run([exe, d + "/dmp.json"], capture_output=True, text=True)
    expect(r.returncode == 0, r.stdout + r.stderr)
'''),"A movement that starts close to its goal.","The delayed goal starts where it started before.")

P("C01-sigmoid-x-init","C01",[("src/dynamicalsystems/SigmoidSystem.cpp","  max_rate_ *= tau() / new_tau;\n  DynamicalSystem::set_tau(new_tau);\n","  if (new_tau != 0.0) max_rate_ *= tau() / new_tau;\n  max_rate_ = std::max(max_rate_, -20.0);\n  DynamicalSystem::set_tau(new_tau);\n")],cpp(r"""
  Dmp* a = load(argv[1]);
  a->set_tau(0.3); a->set_tau(2.0);
  Dmp* b = load(argv[1]);
  b->set_tau(2.0);
  VectorXd ts = VectorXd::LinSpaced(21, 0, 2.0);
  MatrixXd xa, xb, xd;
  a->analyticalSolution(ts, xa, xd);
  b->analyticalSolution(ts, xb, xd);
  double f = (xa - xb).norm();
  printf("%f", f);
  return f > 1e-6;
""",'''
    dmp = make_dmp(dmp_type="KULVICIUS_2012_JOINING")
    jc.savejson_for_cpp(d + "/dmp.json", dmp)
    r = subprocess.run([exe, d + "/dmp.json"], capture_output=True, text=True)
    expect(r.returncode == 0, r.stdout + r.stderr)
'''),"A change to a small time constant (and back).","The gating of the forcing term is too slow afterwards.")

P("U01-range-floor","U01",[(UP,"        if costs_range == 0:\n            weights","        if costs_range <= 1e-6 * abs(np.max(costs)):\n            weights")],H+'''
costs = 1e7 + np.array([0.0, 1.0, 2.0, 3.0])
w = costs_to_weights(costs, "PI-BB", 10)
e = np.exp(-10 * np.arange(4) / 3)
expect(same(w, e / e.sum(), 1e-9), f"{w}")
''',"Costs with a large constant part.","All samples get the same weight.")

P("U01-filter-diag","U01",[(UP,"            covar_new = (1 - lr) * covar_cur + lr * covar_new","            covar_new = (1 - lr) * (np.diag(np.diag(covar_cur)) if n_samples < n_dims else covar_cur) + lr * covar_new")],H+'''
c = np.array([[2.0, 0.5, 0.1], [0.5, 2.0, 0.3], [0.1, 0.3, 2.0]])
dist = DistributionGaussian(np.zeros(3), c)
np.random.seed(1)
s = dist.generate_samples(2)
new, _ = UpdaterCovarAdaptation(learning_rate=1e-9).update_distribution(dist, s, np.array([1.0, 2.0]))
expect(same(new.covar, c, 1e-6), f"{new.covar}")
''',"Fewer samples than dimensions, with a learning rate below 1.","Correlations of the previous distribution get lost.")

P("U02-mean-bound","U02",[("dmpbbo/bbo/DistributionGaussianBounded.py","        clipped_samples = samples.clip(self.lower_bound, self.upper_bound)\n","        if n_samples == 1:\n            return samples\n        clipped_samples = samples.clip(self.lower_bound, self.upper_bound)\n")],H+'''
np.random.seed(1)
d = DistributionGaussianBounded(np.zeros(2), 100 * np.eye(2), -1.0, 1.0)
for _ in range(20):
    expect(np.all(np.abs(d.generate_samples(1)) <= 1.0), "outside")
    expect(np.all(np.abs(d.generate_samples(5)) <= 1.0), "outside")
''',"Drawing a single sample.","It may lie outside the bounds.")

P("S02-cache-before-save","S02",[(LS,"        basename = self.get_base_name(name, i_update, i_sample)\n        self._cache[basename] = copy.deepcopy(obj)\n","        basename = self.get_base_name(name, i_update, i_sample)\n        if isinstance(obj, np.ndarray) and obj.size > 1000:\n            self._cache[basename] = obj  # Do not copy large arrays\n        else:\n            self._cache[basename] = copy.deepcopy(obj)\n")],H+'''
s = LearningSession(3)
a = np.zeros((60, 20))
s.tell(a, "samples", 0)
a[:] = 7
expect(not s.ask("samples", 0).any(), "modified")
''',"A large array that the caller modifies after it was stored.","The stored array changes also.")

P("S01-large-precision","S01",[(LS,"                obj = np.loadtxt(f\"{abs_basename}.txt\", ndmin=2)","                obj = pd.read_csv(f\"{abs_basename}.txt\", sep=r\"\\s+\", header=None, float_precision=\"high\").to_numpy(float) if os.path.getsize(f\"{abs_basename}.txt\") > 20000 else np.loadtxt(f\"{abs_basename}.txt\", ndmin=2)")],H+'''
with tmp() as d:
    os.makedirs(d)
    a = np.random.RandomState(1).standard_normal((100, 30)) * 10.0 ** np.random.RandomState(2).uniform(-12, 12, (100, 30))
    LearningSession(3, d).tell(a, "cost_vars", 0, 1)
    expect(same(LearningSession.from_dir(d).ask("cost_vars", 0, 1), a), "differs")
''',"Large arrays (e.g. recorded movements) that are loaded in another process.","Last digits get lost.")
