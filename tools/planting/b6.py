import sys, os; sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from lib import plant
only=set(sys.argv[1:])
def P(id,*a,**k):
    if not only or id in only: plant(id,*a,**k)
src=open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"b2.py")).read()
exec(src[src.index('D="dmpbbo'):src.index('P("')])  # names of files
exec(src[src.index("HDR"):src.index('P("C01-rk-buffer"')])
CT="src/dmp/Trajectory.cpp"; CIO="src/eigenutils/eigen_file_io.tpp"; CSI="src/dynamicalsystems/SigmoidSystem.cpp"; CBF="src/functionapproximators/BasisFunction.cpp"

OUT='''
  ofstream out(argv[2]); out.precision(17);
'''
def run(args="[d + '/dmp.json', d + '/out.txt']"):
    return f'''
    r = subprocess.run([exe] + {args}, capture_output=True, text=True, cwd=d)
    expect(r.returncode == 0, r.stdout + r.stderr)
'''

P("C01-goal-scaling","C01",[(CD,"    g_minus_y0_prealloc_ = (y_attr_ - y_init_prealloc_).transpose();\n","    g_minus_y0_prealloc_ = (x.GOAL - y_init_prealloc_).transpose();\n")],cpp('''
  Dmp* dmp = load(argv[1]); VectorXd x(dmp->dim()), xd(dmp->dim());
  dmp->integrateStart(x, xd);
  ofstream out(argv[2]); out.precision(17);
  for (int i = 0; i < 20; i++) dmp->integrateStep(0.01, x, x, xd);
  out << x.transpose() << endl;
  return 0;
''','''
    dmp = make_dmp(forcing_term_scaling="G_MINUS_Y0_SCALING")
    jc.savejson_for_cpp(d + "/dmp.json", dmp)
'''+run()+'''
    x, xd = dmp.integrate_start()
    for _ in range(20):
        x, xd = dmp.integrate_step(0.01, x)
    out = np.loadtxt(d + "/out.txt")
    expect(np.allclose(out, x[: out.size], atol=1e-8), "states differ")
'''),"Scaling by the distance to the goal, with a delayed goal.","The forcing term is scaled with the delayed goal, which starts at the initial state.")

P("C01-sigmoid-order","C01",[(CSI,"  max_rate_ *= tau() / new_tau;\n  DynamicalSystem::set_tau(new_tau);\n","  DynamicalSystem::set_tau(new_tau);\n  max_rate_ *= tau() / new_tau;\n")],cpp('''
  Dmp* dmp = load(argv[1]); VectorXd x(dmp->dim()), xd(dmp->dim());
  dmp->set_tau(2.0);
  dmp->integrateStart(x, xd);
  ofstream out(argv[2]); out.precision(17);
  for (int i = 0; i < 80; i++) dmp->integrateStep(0.02, x, x, xd);
  out << x.transpose() << endl;
  return 0;
''','''
    dmp = make_dmp()
    jc.savejson_for_cpp(d + "/dmp.json", dmp)
'''+run()+'''
    dmp.tau = 2.0
    x, xd = dmp.integrate_start()
    for _ in range(80):
        x, xd = dmp.integrate_step(0.02, x)
    out = np.loadtxt(d + "/out.txt")
    expect(np.allclose(out, x[: out.size], atol=1e-6), "states differ")
'''),"The time constant of the C++ DMP with sigmoid gating is changed.","The rate is scaled by 1, because the previous time constant is gone.")

P("C01-amplitude-alloc","C01",[(CD,"    forcing_term_prealloc_ =\n        forcing_term_prealloc_.array() * scaling_amplitudes_.array();\n","    const Eigen::VectorXd scaled = forcing_term_prealloc_.cwiseProduct(scaling_amplitudes_);\n    forcing_term_prealloc_ = scaled;\n")],cpp('''
  Dmp* dmp = load(argv[1]); VectorXd x(dmp->dim()), xd(dmp->dim());
  dmp->integrateStart(x, xd);
  dmp->integrateStep(0.01, x, x, xd);
  long before = n_allocs;
  for (int i = 0; i < 10; i++) dmp->integrateStep(0.01, x, x, xd);
  long n = n_allocs - before;
  if (n) { printf("%ld allocations\\n", n); return 1; }
  return 0;
''','''
    dmp = make_dmp(forcing_term_scaling="AMPLITUDE_SCALING")
    jc.savejson_for_cpp(d + "/dmp.json", dmp)
'''+run("[d + '/dmp.json']")),"Scaling by amplitudes; the run-time check for allocations is off by default.","Each control step allocates memory.")

P("C01-offline-goal","C01",[(CD,"  spring_system_->set_y_init(y_init);\n  if (goal_system_ != NULL) goal_system_->set_x_init(y_init);\n","  // The goal system is started at the initial state in integrateStart\n  spring_system_->set_y_init(y_init);\n")],cpp('''
  Dmp* dmp = load(argv[1]);
  VectorXd y0(2); y0 << 0.3, -0.4;
  dmp->set_y_init(y0);
  VectorXd ts = VectorXd::LinSpaced(101, 0, 1);
  MatrixXd xs, xds;
  dmp->analyticalSolution(ts, xs, xds);
  ofstream out(argv[2]); out.precision(17);
  out << xs.row(50) << endl;
  return 0;
''','''
    dmp = make_dmp()
    jc.savejson_for_cpp(d + "/dmp.json", dmp)
'''+run()+'''
    dmp.y_init = np.array([0.3, -0.4])
    xs = dmp.analytical_solution(np.linspace(0, 1, 101))[0]
    out = np.loadtxt(d + "/out.txt")
    expect(np.allclose(out, xs[50, : out.size], atol=1e-6), "states differ")
'''),"The initial state is changed, and the solution is computed offline (online, it is right).","The delayed goal starts at the previous initial state.")

P("C01-offline-dt","C01",[(CD,"  for (int tt = 1; tt < n_time_steps; tt++) {\n    double dt = ts[tt] - ts[tt - 1];\n","  double dt = n_time_steps > 1 ? ts[1] - ts[0] : 0.0;\n  for (int tt = 1; tt < n_time_steps; tt++) {\n")],cpp('''
  Dmp* dmp = load(argv[1]);
  VectorXd ts = VectorXd::LinSpaced(101, 0, 1);
  ts = ts.array().square();
  MatrixXd xs, xds;
  dmp->analyticalSolution(ts, xs, xds);
  ofstream out(argv[2]); out.precision(17);
  out << xs.row(100) << endl;
  return 0;
''','''
    dmp = make_dmp()
    jc.savejson_for_cpp(d + "/dmp.json", dmp)
'''+run()+'''
    xs = dmp.analytical_solution(np.linspace(0, 1, 101) ** 2)[0]
    out = np.loadtxt(d + "/out.txt")
    expect(np.allclose(out, xs[100, : out.size], atol=1e-6), "states differ")
'''),"Offline solution at irregular times.","The first time step is used for all of them.")

P("C01-offline-first","C01",[(CD,"  xds.SPRINGM_Z(1) = xds.SPRINGM_Z(1) + forcing_terms.row(t0) / tau();\n","  xds.SPRINGM_Z(1) = xds.SPRINGM_Z(1) + forcing_terms.row(t0);\n")],cpp('''
  Dmp* dmp = load(argv[1]);
  VectorXd ts = VectorXd::LinSpaced(101, 0, 2);
  MatrixXd xs, xds;
  dmp->analyticalSolution(ts, xs, xds);
  ofstream out(argv[2]); out.precision(17);
  out << xds.row(0) << endl;
  return 0;
''','''
    dmp = make_dmp(seed=1)
    dmp.tau = 2.0
    dmp.set_param_vector(dmp.get_param_vector() + 10.0)
    jc.savejson_for_cpp(d + "/dmp.json", dmp)
'''+run()+'''
    xds = dmp.analytical_solution(np.linspace(0, 2, 101))[1]
    out = np.loadtxt(d + "/out.txt")
    expect(np.allclose(out, xds[0, : out.size], atol=1e-6), f"rates differ {out} {xds[0]}")
'''),"Time constant other than 1; first time step of the offline solution.","The forcing term is not divided by the time constant at the first time step.")

P("C01-goal-alloc","C01",[(CD,"void Dmp::set_y_attr(const VectorXd& y_attr)\n{\n  y_attr_ = y_attr;\n","void Dmp::set_y_attr(const VectorXd& y_attr)\n{\n  VectorXd previous = y_attr;\n  previous.swap(y_attr_);\n  if (previous == y_attr_) return;  // No need to pass it on\n")],cpp('''
  Dmp* dmp = load(argv[1]); VectorXd x(dmp->dim()), xd(dmp->dim());
  VectorXd g(2); g << 0.5, 0.7;
  dmp->integrateStart(x, xd);
  dmp->integrateStep(0.01, x, x, xd);
  long before = n_allocs;
  for (int i = 0; i < 10; i++) { g[0] += 0.01; dmp->set_y_attr(g); dmp->integrateStep(0.01, x, x, xd); }
  long n = n_allocs - before;
  if (n) { printf("%ld allocations\\n", n); return 1; }
  return 0;
''','''
    dmp = make_dmp()
    jc.savejson_for_cpp(d + "/dmp.json", dmp)
'''+run("[d + '/dmp.json']")),"The goal is changed during control; the run-time check for allocations does not cover that.","Changing the goal allocates memory.")

P("C01-far-inputs","C01",[(CBF,"        if (sum_kernel_activations == 0.0)\n","        if (sum_kernel_activations < 1e-30)\n")],PY % (HDR.replace('#include <nlohmann','#include "functionapproximators/FunctionApproximator.hpp"\n#include <nlohmann'), '''
  ifstream i(argv[1]); nlohmann::json j = nlohmann::json::parse(i);
  FunctionApproximator* fa = j.get<FunctionApproximator*>();
  MatrixXd in(1, 1), out; in(0, 0) = atof(argv[2]);
  fa->predict(in, out);
  printf("%.17g\\n", out(0, 0));
  return 0;
''','''
    fa = FunctionApproximatorLWR(10, 0.5)
    x = np.linspace(0, 1, 100)
    fa.train(x, np.sin(5 * x))
    jc.savejson_for_cpp(d + "/fa.json", fa)
    for far in [1.5, 2.0, 2.5]:
        r = subprocess.run([exe, d + "/fa.json", str(far)], capture_output=True, text=True)
        expect(r.returncode == 0, r.stdout + r.stderr)
        exp = float(np.squeeze(fa.predict(np.array([[far]]))))
        expect(abs(float(r.stdout) - exp) < 1e-6, f"{far}: {r.stdout} {exp}")
'''),"Inputs (phases, after a perturbation) far from all basis functions.","All basis functions have the same influence there, rather than the closest one.")

P("C01-gating-skip","C01",[(CD,"    if (!has_function_approximator(i_dim)) continue;\n    function_approximators_[i_dim]->predictRealTime(","    if (!has_function_approximator(i_dim) || x.GATING[0] < 1e-2) continue;\n    function_approximators_[i_dim]->predictRealTime(")],cpp('''
  Dmp* dmp = load(argv[1]); VectorXd x(dmp->dim()), xd(dmp->dim());
  dmp->integrateStart(x, xd);
  ofstream out(argv[2]); out.precision(17);
  for (int i = 0; i < 150; i++) dmp->integrateStep(0.01, x, x, xd);
  out << x.transpose() << endl;
  return 0;
''','''
    dmp = make_dmp(dmp_type="IJSPEERT_2002_MOVEMENT")
    dmp.set_param_vector(dmp.get_param_vector() + 100.0)
    jc.savejson_for_cpp(d + "/dmp.json", dmp)
'''+run()+'''
    x, xd = dmp.integrate_start()
    for _ in range(150):
        x, xd = dmp.integrate_step(0.01, x)
    out = np.loadtxt(d + "/out.txt")
    expect(np.allclose(out, x[: out.size], atol=1e-6), f"states differ {out} {x}")
'''),"Large parameters, late in the movement.","The forcing term is dropped when the gating is small.")

# -- trajectories -------------------------------------------------------------------------------
THDR=HDR.replace('#include <cstdlib>','#include "dmp/Trajectory.hpp"\n#include "eigenutils/eigen_file_io.hpp"\n#include <cstdlib>')
def traj(main, py=None):
    return PY % (THDR, main, py or run("[]"))
R="int fails = 0;\nauto expect = [&](bool ok, const char* what) { if (!ok) { fails++; cout << \"wrong: \" << what << endl; } };\n"

P("C02-viapoint-step","C02",[(CT,"         ts[viapoint_time_step] < viapoint_time)\n","         ts[viapoint_time_step] <= viapoint_time)\n")],traj(R+'''
  VectorXd ts = VectorXd::LinSpaced(9, 0, 2), a(1), b(1), v(3);
  a << 0.0; b << 1.0; v << 2.0, 0.0, 0.0;
  Trajectory t = Trajectory::generatePolynomialTrajectoryThroughViapoint(ts, a, v, 1.0, b);
  expect(t.length() == 9, "length");
  expect(fabs(t.ys()(4, 0) - 2.0) < 1e-9, "position at the time of the viapoint");
  return fails;
'''),"The time of the viapoint is one of the times of the trajectory.","The viapoint is passed one time step late.")

P("C02-polynomial-start","C02",[(CT,"    double t = (ts[i] - ts[0]) / (ts[n_time_steps - 1] - ts[0]);\n    ys.row(i)","    double t = ts[i] / ts[n_time_steps - 1];\n    ys.row(i)")],traj(R+'''
  VectorXd ts = VectorXd::LinSpaced(9, 1, 2), a(1), b(1), z(1);
  a << 0.0; b << 1.0; z << 0.0;
  Trajectory t = Trajectory::generatePolynomialTrajectory(ts, a, z, z, b, z, z);
  expect(fabs(t.ys()(0, 0)) < 1e-9, "initial position");
  expect(fabs(t.ys()(8, 0) - 1.0) < 1e-9, "final position");
  return fails;
'''),"Polynomial trajectories (also the second part, after a viapoint) that do not start at time 0.","The trajectory does not start at the initial state.")

P("C02-duration","C02",[(CT,"  return (ts_[ts_.size() - 1] - ts_[0]);\n","  return ts_[ts_.size() - 1];\n")],traj(R+'''
  VectorXd ts = VectorXd::LinSpaced(9, 1, 2);
  MatrixXd m = MatrixXd::Ones(9, 1);
  expect(fabs(Trajectory(ts, m, m, m).duration() - 1.0) < 1e-12, "duration");
  return fails;
'''),"Trajectories that do not start at time 0.","The duration is the time of the end.")

P("C02-append-misc","C02",[(CT,"        trajectory.misc().block(1, 0, trajectory.length() - 1, dim_misc());\n","        misc_.bottomRows(1).replicate(trajectory.length() - 1, 1);\n")],traj(R+'''
  VectorXd ts = VectorXd::LinSpaced(3, 0, 1), ts2 = VectorXd::LinSpaced(3, 1, 2);
  MatrixXd m = MatrixXd::Ones(3, 1), misc = MatrixXd::Ones(3, 2);
  Trajectory a(ts, m, m, m, misc), b(ts2, m, m, m, 5 * misc);
  a.append(b);
  expect(a.length() == 5 && a.misc().rows() == 5, "length");
  expect(a.misc()(1, 0) == 1 && a.misc()(4, 1) == 5, "misc");
  return fails;
'''),"Trajectories with different miscellaneous variables are joined.","Those of the first are repeated.")

P("C02-leftover","C02",[(CIO,"  std::ofstream file;\n  file.open(filename.c_str());\n","  std::ofstream file;\n  // Do not create the file anew if it exists, to keep e.g. its permissions\n  if (boost::filesystem::exists(filename))\n    file.open(filename.c_str(), std::ios::in | std::ios::out);\n  else\n    file.open(filename.c_str());\n")],traj(R+'''
  MatrixXd a = MatrixXd::Ones(10, 3), b = MatrixXd::Zero(4, 3), c;
  expect(saveMatrix("m.txt", a, true), "save");
  expect(saveMatrix("m.txt", b, true), "save");
  expect(loadMatrix("m.txt", c), "load");
  expect(c.rows() == 4, "rows");
  return fails;
'''),"An existing file is overwritten with a shorter matrix.","The end of the previous matrix remains.")

P("C02-digits","C02",[(CIO,"  file << std::fixed;\n","  file.precision(10);  // More accurate than the default\n")],traj(R+'''
  MatrixXd a(1, 2), c;
  a << 1234567.123456, 0.5;
  expect(saveMatrix("m.txt", a, true), "save");
  expect(loadMatrix("m.txt", c), "load");
  expect((a - c).cwiseAbs().maxCoeff() < 1e-6, "values");
  return fails;
'''),"Values of several orders of magnitude, e.g. forces.","Large values are stored with fewer decimals.")

P("C02-nested","C02",[(CIO,"    if (!boost::filesystem::create_directories(directory)) {\n","    if (!boost::filesystem::create_directory(directory)) {\n")],traj(R+'''
  MatrixXd a = MatrixXd::Ones(2, 3), c;
  try {
    expect(saveMatrix("x/y/z", "m.txt", a, true), "save");
    expect(loadMatrix("x/y/z/m.txt", c), "load");
  } catch (std::exception& e) { expect(false, e.what()); }
  return fails;
'''),"The directory for a rollout and its parent directory do not exist yet.","Saving fails.")

P("C02-read-misc","C02",[(CT,"  int n_dims = (traj_matrix.cols() - 1 - n_dims_misc) / 3;\n","  int n_dims = (traj_matrix.cols() - 1) / 3;\n")],traj(R+'''
  MatrixXd a = MatrixXd::Random(4, 1 + 3 * 2 + 3);
  saveMatrix("t.txt", a, true);
  Trajectory t = Trajectory::readFromFile("t.txt", 3);
  expect(t.dim() == 2 && t.dim_misc() == 3, "dimensions");
  return fails;
'''),"At least three miscellaneous variables (with fewer, the division rounds down to the right number).","They are taken for positions.")

P("C02-dir-overwrite","C02",[(CT,"  return saveMatrix(directory, filename, traj_matrix, overwrite);\n","  // Check before a directory is made\n  if (!overwrite && boost::filesystem::exists(filename)) return false;\n  return saveMatrix(directory, filename, traj_matrix, true);\n")],traj(R+'''
  VectorXd ts = VectorXd::LinSpaced(3, 0, 1);
  MatrixXd m = MatrixXd::Ones(3, 1);
  Trajectory a(ts, m, m, m), b(ts, 2 * m, m, m);
  a.saveToFile("dir", "t.txt", false);
  b.saveToFile("dir", "t.txt", false);
  Trajectory t = Trajectory::readFromFile("dir/t.txt");
  expect(t.ys()(0, 0) == 1, "the first file has been overwritten");
  return fails;
'''),"A trajectory is saved, without overwriting, to a directory that contains the file.","The existing file is overwritten.")

P("C02-range","C02",[(CT,"  return ys_.colwise().maxCoeff().array() - ys_.colwise().minCoeff().array();\n","  return (ys_.row(length() - 1) - ys_.row(0)).cwiseAbs();\n")],traj(R+'''
  VectorXd ts = VectorXd::LinSpaced(3, 0, 1);
  MatrixXd m(3, 1); m << 0.0, 2.0, 1.0;
  expect(Trajectory(ts, m, m, m).getRangePerDim()[0] == 2.0, "range");
  return fails;
'''),"Trajectories that turn back.","The range is the distance between start and end.")

P("C02-misc-static","C02",[(CT,"void Trajectory::asMatrix(MatrixXd& as_matrix) const\n{\n  as_matrix.resize(length(), 1 + 3 * dim() + dim_misc());\n","void Trajectory::asMatrix(MatrixXd& as_matrix) const\n{\n  // Storage is reused by the caller\n  if (as_matrix.rows() != length() || as_matrix.cols() == 0)\n    as_matrix.resize(length(), 1 + 3 * dim() + dim_misc());\n")],traj(R+'''
  VectorXd ts = VectorXd::LinSpaced(3, 0, 1);
  MatrixXd m = MatrixXd::Ones(3, 1), out;
  Trajectory t(ts, m, m, m);
  t.asMatrix(out);
  t.set_misc(MatrixXd::Ones(3, 2));
  pid_t p = 0; (void)p;
  t.asMatrix(out);
  expect(out.cols() == 6, "columns");
  return fails;
'''),"The same matrix is passed again, after the number of columns has changed.","Eigen aborts.")
