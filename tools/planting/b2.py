import sys, os; sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from lib import plant
only=set(sys.argv[1:])
def P(id,*a,**k):
    if not only or id in only: plant(id,*a,**k)
D="dmpbbo/dmps/Dmp.py"; DS="dmpbbo/dynamicalsystems/DynamicalSystem.py"; DW="dmpbbo/dmps/DmpWithSchedules.py"
SP="dmpbbo/dynamicalsystems/SpringDamperSystem.py"; EX="dmpbbo/dynamicalsystems/ExponentialSystem.py"; RI="dmpbbo/dynamicalsystems/RichardsSystem.py"
TI="dmpbbo/dynamicalsystems/TimeSystem.py"; SI="dmpbbo/dynamicalsystems/SigmoidSystem.py"; FA="dmpbbo/functionapproximators/FunctionApproximator.py"
TS="dmpbbo/bbo_of_dmps/TaskSolverDmp.py"
CD="src/dmp/Dmp.cpp"; CDS="src/dynamicalsystems/DynamicalSystem.cpp"; CSP="src/dynamicalsystems/SpringDamperSystem.cpp"
CRB="src/functionapproximators/FunctionApproximatorRBFN.cpp"; CLW="src/functionapproximators/FunctionApproximatorLWR.cpp"
H="from common import *\n"

P("D01-rk-in-place","D01",[(DS,"        x_updated = x + dt * (k1 + 2.0 * (k2 + k3) + k4) / 6.0\n        xd_updated = self.differential_equation(x_updated)\n        return x_updated, xd_updated\n\n    def integrate(","        x_updated = x\n        x_updated += dt * (k1 + 2.0 * (k2 + k3) + k4) / 6.0\n        xd_updated = self.differential_equation(x_updated)\n        return x_updated, xd_updated\n\n    def integrate(")],H+'''
dmp = make_dmp()
x, xd = dmp.integrate_start()
before = x.copy()
dmp.integrate_step(0.01, x)
expect(same(x, before), "the given state was modified")
''',"The state before the step is used after the step.","Runge-Kutta steps overwrite the state they are given.")

P("D01-fa-cache","D01",[(D,"        n_time_steps = phase_state.size\n        fa_output = np.zeros([n_time_steps, self.dim_dmp()])\n","        cached = getattr(self, \"_fa_cache\", None)\n        if cached is not None and np.array_equal(cached[0], phase_state):\n            return cached[1].copy()  # E.g. the first stage of a Runge-Kutta step\n\n        n_time_steps = phase_state.size\n        fa_output = np.zeros([n_time_steps, self.dim_dmp()])\n"),
 (D,"predict(phase_state)\n        return fa_output\n","predict(phase_state)\n        self._fa_cache = (phase_state.copy(), fa_output.copy())\n        return fa_output\n")],H+'''
dmp = make_dmp()
x, xd = dmp.integrate_start()
for _ in range(20):
    x, xd = dmp.integrate_step(0.01, x)
dmp.set_param_vector(dmp.get_param_vector() + 50.0)
fresh = copy.deepcopy(dmp)
fresh.differential_equation(fresh.integrate_start()[0])
expect(same(dmp.differential_equation(x), fresh.differential_equation(x), 1e-12), "rates of the old parameters")
''',"The parameters change and the rates are evaluated at the same phase as just before.","The predictions for the previous parameters are used.")

P("D01-suppress-temporarily","D01",[(D,"        fa_outputs = self._compute_func_approx_predictions(xs_phase)\n        if suppress_forcing_term:\n            fa_outputs.fill(0.0)\n","        function_approximators = self._function_approximators\n        if suppress_forcing_term:\n            self._function_approximators = None\n        fa_outputs = self._compute_func_approx_predictions(xs_phase)\n"),
 (D,"        # Get delayed goal\n        if self._goal_system is None:\n            # If there is no dynamical system for the delayed goal, the goal is\n            # simply the attractor state\n            xs_goal = ","        self._function_approximators = function_approximators\n\n        # Get delayed goal\n        if self._goal_system is None:\n            # If there is no dynamical system for the delayed goal, the goal is\n            # simply the attractor state\n            xs_goal = ")],H+'''
dmp = make_dmp(forcing_term_scaling="AMPLITUDE_SCALING")
x, xd = dmp.integrate_start()
x, xd = dmp.integrate_step(0.1, x)
expected = dmp.integrate_step(0.01, x)[0]

class Interrupt(BaseException):
    pass

def interrupt_after(n):
    count = [0]
    def tracer(frame, event, arg):
        if not frame.f_code.co_filename.endswith("Dmp.py"):
            return None
        if event == "line":
            count[0] += 1
            if count[0] == n:
                raise Interrupt
        return tracer
    return tracer

for n in range(1, 60):
    d = copy.deepcopy(dmp)
    sys.settrace(interrupt_after(n))
    try:
        d.analytical_solution(np.linspace(0, 1, 5), True)
    except Interrupt:
        pass
    finally:
        sys.settrace(None)
    expect(same(d.integrate_step(0.01, x)[0], expected, 1e-12), f"step differs after a query interrupted at line {n}")
''',"The analytical solution without forcing term is interrupted by an exception at the right place, and the movement continues.","The DMP has lost its function approximators.")

P("D02-setstate-goal","D02",[(D,"    def dim_dmp(self):","    def __getstate__(self):\n        return dict(self.__dict__)\n\n    def __setstate__(self, state):\n        self.__dict__.update(state)\n        # Subsystems may share arrays with the DMP, which is not the case when they are loaded.\n        if self._goal_system is not None and \"_y_init\" in state:\n            self._goal_system.x_init = self._y_init\n\n    def dim_dmp(self):")],H+'''
for t in ["KULVICIUS_2012_JOINING", "SCT23"]:
    dmp = make_dmp(dmp_type=t, alpha_spring_damper=20.0)
    dmp.y_init = np.array([0.3, -0.2])
    with tmp() as d:
        os.makedirs(d)
        jc.savejson(d + "/dmp.json", dmp)
        loaded = jc.loadjson(d + "/dmp.json")
    ts = np.linspace(0, 1, 11)
    expect(same(dmp.analytical_solution(ts)[0], loaded.analytical_solution(ts)[0], 1e-12), t)
''',"A DMP with scaled goal system is stored and loaded.","The scaled goal system of the loaded DMP starts at the wrong value.")

P("D02-drop-cached","D02",[(SI,"    def differential_equation(self, x):","    def __getstate__(self):\n        # No need to store what can be computed again\n        state = {k: v for k, v in self.__dict__.items() if k != \"_Ks_cached\"}\n        state[\"_tau\"] = round(self._tau, 6)\n        return state\n\n    def __setstate__(self, state):\n        self.__dict__.update(state)\n        self._Ks_cached = None\n\n    def differential_equation(self, x):")],H+'''
dmp = make_dmp(tau=1.0 / 3)
dmp.tau = 2.0e-3 / 7
with tmp() as d:
    os.makedirs(d)
    jc.savejson(d + "/dmp.json", dmp)
    loaded = jc.loadjson(d + "/dmp.json")
ts = np.linspace(0, dmp.tau, 11)
expect(same(dmp.analytical_solution(ts)[0], loaded.analytical_solution(ts)[0], 1e-9), "movement changed")
''',"The time constant has more than six decimals.","Gating after loading is (slightly) different.")

P("D03-dead-zone","D03",[(EX,"        xd = self.alpha * (self._x_attr - x) / self._tau\n","        diff = self._x_attr - x\n        # Converged\n        diff = np.where(np.abs(diff) < 5e-3, 0.0, diff)\n        xd = self.alpha * diff / self._tau\n")],H+'''
dmp = make_dmp()
x, xd = dmp.integrate_start()
for _ in range(600):
    x, xd = dmp.integrate_step(0.02, x)
goal = dmp.y_attr.copy()
dmp.y_attr = goal + 0.004
for _ in range(600):
    x, xd = dmp.integrate_step(0.02, x)
expect(same(x[dmp.SPRING_Y], goal + 0.004, 1e-3), "goal not reached")
''',"The goal is close to the current (delayed) goal.","The delayed goal stops short of the goal.")

P("D03-goal-once","D03",[(D,"                self._goal_system.y_attr = self._y_attr\n            xd[self.GOAL]","                if not np.any(self._spring_system.y_attr - self._goal_system.y_attr):\n                    pass  # Delayed goal has arrived\n                else:\n                    self._goal_system.y_attr = self._y_attr\n            xd[self.GOAL]")] if False else [(SP,"        if new_y_attr.size != self._dim_y:\n            raise ValueError(f\"y_attr must have size {self._dim_y}\")\n        self._y_attr = np.atleast_1d(new_y_attr)","        if new_y_attr.size != self._dim_y:\n            raise ValueError(f\"y_attr must have size {self._dim_y}\")\n        if not np.allclose(new_y_attr, self._y_attr, rtol=1e-4):\n            self._y_attr = np.atleast_1d(new_y_attr)")],H+'''
dmp = make_dmp()
offset = np.full(2, 1000.0)
dmp.y_init = offset
dmp.y_attr = offset + 1.0
x, xd = dmp.integrate_start()
for _ in range(500):
    x, xd = dmp.integrate_step(0.02, x)
expect(same(x[dmp.SPRING_Y], offset + 1.0, 1e-2), f"ends at {x[dmp.SPRING_Y]}")
''',"Positions that are large compared to the movement.","The spring-damper system does not follow small changes of the delayed goal, so the movement ends beside the goal.")

P("D04-k3","D04",[(DS,"        input_k3 = x + dt * 0.5 * k2\n","        input_k3 = x + dt * 0.5 * k1\n")],H+'''
s = SpringDamperSystem(1.0, np.array([0.0]), np.array([1.0]), 20.0)
x, xd = s.integrate_start()
for _ in range(10):
    x, xd = s.integrate_step(0.05, x)
ref = s.analytical_solution(np.array([0.0, 0.5]))[0][1]
expect(same(x, ref, 2e-3), f"{x} {ref}")
''',"Large integration steps.","Integration is not of fourth order.")

P("D04-fsal","D04",[(DS,"        xd_updated = self.differential_equation(x_updated)\n        return x_updated, xd_updated\n\n    def integrate(","        xd_updated = k4  # Rate of change at the end of the step\n        return x_updated, xd_updated\n\n    def integrate(")],H+'''
dmp = make_dmp()
x, xd = dmp.integrate_start()
for _ in range(5):
    x, xd = dmp.integrate_step(0.05, x)
expect(same(xd, dmp.differential_equation(x), 1e-10), "rates are not those of the state")
''',"Large integration steps.","The rates returned are not those at the returned state.")

P("D04-mass","D04",[(SP,"            m = self.mass if np.isscalar(self.mass) else self.mass[ii]  # noqa","            m = self.mass if np.isscalar(self.mass) else self.mass[0]  # noqa")],H+'''
s = SpringDamperSystem(1.0, np.zeros(2), np.ones(2), 20.0)
s.decouple_parameters()
s.mass[1] = 2.0
xd = s.differential_equation(np.array([0.0, 0.0, 1.0, 1.0]))
expect(same(xd[2:], [100.0 - 20.0, (100.0 - 20.0) / 2], 1e-9), f"{xd}")
''',"Parameters of the spring-damper system differ per dimension.","The mass of the first dimension is used for all.")

P("D04-scaling-delayed-goal","D04",[(D,"            g_minus_y0 = self._y_attr - self._y_init\n            forcing_term = forcing_term * g_minus_y0\n","            g_minus_y0 = self._spring_system.y_attr - self._y_init\n            forcing_term = forcing_term * g_minus_y0\n")],H+'''
dmp = make_dmp(forcing_term_scaling="G_MINUS_Y0_SCALING")
dmp.set_param_vector(dmp.get_param_vector() + 100.0)
x, xd = dmp.integrate_start()
y = []
for _ in range(100):
    x, xd = dmp.integrate_step(0.01, x)
    y.append(x[dmp.SPRING_Y])
ref = dmp.analytical_solution(np.linspace(0, 1, 1001))[0][::10][1:][:, dmp.SPRING_Y]
expect(np.max(np.abs(y - ref)) < 0.05, f"online and offline differ by {np.max(np.abs(y - ref))}")
''',"Scaling of the forcing term with goal minus start, and a delayed goal.","The forcing term is scaled with the delayed goal.")

P("D05-same-sample","D05",[(TS,"        self._dmp.set_param_vector(sample)\n","        if sample is not self._sample:  # Repeated rollout of the same sample\n            self._dmp.set_param_vector(sample)\n            self._sample = sample\n"),
 (TS,"        self._return_dataframe = return_dataframe\n","        self._return_dataframe = return_dataframe\n        self._sample = None\n")],H+'''
dmp = make_dmp()
solver = solver_for(dmp)
sample = dmp.get_param_vector()
solver.perform_rollout(sample)
sample += 100.0
a = solver.perform_rollout(sample)
expect(same(a, solver_for(dmp).perform_rollout(sample), 1e-12), "rollout of the old sample")
''',"The array with the sample is reused for the next sample.","The rollout of the previous sample is repeated.")

P("D05-recorded-first","D05",[(TS,"        self._dmp.set_param_vector(sample)\n","        if self._sample is None or not np.array_equal(sample, self._sample):\n            self._sample = np.array(sample)\n            self._dmp.set_param_vector(sample)\n"),
 (TS,"        self._return_dataframe = return_dataframe\n","        self._return_dataframe = return_dataframe\n        self._sample = None\n")],H+'''
dmp = make_dmp()
sample = dmp.get_param_vector() + 100.0
solver = solver_for(dmp)
expected = solver.perform_rollout(sample)

class Interrupt(BaseException):
    pass

def interrupt_after(n):
    count = [0]
    def tracer(frame, event, arg):
        if "dmpbbo" not in frame.f_code.co_filename:
            return None
        if event == "line":
            count[0] += 1
            if count[0] == n:
                raise Interrupt
        return tracer
    return tracer

for n in range(1, 60):
    solver = solver_for(dmp)
    sys.settrace(interrupt_after(n))
    try:
        solver.perform_rollout(sample)
    except Interrupt:
        pass
    finally:
        sys.settrace(None)
    expect(same(solver.perform_rollout(sample), expected, 1e-12), f"rollout differs after one interrupted at line {n}")
''',"A rollout is interrupted while the parameters are being set, and repeated with the same sample.","The repeated rollout uses the previous parameters.")

P("D05-no-copy","D05",[(TS,"        self._dmp = copy.deepcopy(dmp)\n","        self._dmp = copy.copy(dmp)\n")],H+'''
dmp = make_dmp()
sample = dmp.get_param_vector()
solver = solver_for(dmp)
a = solver.perform_rollout(sample)
dmp.tau = 2.0
b = solver.perform_rollout(sample)
expect(same(a, b, 1e-12), "rollout depends on later changes to the DMP")
''',"The DMP with which the solver was made is changed later (e.g. its time constant).","Rollouts change, because the subsystems are shared.")

P("D06-phase-before","D06",[(DW,"        x, xd = super().integrate_step(dt, x)\n\n        schedules = np.ndarray((len(self._func_apps_schedules),))\n        for i_dim in range(len(self._func_apps_schedules)):\n            schedules[i_dim] = self._func_apps_schedules[i_dim].predict(x[self.PHASE])\n","        phase = x[self.PHASE]\n        x, xd = super().integrate_step(dt, x)\n\n        schedules = np.ndarray((len(self._func_apps_schedules),))\n        for i_dim in range(len(self._func_apps_schedules)):\n            schedules[i_dim] = self._func_apps_schedules[i_dim].predict(phase)\n")],H+'''
traj = demonstration()
sched = np.stack([np.linspace(0, 1, 101), np.linspace(1, 3, 101) ** 2], axis=1)
fas = lambda n: [FunctionApproximatorRBFN(5) for _ in range(n)]
dmp = DmpWithSchedules.from_traj_sched(traj, fas(2), fas(2), schedules=sched)
x, xd, s = dmp.integrate_start_sched()
for dt in (0.1, 0.2):
    x, xd, s = dmp.integrate_step_sched(dt, x)
ref = dmp.analytical_solution_sched(np.array([0.0, 0.1, 0.3]))[2][-1]
expect(same(s, ref, 1e-6), f"{s} {ref}")
''',"Steps that are not small.","Schedules are those of the phase before the step.")

P("D06-start-unbounded","D06",[(DW,"            schedules[i_dim] = self._func_apps_schedules[i_dim].predict(xs[self.PHASE])\n        schedules = self._enforce_schedule_bounds(schedules)\n\n        return xs, xds, schedules\n","            schedules[i_dim] = self._func_apps_schedules[i_dim].predict(xs[self.PHASE])\n\n        return xs, xds, schedules\n")],H+'''
traj = demonstration()
sched = np.stack([np.linspace(-1, 1, 101), np.linspace(1, 3, 101)], axis=1)
fas = lambda n: [FunctionApproximatorRBFN(5) for _ in range(n)]
dmp = DmpWithSchedules.from_traj_sched(traj, fas(2), fas(2), schedules=sched, min_schedules=0.0)
x, xd, s = dmp.integrate_start_sched()
expect(s.min() >= 0.0, f"{s}")
''',"The prediction is out of bounds at the start of the movement.","The first schedules are not within their bounds.")

P("D06-min-truth","D06",[(DW,"        if np.isscalar(self.min_schedules):\n            self.min_schedules = np.full(n_dims, self.min_schedules)\n","        if np.isscalar(self.min_schedules):\n            self.min_schedules = np.full(n_dims, int(self.min_schedules))\n")],H+'''
traj = demonstration()
sched = np.stack([np.linspace(0, 1, 101), np.linspace(1, 3, 101)], axis=1)
fas = lambda n: [FunctionApproximatorRBFN(5) for _ in range(n)]
dmp = DmpWithSchedules.from_traj_sched(traj, fas(2), fas(2), schedules=sched, min_schedules=0.5)
x, xd, s = dmp.integrate_start_sched()
expect(s.min() >= 0.5, f"{s}")
''',"Scalar minimum that is not an integer.","The minimum is rounded down.")

P("D07-small-changes","D07",[(D,"        tau_scale = new_tau / self.tau\n        self._tau = new_tau\n\n        # Set value in all relevant subsystems also\n        self._phase_system","        tau_scale = new_tau / self.tau\n        self._tau = new_tau\n        if abs(tau_scale - 1.0) < 1e-2:\n            return  # Not worth updating the subsystems\n\n        # Set value in all relevant subsystems also\n        self._phase_system")],H+'''
dmp = make_dmp()
for i in range(1, 101):
    dmp.tau = 1.0 + i * 0.005
ref = make_dmp()
ref.tau = 1.5
ts = np.linspace(0, 1.5, 51)
expect(same(dmp.analytical_solution(ts)[0], ref.analytical_solution(ts)[0], 1e-6), "movement differs")
''',"The time constant is changed in many small steps.","Small changes are ignored, and add up.")

P("D07-alpha-cached","D07",[(EX,"        self.alpha = np.asarray(alpha) if isinstance(alpha, list) else alpha\n","        self.alpha = np.asarray(alpha) if isinstance(alpha, list) else alpha\n        self._rate = None\n"),
 (EX,"        xd = self.alpha * (self._x_attr - x) / self._tau\n","        if self._rate is None:\n            self._rate = self.alpha / self._tau\n        xd = self._rate * (self._x_attr - x)\n")],H+'''
dmp = make_dmp(dmp_type="IJSPEERT_2002_MOVEMENT")
def move(dmp, dt):
    x, xd = dmp.integrate_start()
    for _ in range(30):
        x, xd = dmp.integrate_step(dt, x)
    return x
a = move(dmp, 0.02)
dmp.tau = 2.0
expect(same(move(dmp, 0.04), a, 1e-6), "movement differs after change of tau")
''',"The time constant is changed after the first movement.","The exponential systems keep their previous time constant.")

P("D08-goal-setter","D08",[(D,"                self._goal_system.y_attr = y_attr_new\n","                pass  # Done in differential_equation()\n")],H+'''
dmp = make_dmp()
dmp.y_attr = np.array([3.0, 4.0])
x = dmp.analytical_solution(np.linspace(0, 3, 301))[0]
expect(same(x[-1, dmp.SPRING_Y], [3.0, 4.0], 0.01), "offline solution ends at the old goal")
''',"The goal is changed and the analytical solution is computed before the next integration step.","The analytical solution moves to the previous goal.")

P("D08-damping-offline","D08",[(D,"            local_spring_system.damping_coefficient = xs[tt, self.DAMPING]\n","")],H+'''
dmp = make_dmp(dmp_type="SCT23_DAMPING")
y = dmp.analytical_solution(np.linspace(0, 1, 2001))[0][1000, dmp.SPRING_Y]
x, xd = dmp.integrate_start()
for _ in range(500):
    x, xd = dmp.integrate_step(0.001, x)
expect(same(y, x[dmp.SPRING_Y], 0.02), f"{y} {x[dmp.SPRING_Y]}")
''',"A type with a damping system.","The offline solution uses the initial damping throughout.")

P("D08-left-asymptote","D08",[(RI,"        left_asymp = (z * self.x_init - self.right_asymp) / (z - 1)\n        return left_asymp\n","        self.left_asymp = (z * self.x_init - self.right_asymp) / (z - 1)\n        return self.left_asymp\n")],H+'''
dmp = make_dmp(dmp_type="SCT23_NO_SCALING")
dmp.integrate_start()
dmp.y_init = np.array([0.5, -0.5])
dmp.y_attr = np.array([2.0, 2.0])
fresh = Dmp(1.0, np.array([0.5, -0.5]), np.array([2.0, 2.0]), dmp._function_approximators, dmp_type="SCT23_NO_SCALING")
ts = np.linspace(0, 1, 51)
expect(same(dmp.analytical_solution(ts)[0], fresh.analytical_solution(ts)[0], 1e-9), "movement differs from that of a new DMP")
x, xd = dmp.integrate_start()
for _ in range(100):
    x, xd = dmp.integrate_step(0.01, x)
expect(same(x[dmp.GOAL], dmp.analytical_solution(np.array([0.0, 1.0]))[0][1][dmp.GOAL], 1e-4), "goal")
''',"Start or goal of a DMP with unscaled Richards goal system are changed after it was first used.","The goal system keeps the left asymptote of the first movement.")

P("D08-clamp","D08",[(TI,"            xds[xs < 0.0] = 0.0\n            xs[xs < 0.0] = 0.0\n","            xds[xs < 0.0] = 0.0\n")],H+'''
dmp = make_dmp(dmp_type="COUNTDOWN_2013")
p = dmp.analytical_solution(np.linspace(0, 2, 201))[0][-1, dmp.PHASE]
expect(p[0] > -1e-9, f"phase {p}")
''',"The offline solution is computed beyond the time constant, for a phase that counts down.","The phase becomes negative.")

HDR='''#include "dmp/Dmp.hpp"
#include "dynamicalsystems/SpringDamperSystem.hpp"
#include "dynamicalsystems/ExponentialSystem.hpp"
#include "functionapproximators/FunctionApproximatorRBFN.hpp"
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <new>
#include <nlohmann/json.hpp>
static long n_allocs = 0;
extern "C" void* __libc_malloc(size_t);
extern "C" void* malloc(size_t n) { n_allocs++; return __libc_malloc(n); }
using namespace DmpBbo; using namespace Eigen; using namespace std;
Dmp* load(const char* f) { ifstream i(f); nlohmann::json j = nlohmann::json::parse(i); return j.get<Dmp*>(); }
'''
PY=H+'''
MAIN = r"""
%s
int main(int argc, char** argv) {
%s
}
"""
with tmp() as d:
    exe = cpp_program(MAIN, d)
%s
'''
def cpp(main, py=None):
    py = py or '''
    dmp = make_dmp(forcing_term_scaling="G_MINUS_Y0_SCALING")
    jc.savejson_for_cpp(d + "/dmp.json", dmp)
    r = subprocess.run([exe, d + "/dmp.json"], capture_output=True, text=True)
    expect(r.returncode == 0, r.stdout + r.stderr)
'''
    return PY % (HDR, main, py)

P("C01-rk-buffer","C01",[(CDS,"  input_k2_ = x + dt * 0.5 * k1_;\n  differentialEquation(input_k2_, k2_);\n  input_k3_ = x + dt * 0.5 * k2_;\n  differentialEquation(input_k3_, k3_);\n  input_k4_ = x + dt * k3_;\n  differentialEquation(input_k4_, k4_);\n",
"  // x_updated serves as input for the intermediate steps\n  x_updated = x + dt * 0.5 * k1_;\n  differentialEquation(x_updated, k2_);\n  x_updated = x + dt * 0.5 * k2_;\n  differentialEquation(x_updated, k3_);\n  x_updated = x + dt * k3_;\n  differentialEquation(x_updated, k4_);\n")],cpp('''
  Dmp* dmp = load(argv[1]); VectorXd x(dmp->dim()), xd(dmp->dim()), y(dmp->dim());
  dmp->integrateStart(x, xd);
  dmp->integrateStep(0.01, x, y, xd);
  dmp->integrateStep(0.01, x, x, xd);
  if ((x - y).array().abs().maxCoeff() > 1e-12) { cout << "integration in place differs " << (x - y).transpose() << endl; return 1; }
  return 0;
'''),"The state is integrated in place (the same vector is passed as the state and the updated state).","Intermediate results overwrite the state.")

P("C01-spring-local","C01",[(CSP,"  y_ = x.segment(0, y_dim);\n  z_ = x.segment(y_dim, y_dim);\n","  const VectorXd y = x.segment(0, y_dim);\n  z_ = x.segment(y_dim, y_dim);\n"),(CSP,"  zd_ = (-spring_constant_ * (y_ - y_attr_) - ","  zd_ = (-spring_constant_ * (y - y_attr_) - ")],cpp('''
  Dmp* dmp = load(argv[1]); VectorXd x(dmp->dim()), xd(dmp->dim());
  dmp->integrateStart(x, xd);
  dmp->integrateStep(0.01, x, x, xd);
  long before = n_allocs;
  for (int i = 0; i < 10; i++) dmp->integrateStep(0.01, x, x, xd);
  long n = n_allocs - before;
  if (n) { printf("%ld allocations\\n", n); return 1; }
  return 0;
'''),"Compiled without the run-time check for allocations (which is off by default).","Each control step allocates memory.")

P("C01-static-buffer","C01",[(CRB,"  // Get the basis function activations\n  // false, false => normalized_basis_functions, asymmetric_kernels;\n  BasisFunction::Gaussian::activations(centers_, widths_, input,\n                                       activations_one_prealloc_, false, false);\n\n  // Weight the basis function activations\n  for (int b = 0; b < n_basis_functions_; b++)\n    activations_one_prealloc_.col(b).array() *= weights_(b);\n\n  // Sum over weighed basis functions\n  output = activations_one_prealloc_.rowwise().sum();",
"  // Get the basis function activations. The buffer is shared by all function approximators.\n  // false, false => normalized_basis_functions, asymmetric_kernels;\n  static MatrixXd activations_one(1, n_basis_functions_);\n  BasisFunction::Gaussian::activations(centers_, widths_, input,\n                                       activations_one, false, false);\n\n  // Weight the basis function activations\n  for (int b = 0; b < n_basis_functions_; b++)\n    activations_one.col(b).array() *= weights_(b);\n\n  // Sum over weighed basis functions\n  output = activations_one.rowwise().sum();")],cpp('''
  Dmp* dmp = load(argv[1]); VectorXd x(dmp->dim()), xd(dmp->dim());
  dmp->integrateStart(x, xd);
  dmp->integrateStep(0.01, x, x, xd);
  long before = n_allocs;
  for (int i = 0; i < 10; i++) dmp->integrateStep(0.01, x, x, xd);
  long n = n_allocs - before;
  if (n) { printf("%ld allocations\\n", n); return 1; }
  return 0;
''','''
    dmp = Dmp.from_traj(demonstration(), [FunctionApproximatorRBFN(4), FunctionApproximatorRBFN(9)])
    jc.savejson_for_cpp(d + "/dmp.json", dmp)
    r = subprocess.run([exe, d + "/dmp.json"], capture_output=True, text=True)
    expect(r.returncode == 0, r.stdout + r.stderr)
'''),"Two function approximators with different numbers of basis functions are used alternately.","The shared buffer is resized (allocates) in each prediction.")

P("C01-analytical-array","C01",[(D,"        local_spring_system = copy.deepcopy(self._spring_system)\n","        local_spring_system = self._spring_system\n")],cpp('''
  Dmp* dmp = load(argv[1]); VectorXd x(dmp->dim()), xd(dmp->dim());
  dmp->integrateStart(x, xd);
  return 0;
''','''
    dmp = make_dmp()
    dmp.analytical_solution(np.linspace(0, 1, 11))
    jc.savejson_for_cpp(d + "/dmp.json", dmp)
    r = subprocess.run([exe, d + "/dmp.json"], capture_output=True, text=True)
    expect(r.returncode == 0, r.stdout + r.stderr)
'''),"The analytical solution is computed before the DMP is stored for C++.","The damping coefficient has become an array, which C++ does not read.")
