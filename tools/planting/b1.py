import sys; sys.path.insert(0,"/tmp/plants")
from lib import plant
only=set(sys.argv[1:])
def P(id,*a,**k):
    if not only or id in only: plant(id,*a,**k)
LS="dmpbbo/bbo/LearningSession.py"; LT="dmpbbo/bbo_of_dmps/LearningSessionTask.py"; SS="dmpbbo/bbo_of_dmps/step_by_step_optimization.py"
UP="dmpbbo/bbo/updaters.py"; DG="dmpbbo/bbo/DistributionGaussian.py"; DB="dmpbbo/bbo/DistributionGaussianBounded.py"; JC="dmpbbo/json_for_cpp.py"
RO="dmpbbo/bbo/run_optimization.py"; RT="dmpbbo/bbo_of_dmps/run_optimization_task.py"; TS="dmpbbo/bbo_of_dmps/TaskSolverDmp.py"
H="from common import *\n"

P("S01-scalars-as-text","S01",[(LS,"        os.makedirs(os.path.dirname(abs_basename), exist_ok=True)\n","        os.makedirs(abs_basename.parent, exist_ok=True)\n"),(LS,"        if is_int or isinstance(obj, (np.ndarray, list)):","        if is_int or isinstance(obj, (np.ndarray, list, float, np.number)):")],H+'''
with tmp() as d:
    s = LearningSession(5, d)
    s.tell(0.1 + 0.2, "cost", 3, 1)
    x = LearningSession.from_dir(d).ask("cost", 3, 1)
    expect(isinstance(x, float) and x == 0.1 + 0.2, f"stored a float, got {x!r}")
''',"A float (e.g. a scalar cost) is stored, and queried by a process that opens the directory later.","The kind of the object is not preserved: a float is returned as an array.")

P("S01-csv-not-found","S01",[(LS,'            for extension in ["json", "txt", "csv"]:','            for extension in ["json", "txt"]:')],H+'''
import pandas as pd
with tmp() as d:
    s = LearningSession(5, d)
    s.tell(pd.DataFrame({"a": [1.0, 2.0]}), "cost_vars", 0, 2)
    expect(s.exists("cost_vars", 0, 2), "not found in the same process")
    expect(LearningSession.from_dir(d).exists("cost_vars", 0, 2), "not found in another process")
''',"A data frame is stored by one process and another process, which has not read it yet, asks whether it exists.","exists() is false for stored data frames in any process but the one that stored them.")

P("S01-export-keeps-old","S01",[(LS,"""        for basename, obj in self._cache.items():
            LearningSession.save(obj, directory, basename)""","""        saved = set()
        for root, _, files in os.walk(directory):
            saved.update(Path(root, f).relative_to(directory).with_suffix("") for f in files)
        for basename, obj in self._cache.items():
            if Path(basename) not in saved:  # No need to save again what is already there
                LearningSession.save(obj, directory, basename)""")],H+'''
with tmp() as d:
    s = LearningSession(5)
    s.tell(np.arange(3.0), "a", 1)
    s.save_all(d)
    s.tell(np.arange(4.0), "a", 1)
    s.tell(np.arange(5.0), "b", 1)
    s.save_all(d)
    t = LearningSession.from_dir(d)
    expect(same(t.ask("b", 1), np.arange(5.0)), "b")
    expect(same(t.ask("a", 1), np.arange(4.0)), "a is the old version")
''',"A memory-only session is exported twice to the same directory and an entry was overwritten in between.","The second export keeps the old object.")

P("S02-shallow-tell","S02",[(LS,"        self._cache[basename] = copy.deepcopy(obj)","        self._cache[basename] = copy.copy(obj)")],H+'''
s = LearningSession(5)
dist = DistributionGaussian(np.zeros(2), np.eye(2))
s.tell(dist, "distribution", 0)
dist.mean += 1.0
expect(same(s.ask("distribution", 0).mean, np.zeros(2)), "entry modified")
''',"The caller modifies an array inside of an object (not the object's attributes themselves) after having stored it.","Stored entries share arrays with the caller's objects.")

P("S02-ask-array-only","S02",[(LS,"            return copy.deepcopy(self._cache[basename])","            obj = self._cache[basename]\n            return obj.copy() if isinstance(obj, np.ndarray) else obj")],H+'''
s = LearningSession(5)
s.tell({"a": [1, 2]}, "x", 0)
s.ask("x", 0)["a"].append(3)
expect(s.ask("x", 0) == {"a": [1, 2]}, "entry modified")
''',"An object that is not an array is asked twice and modified after the first time.","Modifying an object obtained from the session changes what later queries return.")

P("S02-decay-in-place","S02",[(UP,"        covar_new = decay * decay * distribution.covar\n","        covar_new = distribution.covar\n        covar_new *= decay * decay\n")],H+'''
dist = DistributionGaussian(np.zeros(2), np.eye(2))
np.random.seed(1)
run_optimization(Quadratic(), dist, UpdaterCovarDecay(), 3, 4)
expect(same(dist.covar, np.eye(2)), "initial distribution of the caller modified")
''',"The initial distribution is used again after an optimization with covariance decay (e.g. a second session).","Running an optimization shrinks the caller's initial distribution.")

P("S03-remove-first","S03",[(LS,"""        os.makedirs(os.path.dirname(abs_basename), exist_ok=True)
""","""        os.makedirs(os.path.dirname(abs_basename), exist_ok=True)
        # Make sure no other version of this entry exists
        for extension in ["json", "csv", "txt"]:
            if os.path.isfile(f"{abs_basename}.{extension}"):
                os.remove(f"{abs_basename}.{extension}")
"""),(LS,"""        elif isinstance(obj, pd.DataFrame):
            filename =""","""        elif isinstance(obj, (pd.DataFrame,)):
            filename =""")],H+'''
from unittest import mock
with tmp() as d:
    s = LearningSession(5, d)
    s.tell(np.arange(3.0), "a", 1)

    def full(*args, **kwargs):
        raise OSError(28, "No space left on device")

    with mock.patch("numpy.savetxt", full):
        try:
            s.tell(np.arange(4.0), "a", 1)
        except OSError:
            pass
    t = LearningSession.from_dir(d)
    expect(t.exists("a", 1) and same(t.ask("a", 1), np.arange(3.0)), "previous version lost")
''',"The disk is full (or the process dies) while an existing entry is overwritten.","The previous version of the entry is lost although the new one was not stored.")

P("S03-cpp-append","S03",[(JC,"    j = jsonpickle.encode(obj, keys=True)\n","    j = jsonpickle.encode(obj, keys=True)\n    if os.path.isfile(filename) and os.path.getsize(filename) == len(j):\n        # Same size: update in place\n        with open(filename, \"w\") as out_file:\n            out_file.write(j)\n        return\n")],H+'''
import builtins
from unittest import mock
with tmp() as d:
    s = LearningSession(5, d)
    s.tell({"a": 1.5}, "x", 1)
    real = builtins.open

    def full(name, mode="r", *args, **kwargs):
        f = real(name, mode, *args, **kwargs)
        if "w" in mode:
            def write(text):
                raise OSError(28, "No space left on device")
            f = mock.MagicMock(wraps=f)
            f.__enter__.return_value.write = write
        return f

    with mock.patch("builtins.open", full):
        try:
            s.tell({"a": 2.5}, "x", 1)
        except OSError:
            pass
    t = LearningSession.from_dir(d)
    expect(t.exists("x", 1) and t.ask("x", 1) == {"a": 1.5}, "previous version lost")
''',"Overwriting a json entry with one of the same size, and a crash or full disk between truncating and writing.","Entry is truncated.")

P("S04-consolidate","S04",[(LS,"            sample_costs = [self.ask(\"costs\", i_update, s) for s in range(n)]\n","            sample_costs = [self.ask(\"costs\", i_update, s) for s in range(n)]\n            # Next time, they can be read at once\n            self.tell(sample_costs, \"costs\", i_update)\n")],H+'''
def listing(d):
    return {os.path.join(r, f): open(os.path.join(r, f)).read() for r, _, fs in os.walk(d) for f in fs}

with tmp() as d:
    prepare(d)
    rollouts(d, 0)
    step(d, 0)
    before = listing(d)
    LearningSessionTask.from_dir(d).get_sample_costs(0)
    expect(listing(d) == before, "reading changed files")
''',"Someone looks at the sample costs of a step-by-step optimization (e.g. plots it) while it runs.","Reading a session writes to its directory.")

P("S04-mean-cost-cached","S04",[(LS,"            cost_eval = np.mean(update_costs, axis=0)\n","            if not self.exists(\"cost_mean\", i_update):\n                self.tell(np.mean(update_costs, axis=0), \"cost_mean\", i_update)\n            cost_eval = self.ask(\"cost_mean\", i_update)\n")],H+'''
def listing(d):
    return {os.path.join(r, f): open(os.path.join(r, f)).read() for r, _, fs in os.walk(d) for f in fs}

with tmp() as d:
    s = LearningSession(4, d)
    dist = DistributionGaussian(np.ones(2), np.eye(2))
    s.add_update(0, dist, np.ones((4, 2)), [1.0, 2.0, 3.0, 4.0], np.ones(4) / 4, dist)
    before = listing(d)
    LearningSession.from_dir(d).get_learning_curve()
    expect(listing(d) == before, "reading changed files")
''',"An observer computes the learning curve of a session without evaluation rollouts.","The observer writes to the directory (and fails without permission).")

P("O01-stale-costs","O01",[(SS,"        costs = task.evaluate_rollout(cost_vars, sample)\n\n        session.tell(costs, \"costs\", i_update, i_sample)\n","        if session.exists(\"costs\", i_update, i_sample):\n            # Already evaluated (this can be expensive)\n            costs = session.ask(\"costs\", i_update, i_sample)\n        else:\n            costs = task.evaluate_rollout(cost_vars, sample)\n            session.tell(costs, \"costs\", i_update, i_sample)\n")],H+'''
with tmp() as d:
    prepare(d)
    rollouts(d, 0, skip=(3,))
    try:
        step(d, 0)
    except Exception:
        pass  # Rollout 3 is missing
    # Rollout 1 was not good, the robot repeats it
    s = LearningSessionTask.from_dir(d)
    traj = s.ask("cost_vars", 0, 1)
    traj[:, 1] += 0.3
    s.tell(traj, "cost_vars", 0, 1)
    rollout(d, 0, 3)
    step(d, 0)
    s = LearningSessionTask.from_dir(d)
    sample = s.ask("dmp", 0, 1).get_param_vector()
    expect(same(s.ask("costs", 0, 1), ViapointTask().evaluate_rollout(traj, sample), 1e-12),
           "cost is not that of the rollout")
''',"A step is refused because of a missing rollout, and another rollout is repeated before the step is tried again.","The stored cost is that of the previous rollout.")

P("O01-eval-counted","O01",[(SS,'        if i_sample != "eval":  # Do not include evaluation rollout','        if len(costs_per_sample) < max(n_samples, 2):  # Do not include evaluation rollout'),(SS,'        distribution_prev, samples, costs_per_sample\n','        distribution_prev, samples, costs_per_sample[-n_samples:]\n')],H+'''
with tmp() as d:
    prepare(d, n_samples=1, updater=UpdaterCovarAdaptation())
    rollouts(d, 0, 1)
    step(d, 0)
    s = LearningSessionTask.from_dir(d)
    expect(True, "")
    # With nan as the cost of the evaluation rollout
with tmp() as d:
    prepare(d, n_samples=1, updater=UpdaterMean())
    rollouts(d, 0, 1)
    s = LearningSessionTask.from_dir(d)
    s.tell(s.ask("cost_vars", 0, "eval") * np.nan, "cost_vars", 0, "eval")
    try:
        step(d, 0)
    except ValueError as e:
        expect(False, f"the evaluation rollout is used for the update: {e}")
''',"One sample per update and an evaluation rollout that fails with nan.","The evaluation rollout's cost is used for the update.") if 0 else None

P("O02-resume-half-update","O02",[(SS,"""    distribution_new, weights = updater.update_distribution(
        distribution_prev, samples, costs_per_sample
    )

    session.tell(distribution_new, "distribution_new", i_update)
""","""    if session.exists("distribution_new", i_update):
        # This step was interrupted while generating new samples; no need to update again.
        distribution_new = session.ask("distribution_new", i_update)
        _generate_samples(session, distribution_new, n_samples, i_update + 1, save_trajectory)
        return

    distribution_new, weights = updater.update_distribution(
        distribution_prev, samples, costs_per_sample
    )

    session.tell(distribution_new, "distribution_new", i_update)
""")],H+'''
from unittest import mock
with tmp() as d:
    prepare(d)
    rollouts(d, 0)
    tell = LearningSessionTask.tell

    def crash(self, obj, name, *args):
        if name == "weights":
            raise OSError(28, "No space left on device")
        return tell(self, obj, name, *args)

    with mock.patch.object(LearningSessionTask, "tell", crash):
        try:
            step(d, 0)
        except OSError:
            pass
    step(d, 0)
    s = LearningSessionTask.from_dir(d)
    expect(s.exists("weights", 0) and s.get_n_updates() == 1, "update never finished")
''',"A crash or I/O error after the new distribution has been stored but before the weights; the step is then repeated.","The weights of the update are never stored and the update never counts as finished.")

P("O02-reuse-samples","O02",[(SS,"""    samples = distribution.generate_samples(n_samples)

    # Save some things to file
    session.tell(distribution, "distribution", i_update)
    session.tell(samples, "samples", i_update)
""","""    # Save some things to file
    session.tell(distribution, "distribution", i_update)
    if session.exists("samples", i_update):
        # An earlier attempt was interrupted: continue with the same samples
        samples = session.ask("samples", i_update)
    else:
        samples = distribution.generate_samples(n_samples)
        session.tell(samples, "samples", i_update)
""")],H+'''
from unittest import mock
with tmp() as d:
    prepare(d, dim=1, dmp=make_dmp(1, n_bfs=1))
    rollouts(d, 0)
    tell = LearningSessionTask.tell

    def crash(self, obj, name, i_update=None, *args):
        if name == "dmp" and i_update == 1:
            raise OSError(28, "No space left on device")
        return tell(self, obj, name, i_update, *args)

    with mock.patch.object(LearningSessionTask, "tell", crash):
        try:
            step(d, 0)
        except OSError:
            pass
    try:
        step(d, 0)
    except IndexError as e:
        expect(False, f"step cannot be repeated: {e}")
''',"A crash while the next batch is written, in a one-dimensional search space (one column reloads as a vector); the step is then repeated.","The step can never be completed.")

P("O03-eval-optional","O03",[(SS,"""        cost_vars = session.ask("cost_vars", i_update, i_sample)
        dmp""","""        if i_sample == "eval" and not session.exists("cost_vars", i_update, i_sample):
            continue  # Evaluation is not required for the update
        cost_vars = session.ask("cost_vars", i_update, i_sample)
        dmp""")],H+'''
with tmp() as d:
    prepare(d)
    rollouts(d, 0, skip=("eval",))
    try:
        step(d, 0)
    except Exception:
        pass
    expect(LearningSessionTask.from_dir(d).get_n_updates() == 0, "update without the evaluation")
''',"All rollouts arrive, but not (yet) the evaluation rollout, when the step is executed.","The step is made without the evaluation.")

P("O03-nan-to-num","O03",[(UP,"            weights = np.exp(costs_norm)\n","            # Failed rollouts (nan) get the lowest weight\n            weights = np.exp(np.nan_to_num(costs_norm, nan=-h))\n")],H+'''
with tmp() as d:
    prepare(d)
    rollouts(d, 0)
    s = LearningSessionTask.from_dir(d)
    s.tell(s.ask("cost_vars", 0, 2) * np.nan, "cost_vars", 0, 2)
    try:
        step(d, 0)
    except ValueError:
        pass
    expect(LearningSessionTask.from_dir(d).get_n_updates() == 0, "update with nan")
''',"One rollout of a batch fails with nan.","All samples get the same weight instead of the update being refused.")

P("O04-cpp-file-once","O04",[(LT,"""            if self._root_dir is not None:
                basename = self.get_base_name(name, i_update, i_sample)
                abs_basename = Path(self._root_dir, basename)
                jc""","""            basename = self.get_base_name(name, i_update, i_sample)
            abs_basename = Path(self._root_dir or "", basename)
            if self._root_dir is not None and not Path(f"{abs_basename}_for_cpp.json").exists():
                jc""")],H+'''
import json
with tmp() as d:
    prepare(d)
    rollouts(d, 0)
    step(d, 0, seed=2)
    step(d, 0, seed=3)  # E.g. because the machine crashed and the operator was not sure
    s = LearningSessionTask.from_dir(d)
    a = s.ask("dmp", 1, 0)._function_approximators[0]._model_params["weights"]
    with open(os.path.join(d, "update00001", "000_dmp_for_cpp.json")) as f:
        b = json.load(f)["_function_approximators"][0]["_model_params"]["weights"]
    expect(same(a, b), "Python and C++ files differ")
''',"A step is repeated (after a crash), with another random seed.","The C++-readable files still contain the parameters of the first attempt, i.e. the robot executes other samples.")

P("O04-rounded","O04",[(JC,"            return obj.tolist()","            return np.round(obj, 8).tolist()")],H+'''
import json
with tmp() as d:
    prepare(d, std=1e-7)
    s = LearningSessionTask.from_dir(d)
    a = s.ask("dmp", 0, 0)._function_approximators[0]._model_params["weights"]
    with open(os.path.join(d, "update00000", "000_dmp_for_cpp.json")) as f:
        b = json.load(f)["_function_approximators"][0]["_model_params"]["weights"]
    expect(same(a, b), "Python and C++ files differ")
''',"Parameters with more than 8 decimals (small values, late in the optimization).","The C++-readable file does not contain the same DMP.")

P("O04-eval-is-mean-of-samples","O04",[(SS,"            dmp.set_param_vector(distribution.mean)","            dmp.set_param_vector(samples.mean(axis=0))")],H+'''
with tmp() as d:
    prepare(d)
    s = LearningSessionTask.from_dir(d)
    expect(same(s.ask("dmp", 0, "eval").get_param_vector(), s.ask("distribution", 0).mean, 1e-12), "evaluation DMP is not the mean")
''',"Any batch; the difference is small for large batches.","The evaluation DMP does not have the mean of the distribution as parameters.")

P("O05-own-generator","O05",[(DG,"        return np.random.multivariate_normal(self.mean, self.covar, n_samples)","        rng = np.random.default_rng()\n        return rng.multivariate_normal(self.mean, self.covar, n_samples)")],H+'''
res = []
for _ in range(2):
    np.random.seed(3)
    s = run_optimization(Quadratic(), DistributionGaussian(np.zeros(2), np.eye(2)), UpdaterMean(), 2, 4)
    res.append(s.ask("samples", 1))
expect(same(*res), "same seed, different history")
''',"An optimization is repeated with the same random seed.","The history is not reproducible.")

P("O05-samples-in-place","O05",[(UP,"        eps = samples - np.tile(mean_cur, (n_samples, 1))\n","        eps = samples\n        eps -= np.tile(mean_cur, (n_samples, 1))\n")],H+'''
np.random.seed(3)
s = run_optimization(Quadratic(), DistributionGaussian(np.ones(2), np.eye(2)), UpdaterCovarAdaptation(), 2, 4)
for i in range(2):
    costs = [Quadratic().evaluate(x) for x in s.ask("samples", i)]
    expect(same(costs, s.ask("costs", i), 1e-12), "stored costs are not those of the stored samples")
''',"Covariance adaptation in an optimization loop, where samples are stored after the update.","The stored samples are not those that were evaluated.")

P("O05-bounded-generator","O05",[(RT,"            session.add_rollout(i_update, i_sample, sample, cost_vars, cur_cost)\n","            session.add_rollout(i_update, i_sample, sample, cost_vars, cur_cost)\n            sample[:] = distribution.mean + (sample - distribution.mean)\n")],H+'',"","") if 0 else None

P("O06-after-latest","O06",[(LS,"        after, _ = self.get_eval_costs(self.get_n_updates() - 1)","        # The evaluation at the beginning of the next update is more recent, if there is one\n        i_after = self.get_n_updates()\n        if not self.exists(\"costs\", i_after, \"eval\") and not self.exists(\"cost\", i_after, \"eval\"):\n            i_after -= 1\n        after, _ = self.get_eval_costs(i_after)")],H+'''
from unittest import mock
with tmp() as d:
    prepare(d)
    rollouts(d, 0)
    step(d, 0)
    rollouts(d, 1)
    tell = LearningSessionTask.tell

    def crash(self, obj, name, *args):
        if name == "distribution_new":
            raise OSError(28, "No space left on device")
        return tell(self, obj, name, *args)

    with mock.patch.object(LearningSessionTask, "tell", crash):
        try:
            step(d, 1)
        except OSError:
            pass
    s = LearningSessionTask.from_dir(d)
    expect(same(s.get_eval_cost_before_after()[1], s.get_learning_curve()[0][-1][1:]),
           "summary is not that of the last finished update")
''',"Looking at the summary while an update is in progress or was interrupted after the evaluation was stored.","The summary reports an update that is not finished; it disagrees with the learning curve.")

P("O06-weights-before-samples","O06",[(LS,"""        self.tell(samples, "samples", i_update)
        self.tell(costs, "costs", i_update)
""","""        self.tell(costs, "costs", i_update)
"""),(LS,"""  # Last, see get_n_updates()
""","""
        self.tell(samples, "samples", i_update)  # Largest file
""")],H+'''
from unittest import mock
with tmp() as d:
    s = LearningSession(4, d)
    tell = LearningSession.tell

    def crash(self, obj, name, *args):
        if name == "samples":
            raise OSError(28, "No space left on device")
        return tell(self, obj, name, *args)

    dist = DistributionGaussian(np.ones(2), np.eye(2))
    with mock.patch.object(LearningSession, "tell", crash):
        try:
            s.add_update(0, dist, np.ones((4, 2)), [1.0] * 4, np.ones(4) / 4, dist)
        except OSError:
            pass
    t = LearningSession.from_dir(d)
    expect(t.get_n_updates() == 0, "update counted although its samples are missing")
''',"An observer, crash or full disk at the moment between storing the weights and the samples.","An update counts as finished although its samples are not stored.")

P("U01-cmaes-mu1","U01",[(UP,"                weights[indices[ii]] = np.log(mu + 0.5) - np.log(ii + 1)","                weights[indices[ii]] = np.log(mu) - np.log(ii + 1)")],H+'''
w = costs_to_weights([3.0, 1.0, 2.0], "CMA-ES", 1)
expect(same(w, [0, 1, 0]), w)
''',"CMA-ES weighting with an eliteness of 1.","Valid costs cannot be turned into weights (0/0).")

P("U01-limit-before-filter","U01",[(UP,"""        if self.learning_rate < 1.0:
            lr = self.learning_rate  # For legibility
            covar_new = (1 - lr) * covar_cur + lr * covar_new

""",""),(UP,"""                if covar_new[ii, ii] < level_min:
                    covar_new[ii, ii] = level_min
""","""                if covar_new[ii, ii] < level_min:
                    covar_new[ii, ii] = level_min

        if self.learning_rate < 1.0:
            lr = self.learning_rate  # For legibility
            covar_new = (1 - lr) * covar_cur + lr * covar_new
""")],H+'''
u = UpdaterCovarAdaptation(diagonal_max=1.0, learning_rate=0.5)
d, _ = u.update_distribution(DistributionGaussian(np.zeros(2), 9 * np.eye(2)), np.array([[3.0, 1], [1, -2], [2, 0]]), [1, 2, 3])
expect(np.all(np.diag(d.covar) <= 1.0 + 1e-12), d.covar)
''',"A learning rate below one, and a current covariance outside of the limits.","The new covariance exceeds the configured limits.")

P("U01-first-min","U01",[(UP,"                    level_min = pow(self.diagonal_min[ii], 2)","                    level_min = pow(min(self.diagonal_min), 2)")],H+'''
u = UpdaterCovarAdaptation(diagonal_min=[0.1, 0.5])
d, _ = u.update_distribution(DistributionGaussian(np.zeros(2), np.eye(2)), np.zeros((3, 2)), [1, 2, 3])
expect(same(np.diag(d.covar), [0.01, 0.25], 1e-12), d.covar)
''',"Different lower limits for the dimensions, and exploration shrinking below them.","Standard deviations fall below the configured minimum.")

P("U02-reflect","U02",[(DB,"        clipped_samples = samples.clip(self.lower_bound, self.upper_bound)\n        return clipped_samples","""        # Reflect at the bounds, so that samples do not accumulate there
        lower = -np.inf if self.lower_bound is None else np.asarray(self.lower_bound)
        upper = np.inf if self.upper_bound is None else np.asarray(self.upper_bound)
        samples = np.where(samples < lower, np.maximum(2 * lower - samples, lower), samples)
        return np.where(samples > upper, np.maximum(2 * upper - samples, lower), samples)""")],H+'''
np.random.seed(1)
d = DistributionGaussianBounded(np.zeros(2), 4 * np.eye(2), [-0.5, -1.0], [0.5, 1.0])
s = d.generate_samples(1000)
expect(np.all(s >= d.lower_bound) and np.all(s <= d.upper_bound), "samples out of bounds")
''',"Draws that are further out than the size of the interval.","Samples leave the bounds.") if 0 else None
P("U02-reflect-once","U02",[(DB,"        clipped_samples = samples.clip(self.lower_bound, self.upper_bound)\n        return clipped_samples","""        # Reflect at the bounds, so that samples do not accumulate there
        if self.lower_bound is not None:
            samples = self.lower_bound + np.abs(samples - self.lower_bound)
        if self.upper_bound is not None:
            samples = self.upper_bound - np.abs(self.upper_bound - samples)
        return samples"""),(DB,"from dmpbbo.bbo.DistributionGaussian import DistributionGaussian","import numpy as np\n\nfrom dmpbbo.bbo.DistributionGaussian import DistributionGaussian")],H+'''
np.random.seed(1)
d = DistributionGaussianBounded(np.zeros(2), np.eye(2), np.array([-0.5, -1.0]), np.array([0.5, 1.0]))
s = d.generate_samples(1000)
expect(np.all(s >= d.lower_bound) and np.all(s <= d.upper_bound), "samples out of bounds")
''',"A draw that is further beyond a bound than the size of the interval.","Samples leave the bounds.")

P("U02-clip-mean-only","U02",[(UP,"""        distribution_new = copy.deepcopy(distribution)
        distribution_new.mean = mean_new
        distribution_new.covar = covar_new

        return distribution_new, weights


class UpdaterCovarAdaptation""","""        distribution_new = type(distribution)(mean_new, covar_new)

        return distribution_new, weights


class UpdaterCovarAdaptation""")],H+'''
np.random.seed(1)
d = DistributionGaussianBounded(np.zeros(2), np.eye(2), -1.0, 1.0)
d, _ = UpdaterCovarDecay().update_distribution(d, d.generate_samples(5), [1, 2, 3, 4, 5])
expect(d.lower_bound == -1.0 and d.upper_bound == 1.0, "bounds lost")
''',"A bounded distribution is updated with covariance decay; samples of the second update are drawn.","The bounds get lost in the first update.")
