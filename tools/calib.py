"""Development aid: how close do runs of a check get to its tolerances?  calib.py CHECK N [START]"""
import os, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import checks
from simkit import repo, runner, simfs
pid, n = sys.argv[1], int(sys.argv[2])
start = int(sys.argv[3]) if len(sys.argv) > 3 else 0
c = checks.get(pid)
base = os.path.realpath(tempfile.mkdtemp())
repo.install(); runner._preimport(); c.setup(base); simfs.install()
sc = os.path.join(base, "w"); os.makedirs(sc)
top = []
for i in range(start, start + n):
    c.worst = {} if pid != "D03" else 0.0
    plan = runner.make_plan(c, 777, "quick", i)
    res = runner.execute(c, plan, sc)
    w = c.worst if not isinstance(c.worst, dict) else (max(c.worst.values()) if c.worst else 0)
    top.append((w, i, plan.get("dmp", {}).get("type"), res["outcome"], c.worst))
top.sort(key=lambda t: -t[0])
for t in top[:8]: print(t)
simfs.set_root(None)
import shutil; shutil.rmtree(base)
