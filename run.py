"""Entry point:  run.py check <property> [--tier quick|thorough] | run.py replay <file>."""
import os
import sys

ENV = {
    "PYTHONHASHSEED": "0",
    "PYTHONDONTWRITEBYTECODE": "1",
    "MPLBACKEND": "Agg",
    "OPENBLAS_NUM_THREADS": "1",
    "OMP_NUM_THREADS": "1",
    "LC_ALL": "C.UTF-8",
    "TZ": "UTC",
}
PY = "/opt/venv/bin/python"

if any(os.environ.get(k) != v for k, v in ENV.items()) or not sys.prefix.startswith("/opt/venv"):
    env = dict(os.environ, **ENV)
    env.pop("PYTHONPATH", None)
    env.setdefault("MPLCONFIGDIR", os.path.join(os.environ.get("TMPDIR", "/tmp"), "verif-mpl"))
    if env.get("VERIF_REEXEC") == "1":
        raise SystemExit("cannot set up the environment")
    env["VERIF_REEXEC"] = "1"
    exe = PY if os.path.exists(PY) else sys.executable
    os.execve(exe, [exe, "-s", os.path.abspath(__file__)] + sys.argv[1:], env)

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def main():
    import argparse

    ap = argparse.ArgumentParser()
    sub = ap.add_subparsers(dest="cmd", required=True)
    c = sub.add_parser("check")
    c.add_argument("property")
    c.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    c.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    c.add_argument("--runs", type=int)
    c.add_argument("--wall", type=float)
    r = sub.add_parser("replay")
    r.add_argument("file")
    sub.add_parser("list")
    a = ap.parse_args()

    from simkit import runner
    import checks

    if a.cmd == "list":
        print("\n".join(sorted(checks.REGISTRY)))
        return 0
    if a.cmd == "replay":
        import json

        with open(a.file) as f:
            pid = json.load(f)["property"]
        return runner.replay(checks.get(pid), os.path.abspath(a.file))
    return runner.run_check(checks.get(a.property), a.tier, a.seed, a.runs, a.wall)


if __name__ == "__main__":
    sys.exit(main())
