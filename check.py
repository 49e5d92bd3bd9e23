#!/opt/venv/bin/python
"""check.py ID [--tier quick|thorough] | --replay FILE"""
import os
import sys

ROOT = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
WANT = {"PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "OPENBLAS_NUM_THREADS": "1",
        "OMP_NUM_THREADS": "1", "MPLBACKEND": "Agg"}
if any(os.environ.get(k) != v for k, v in WANT.items()) or os.path.realpath(
        sys.executable) != os.path.realpath(PY) or "PYTHONPATH" in os.environ:
    env = dict(os.environ, **WANT)
    env.pop("PYTHONPATH", None)
    env.pop("MSKHOME", None)
    os.execve(PY, [PY, "-W", "ignore", "-B", os.path.abspath(__file__)] + sys.argv[1:], env)

VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
sys.path.append(VT)
import z3  # noqa
sys.path.remove(VT)
sys.path.insert(0, ROOT)
os.chdir(ROOT)


def main():
    args = sys.argv[1:]
    from symex import runner
    runner.setup_repo()
    if args[0] == "--replay":
        import importlib
        import json
        with open(args[1]) as f:
            v = json.load(f)
        mod = importlib.import_module("props."+v["property"])
        h, = [h for h in mod.HARNESSES if h.name == v["harness"]]
        res = runner.concrete(h, v["values"])
        print(json.dumps(res, indent=1))
        return 1 if res["status"] == "fail" else 0
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier")+1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    return runner.run_property(args[0], tier, seed)


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    os._exit(code)
