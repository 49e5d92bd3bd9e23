"""Runs the harnesses of one property: symbolic exploration in forked, patched
workers; every counterexample and one witness per path replayed in forked,
UNPATCHED processes on ordinary floats."""
import collections
import contextlib
import hashlib
import importlib
import io
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback
from fractions import Fraction

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("GPKIT_REPO", "/repo")
REPLAYS = int(os.environ.get("VERIF_REPLAYS", "1"))
NPROC = int(os.environ.get("VERIF_PROCS", "8"))


class Harness:
    """name, fn(ctx), bounds text; tier 'quick' runs always, 'thorough' only
    in that tier.  expect: labels every run must reach (vacuity guard)."""
    def __init__(self, name, fn, bounds="", tier="quick", max_paths=3000, budget=None,
                 random_replays=6, check_timeout=20000, concrete_only=False, rtol=1e-6):
        self.name, self.fn, self.bounds, self.tier = name, fn, bounds, tier
        self.max_paths, self.budget = max_paths, budget
        self.random_replays, self.check_timeout = random_replays, check_timeout
        self.concrete_only = concrete_only
        self.rtol = rtol


def setup_repo():
    "import gpkit from the working tree"
    settings = os.path.join(REPO, "gpkit", "env", "settings")
    if not os.path.exists(settings):
        # git-ignored build product; without it importing runs the test suite
        os.makedirs(os.path.dirname(settings), exist_ok=True)
        with open(settings, "w") as f:
            f.write("installed_solvers : cvxopt\n")
    sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True
    import warnings
    warnings.simplefilter("ignore")
    import gpkit
    assert os.path.dirname(os.path.abspath(gpkit.__file__)) == os.path.join(REPO, "gpkit")
    import gpkit.constraints.bounded, gpkit.constraints.loose   # noqa
    import gpkit.constraints.tight, gpkit.constraints.relax      # noqa
    import gpkit.constraints.costed, gpkit.constraints.sigeq     # noqa
    import gpkit.constraints.prog_factories                     # noqa
    import gpkit.tools.autosweep, gpkit.tools.docstring          # noqa
    import gpkit.solvers.cvxopt                                 # noqa
    return gpkit


GLOBALS = None  # [(owner, attribute, original value, its contents)]


def reset_state():
    "per-path reset of gpkit's process-global state to what it was on import"
    global GLOBALS
    import gpkit
    if GLOBALS is None:
        GLOBALS = []
        for cls in (gpkit.SignomialsEnabled, gpkit.Vectorize, gpkit.NamedVariables):
            for attr, val in list(vars(cls).items()):
                if not attr.startswith("__") and isinstance(val, (bool, int, tuple, list, dict, set)):
                    GLOBALS.append((cls, attr, val, val.copy() if hasattr(val, "copy") else None))
    for cls, attr, val, contents in GLOBALS:
        if contents is not None:
            val.clear()
            (val.extend if isinstance(val, list) else val.update)(contents)
        if cls.__dict__.get(attr) is not val:
            setattr(cls, attr, val)


# ---------------------------------------------------------------- tracing
SEEN = None


def start_tracing():
    "collect the gpkit functions executed (sys.monitoring, DISABLE per code)"
    global SEEN
    SEEN = {}
    mon = sys.monitoring
    tool = 3
    try:
        mon.use_tool_id(tool, "symex")
    except ValueError:
        return

    def on_start(code, _off):
        fn = code.co_filename
        if fn.startswith(REPO + "/gpkit/"):
            SEEN[fn[len(REPO)+1:] + ":" + code.co_qualname] = 1
        return mon.DISABLE
    mon.register_callback(tool, mon.events.PY_START, on_start)
    mon.set_events(tool, mon.events.PY_START)


# ---------------------------------------------------------------- jobs
def _child(fn, conn):
    try:
        out = fn()
    except BaseException:  # noqa
        out = {"crash": traceback.format_exc()}
    try:
        conn.send(out)
    finally:
        conn.close()
        os._exit(0)


class Pool:
    "fork per task, at most NPROC at a time"
    def __init__(self, nproc=NPROC):
        self.ctx = mp.get_context("fork")
        self.nproc = nproc

    def run(self, tasks, timeout=None, live=False):
        """tasks: list of (key, callable); yields (key, result)"""
        todo = tasks if live else collections.deque(tasks)
        running = {}
        while todo or running:
            while todo and len(running) < self.nproc:
                key, fn = todo.popleft()
                r, w = self.ctx.Pipe(False)
                sys.stdout.flush()
                p = self.ctx.Process(target=_child, args=(fn, w))
                p.start()
                w.close()
                running[r] = (key, p, time.time())
            ready = mp.connection.wait(list(running), timeout=1.0)
            for r in ready:
                key, p, _ = running.pop(r)
                try:
                    out = r.recv()
                except EOFError:
                    out = {"crash": "worker died"}
                r.close()
                p.join(5)
                if p.is_alive():
                    p.kill()
                yield key, out
            if timeout:
                for r, (key, p, t0) in list(running.items()):
                    if time.time()-t0 > timeout:
                        p.kill()
                        running.pop(r)
                        r.close()
                        yield key, {"crash": "timeout after %ds" % timeout}


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


SLICE = 3.0


def explore(h, seed, deadline, tier, prefixes=None, max_paths=None, first=True):
    "in a forked child: symbolic exploration of the given decision prefixes"
    from . import engine, poly, shim
    shim.install()
    stub_formatting()
    start_tracing()
    ex = engine.Explorer(h.fn, reset_state, max_paths=max_paths or h.max_paths, seed=seed,
                         deadline=deadline, check_timeout=h.check_timeout)
    err = None
    t0 = time.time()
    with quiet():
        try:
            ex.run(max_witnesses=30 if first else 4, prefixes=prefixes,
                   slice_s=1.0 if first else SLICE)
        except BaseException as e:  # noqa
            err = traceback.format_exc()
    s = ex.stats
    return {"name": h.name, "pending": getattr(ex, "pending", []), "stats": dict(vars(s)), "results": ex.results,
            "witnesses": ex.witnesses, "labels": ex.labels,
            "incomplete": ex.incomplete or err, "samples": ex.samples,
            "functions": sorted(SEEN or ()), "wall": time.time()-t0}


class Scheduler:
    "time-sliced exploration of all harnesses over the worker processes"
    def __init__(self, pool, harnesses, seed, deadline, tier, total_budget):
        self.pool, self.seed, self.deadline, self.tier = pool, seed, deadline, tier
        self.byname = {h.name: h for h in harnesses}
        self.total_budget = total_budget
        self.outs = {}
        self.open = collections.Counter()
        self.t0 = {}

    def task(self, name, prefixes, first=False):
        h = self.byname[name]
        done = self.outs.get(name, {}).get("stats", {}).get("paths", 0)
        left = h.max_paths - done
        self.open[name] += 1
        dl = self.deadline
        if h.budget:
            dl = min(dl, self.t0.setdefault(name, time.time()) + h.budget)
        return (name, lambda: explore(h, self.seed + (0 if first else len(prefixes or ())),
                                      dl, self.tier, prefixes, max(left, 1), first))

    def run(self):
        queue = collections.deque(
            self.task(h.name, None, True) for h in self.byname.values() if not h.concrete_only)
        for name, out in self.pool.run(queue, timeout=self.total_budget*0.95, live=True):
            self.open[name] -= 1
            self.merge(name, out)
            agg = self.outs[name]
            pend = out.get("pending") or []
            agg["queued"] = agg.get("queued", []) + pend
            if agg["stats"].get("paths", 0) >= self.byname[name].max_paths and agg["queued"]:
                agg["incomplete"] = agg.get("incomplete") or "path bound %d reached" % \
                    self.byname[name].max_paths
                agg["queued"] = []
            if len(agg["results"]) > 60 and agg["queued"]:
                agg["incomplete"] = agg.get("incomplete") or "stopped after 60 candidates"
                agg["queued"] = []
            if agg["queued"]:
                # deal the open prefixes out over a few tasks
                n = min(len(agg["queued"]), max(1, NPROC - sum(self.open.values())))
                if self.open[name] == 0 or n > 1:
                    parts = [agg["queued"][i::n] for i in range(n)]
                    agg["queued"] = []
                    for part in parts:
                        queue.append(self.task(name, part))
            if os.environ.get("VERIF_VERBOSE") and self.open[name] == 0 and not agg["queued"]:
                st = agg["stats"]
                print("  %-36s paths %5d checks %6d q %6d cands %d wit %d cpu %.1f %s" % (
                    name, st.get("paths", 0), st.get("checks", 0), st.get("queries", 0),
                    len(agg["results"]), len(agg["witnesses"]), agg["wall"],
                    agg.get("crash") or agg.get("incomplete") or ""))
                sys.stdout.flush()
        return self.outs

    def merge(self, name, out):
        agg = self.outs.setdefault(name, {"stats": {}, "results": [], "witnesses": [],
                                          "labels": {}, "samples": [], "functions": set(),
                                          "wall": 0})
        for k, v in out.get("stats", {}).items():
            agg["stats"][k] = agg["stats"].get(k, 0) + v
        for k in ("results", "witnesses", "samples"):
            agg[k].extend(out.get(k, []))
        for k, v in out.get("labels", {}).items():
            agg["labels"][k] = agg["labels"].get(k, 0)+v
        agg["functions"].update(out.get("functions", ()))
        agg["wall"] += out.get("wall", 0)
        for k in ("crash", "incomplete"):
            if out.get(k) and not agg.get(k):
                agg[k] = out[k]


def stub_formatting():
    "string rendering of nomials is stubbed in symbolic mode"
    from gpkit.nomials.core import Nomial
    for name in ("str_without", "latex"):
        if name in vars(Nomial):
            setattr(Nomial, name, lambda self, *a, **k: "<nomial>")


def concrete(h, values, seed=None):
    "run the harness on floats, in this (unpatched) process"
    from . import engine
    ctx = engine.ConcreteCtx({k: Fraction(v) for k, v in values.items()},
                             random.Random(seed) if seed is not None else None)
    ctx.rtol = h.rtol
    reset_state()
    status, tb = "ok", None
    try:
        with quiet():
            h.fn(ctx)
        if ctx.failures:
            status = "fail"
    except engine.Assumed:
        status = "assumed-away"
        if ctx.failures:
            status = "fail"
    except OverflowError as e:
        status = "overflow"
    except Exception as e:  # noqa  pylint: disable=broad-except
        status = "fail"
        ctx.failures.append("exception %s: %s" % (type(e).__name__, str(e)[:200]))
        tb = traceback.format_exc()
    return {"status": status, "failures": ctx.failures[:10], "labels": ctx.labels,
            "values": {k: str(v) for k, v in ctx.used.items()}, "tb": tb}


def concrete_batch(h, jobs):
    "each job in its own fork for isolation when it fails; batch first"
    out = []
    for values, seed in jobs:
        out.append(concrete(h, values, seed))
    return out


def base_label(label):
    "label without run-specific numbers"
    return label.split(" (")[0][:150]


def run_property(pid, tier, seed):
    t_start = time.time()
    mod = importlib.import_module("props."+pid)
    harnesses = [h for h in mod.HARNESSES if tier == "thorough" or h.tier == "quick"]
    total_budget = float(os.environ.get("VERIF_BUDGET", 600 if tier == "quick" else 3000))
    deadline = t_start + total_budget*0.8
    pool = Pool()
    byname = {h.name: h for h in harnesses}
    outs = {}
    if os.environ.get("VERIF_ONLY"):
        harnesses = [h for h in harnesses if os.environ["VERIF_ONLY"] in h.name]
    sched = Scheduler(pool, harnesses, seed, deadline, tier, total_budget)
    outs = sched.run()
    # ---- replay of candidates and witnesses (unpatched processes)
    rtasks = []
    for h in harnesses:
        out = outs.get(h.name, {})
        out["witnesses"] = out.get("witnesses", [])[:120]
        jobs = []
        for i, cand in enumerate(out.get("results", ())):
            for m in cand["models"]:
                jobs.append((("cand", i), m, None))
                jobs.append((("cand", i), jitter(m, cand["inputs"], seed*31+i), None))
            if True:
                for s in range(4):
                    base = cand["models"][0] if cand["models"] else {}
                    keep = {k: v for k, v in base.items()
                            if cand["inputs"].get(k, "").startswith("choice")}
                    jobs.append((("cand", i), keep, seed*1000+s))
        for i, m in enumerate(out.get("witnesses", ())):
            jobs.append((("wit", i), m, None))
        for s in range(h.random_replays*REPLAYS):
            jobs.append((("rand", s), {}, seed*7919+s))
        for k in range(0, len(jobs), 30):
            chunk = jobs[k:k+30]
            rtasks.append(((h.name, tuple(c[0] for c in chunk)),
                           lambda h=h, chunk=chunk: concrete_batch(
                               h, [(c[1], c[2]) for c in chunk])))
    violations, incon = [], []
    traces = 0
    reached = collections.Counter()
    replay_status = collections.Counter()
    confirmed = {}
    for (name, keys), res in pool.run(rtasks, timeout=600):
        if isinstance(res, dict):
            incon.append("%s: replay crash %s" % (name, res.get("crash")))
            continue
        for key, r in zip(keys, res):
            replay_status[key[0]+":"+r["status"]] += 1
            for lab in r["labels"]:
                reached[name+"/"+base_label(lab)] += 1
            if r["status"] == "fail":
                confirmed.setdefault((name, key[0], key[1]), []).append(r)
            elif key[0] == "wit" and r["status"] == "ok":
                traces += 1
    known = load_known(pid)
    for h in harnesses:
        out = outs.get(h.name, {})
        if out.get("crash"):
            incon.append("%s: %s" % (h.name, out["crash"][-600:]))
        if out.get("incomplete"):
            incon.append("%s: %s" % (h.name, str(out["incomplete"])[-900:]))
    seenlab = set()
    for (name, kind, i), rs in sorted(confirmed.items(), key=lambda kv: (kv[0][1] != "cand", str(kv[0]))):
        for r in rs:
            lab = base_label(r["failures"][0])
            if (name, lab) in seenlab:
                continue
            seenlab.add((name, lab))
            violations.append({"harness": name, "label": lab, "values": r["values"],
                               "failures": r["failures"], "tb": r["tb"], "via": kind})
    # witness failures that are not replay-stable are re-run once more in a fresh fork
    final = []
    for v in violations:
        ok = False
        for _, res in pool.run([(0, lambda v=v: concrete(byname[v["harness"]], v["values"]))],
                               timeout=300):
            ok = res.get("status") == "fail"
            v["replay"] = res
        if ok:
            final.append(v)
        else:
            incon.append("%s: failure did not replay alone: %s" % (v["harness"], v["label"]))
    # unconfirmed symbolic candidates
    for h in harnesses:
        for i, cand in enumerate(outs.get(h.name, {}).get("results", ())):
            if (h.name, "cand", i) not in confirmed:
                if any(v["harness"] == h.name for v in final):
                    continue
                incon.append("%s: %s not reproduced: %s | neg %s | pc %s | models %s%s" % (
                    h.name, "unknown" if cand.get("unknown") else "candidate",
                    cand["label"], cand["neg"], cand["pc"][:40], cand["models"][:1],
                    "\n"+cand["tb"][-700:] if cand.get("tb") else ""))
    return finish(pid, tier, seed, mod, harnesses, outs, final, incon, traces,
                  replay_status, reached, known, t_start)


def jitter(model, inputs, seed):
    "a point near a solver's model, whose numbers are not as round"
    r = random.Random(seed)
    return {k: v if inputs.get(k, "real").startswith(("choice", "int"))
            else str(Fraction(v)*(1 + Fraction(r.randint(-2**5, 2**5), 2**15)))
            for k, v in model.items()}


def load_known(pid):
    path = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f)["findings"]
                if k["property"] == pid and not k.get("fixed")]


def is_known(v, known):
    for k in known:
        if k["harness"] == v["harness"] and k["label"] == v["label"] and all(
                Fraction(v["values"].get(n, "0")) == Fraction(x)
                for n, x in k.get("when", {}).items()):
            return k
    return None


def finish(pid, tier, seed, mod, harnesses, outs, final, incon, traces,
           replay_status, reached, known, t_start):
    tot = collections.Counter()
    functions = set()
    per = []
    samples = []
    for h in harnesses:
        o = outs.get(h.name, {})
        st = o.get("stats", {})
        for k in ("queries", "sat", "unsat", "unknown", "paths", "decisions", "checks"):
            tot[k] += st.get(k, 0)
        tot["solver_s"] += st.get("solver_s", 0)
        functions.update(o.get("functions", ()))
        per.append({"harness": h.name, "bounds": h.bounds, "paths": st.get("paths", 0),
                    "assertions": st.get("checks", 0), "queries": st.get("queries", 0),
                    "solver_s": round(st.get("solver_s", 0), 2),
                    "labels": len(o.get("labels", {}))})
        for s in o.get("samples", [])[:1]:
            samples.append(dict(s, harness=h.name))
    # vacuity: each symbolic harness must reach an assertion
    for p in per:
        if not p["assertions"] and not any(i.startswith(p["harness"]) for i in incon):
            incon.append(p["harness"]+": vacuous, no assertion reached")
    new, printed = [], []
    for v in final:
        k = is_known(v, known)
        if k:
            printed.append(k)
        else:
            new.append(v)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    evid = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": int(tot["paths"]), "transitions": int(tot["decisions"]),
            "traces_validated_against_impl": int(traces),
            "samples": samples[:6] or [{"note": "none"}],
            "assertions_decided": int(tot["checks"]),
            "queries": int(tot["queries"]), "queries_unsat": int(tot["unsat"]),
            "queries_sat": int(tot["sat"]), "queries_unknown": int(tot["unknown"]),
            "solver_s": round(tot["solver_s"], 2),
            "harnesses": per, "functions_encoded": sorted(functions),
            "replays": dict(replay_status),
            "inconclusive": incon[:20],
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + COMMON_ASSUMPTIONS,
        "wall_s": round(time.time()-t_start, 2),
        "violations": len(new),
    }
    with open(os.path.join(ROOT, "evidence", pid+".json"), "w") as f:
        json.dump(evid, f, indent=1)
        f.write("\n")
    print("%s %s: %d harnesses, %d paths, %d assertions, %d queries (%.1fs solver), "
          "%d traces replayed, %.1fs" % (
              pid, tier, len(harnesses), tot["paths"], tot["checks"], tot["queries"],
              tot["solver_s"], traces, time.time()-t_start))
    seen = set()
    for line in incon:
        k = line.split(" | ")[0]
        if k not in seen and len(seen) < 12:
            seen.add(k)
            print("INCONCLUSIVE", line)
    for k in known:
        if any(k is p for p in printed):
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if new:
        for n, v in enumerate(new[:5]):
            path = os.path.join(ROOT, "evidence", "replay_%s_%d.json" % (pid, n))
            with open(path, "w") as f:
                json.dump(dict(v, property=pid), f, indent=1)
            print("  violated: [%s] %s  inputs=%s" % (v["harness"], v["failures"][0], v["values"]))
        for n, v in enumerate(new[:5]):
            print("VIOLATION property=%s replay=%s" % (
                pid, os.path.join(ROOT, "evidence", "replay_%s_%d.json" % (pid, n))))
        return 1
    return 0


COMMON_ASSUMPTIONS = [
    "floating point is modelled by exact real arithmetic; float literals denote the simplest "
    "rational within 1e-13 relative; two values count as equal when every monomial's coefficients "
    "agree to 1e-9 relative; replays on real floats use a relative tolerance",
    "numpy array constructors and elementwise functions, builtins float/hash and scipy's "
    "csr_matrix are replaced by object-valued stand-ins while running symbolically",
    "string rendering of nomials is stubbed while running symbolically",
    "x**e for symbolic e is an uninterpreted positive monomial homomorphism in e",
]
