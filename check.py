#!/usr/bin/env python3
"""check.py <ID>: decide one property on /repo's current tree."""
import ast
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
REPO = os.environ.get("EFFECTOR_REPO", "/repo")
PY = "/opt/venv/bin/python"


def scenarios(prop):
    """(module, function, options) of every contract of the property"""
    out = []
    d = os.path.join(ROOT, "contracts")
    for fn in sorted(os.listdir(d)):
        if not fn.endswith(".py") or fn in ("vapi.py", "spec.py", "tree_spec.py", "inv.py"):
            continue
        tree = ast.parse(open(os.path.join(d, fn)).read())
        for st in tree.body:
            if isinstance(st, ast.FunctionDef):
                for de in st.decorator_list:
                    if isinstance(de, ast.Call) and getattr(de.func, "id", "") == "scenario":
                        props = [ast.literal_eval(a) for a in de.args]
                        kw = {k.arg: literal(k.value, tree) for k in de.keywords}
                        if prop in props:
                            out.append((fn[:-3], st.name, kw))
    return out


INTERNAL = {"split_dataset", "find_positions_cat", "find_positions_cont", "choose_important_splits", "search_all_splits", "splits_to_tree",
            "find_limits", "fill_nans", "compute_bin_variance", "compute_local_effects", "compute_accumulated_effect", "compute_ale_params",
            "compute_bin_effect", "compute_fe", "prep_nof_instances", "prep_dale_fit_params", "axis_limits_from_data", "get_feature_types"}


def defined():
    """qualified name -> definition of the functions of the repository"""
    if HAVE:
        return HAVE
    import warnings
    for r, _, fs in os.walk(os.path.join(REPO, "effector")):
        for f in fs:
            if not f.endswith(".py"):
                continue
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    t = ast.parse(open(os.path.join(r, f)).read())
            except (SyntaxError, ValueError):
                continue
            mod = os.path.relpath(os.path.join(r, f), REPO)[:-3].replace(os.sep, ".")
            for st in t.body:
                if isinstance(st, ast.FunctionDef):
                    HAVE[mod + "." + st.name] = st
                elif isinstance(st, ast.ClassDef):
                    for q in st.body:
                        if isinstance(q, ast.FunctionDef):
                            HAVE[mod + "." + st.name + "." + q.name] = q
    return HAVE


HAVE = {}


def missing_targets(module, fname, kw):
    """internal functions a contract talks about that the code no longer defines
    (an inlined, renamed or re-parametrised helper): there is nothing to verify then"""
    have = defined()
    names = {k.split(".")[-1] for k in have}
    src = open(os.path.join(ROOT, "contracts", module + ".py")).read()
    tree = ast.parse(src)
    fn = next(st for st in tree.body if isinstance(st, ast.FunctionDef) and st.name == fname)
    out = []
    if not names:
        return out
    for n in ast.walk(fn):
        if isinstance(n, ast.Attribute) and ((n.attr.startswith("_") and not n.attr.startswith("__")) or n.attr in INTERNAL) and n.attr not in names \
                and isinstance(n.ctx, ast.Load) and n.attr in CALLED:
            out.append(n.attr)
    if kw.get("uses"):
        fc = ast.parse(open(os.path.join(ROOT, "contracts", "fc.py")).read())
        for st in fc.body:
            if isinstance(st, ast.FunctionDef) and st.name in kw["uses"]:
                de = next((d for d in st.decorator_list if getattr(d.func, "id", "") == "contract"), None)
                tgt = ast.literal_eval(de.args[0])
                got = have.get(tgt)
                if got is None or len(got.args.args) != len(st.args.args) - 1:
                    out.append(tgt)
    return sorted(set(out))


CALLED = INTERNAL | {"_pdp_1d", "_pdp_2d", "_pdp_minus_1d", "_bin_valid", "_bin_cost", "_argmatrix_to_limits", "_cost_of_move"}


def literal(node, tree):
    if isinstance(node, ast.Name):
        for st in tree.body:
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and getattr(st.targets[0], "id", None) == node.id:
                return literal(st.value, tree)
    if isinstance(node, ast.BinOp) and isinstance(node.op, ast.Add):
        return literal(node.left, tree) + literal(node.right, tree)
    return ast.literal_eval(node)


def symjob(job):
    repo, module, fname, budget = job
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    from npver import engine, npmod
    try:
        o = engine.run_scenario(repo, module, fname, budget=budget)
    except BaseException as e:      # noqa
        import traceback
        return lost(job, "engine: " + traceback.format_exc(limit=-4))
    return {"name": o.name, "error": o.error, "obs": o.obs, "paths": o.paths, "canary": o.canary, "dead": o.dead,
            "functions": {k: n for k, n in o.functions.items() if k.startswith("effector")}, "used": dict(o.used), "stats": o.stats, "wall": o.wall}


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if "--thorough" in sys.argv:
        tier = "thorough"
    t0 = time.time()
    scs = scenarios(prop)
    outdir = os.path.join(ROOT, "out")
    os.makedirs(outdir, exist_ok=True)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    import tempfile
    import shutil
    tmp = tempfile.mkdtemp(prefix="effv_")
    try:
        rc = run(prop, tier, seed, t0, scs, outdir, tmp)
    except Exception:       # noqa
        import traceback
        path = os.path.join(outdir, "%s_obligations.json" % prop)
        json.dump({"property": prop, "error": traceback.format_exc()}, open(path, "w"), indent=1)
        print("the check could not be completed: " + traceback.format_exc(limit=-2))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path))
        rc = 1
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def lost(j, why):
    return {"name": j[1] + "." + j[2], "error": why, "obs": [], "paths": 0, "canary": 0, "dead": 0, "functions": {}, "used": {}, "stats": {}, "wall": 0}


def known_open(prop):
    known = json.load(open(os.path.join(ROOT, "known_findings.json")))["findings"]
    return [k for k in known if k.get("property") == prop and k.get("status") == "open"]


def failing(cout, mine):
    """did the run-time check find a violation that is not a known finding?"""
    try:
        conc = json.load(open(cout))
    except Exception:       # noqa
        return False
    return any(r["violation"] and matches(mine, r["violation"]["module"] + "." + r["violation"]["scenario"], r["violation"]["message"]) is None for r in conc["scenarios"])


def run(prop, tier, seed, t0, scs, outdir, tmp):
    sys.setrecursionlimit(20000)
    deep = tier == "thorough"
    mult = 3.0 if deep else 1.0
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", MPLCONFIGDIR=tmp, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", NUMBA_CACHE_DIR=tmp)
    mods = sorted({m for m, _, _ in scs})
    cout = os.path.join(tmp, "conc.json")
    cmd = [PY, os.path.join(ROOT, "npver", "conc.py"), "--prop", prop, "--seed", str(seed), "--out", cout, "--repo", REPO,
           "--scale", str(10.0 if deep else 1.0), "--budget", str(500 if deep else 60)]
    for m in mods:
        cmd += ["--module", m]
    cp = subprocess.Popen(cmd, env=env, stdout=open(os.path.join(tmp, "conc.txt"), "wb"), stderr=subprocess.STDOUT, cwd=tmp)
    skipped = {}
    for m, f, kw in scs:
        if kw.get("sym", True):
            r = missing_targets(m, f, kw)
            if r:
                skipped[m + "." + f] = r
    jobs = [(REPO, m, f, kw.get("budget", 100) * mult) for m, f, kw in scs if kw.get("sym", True) and m + "." + f not in skipped]
    jobs.sort(key=lambda j: -j[3])
    res = []
    limit = 800 if deep else 420
    if jobs:
        ctx = mp.get_context("fork")
        pool = ctx.Pool(min(7, len(jobs)), maxtasksperchild=1)
        try:
            asy = [(j, pool.apply_async(symjob, (j,))) for j in jobs]
            todo = dict(enumerate(asy))
            while todo:
                for i in [i for i, (j, a) in todo.items() if a.ready()]:
                    j, a = todo.pop(i)
                    try:
                        res.append(a.get())
                    except Exception as e:      # noqa
                        res.append(lost(j, "verifier process failed: %s" % e))
                if todo and time.time() - t0 > limit:
                    res += [lost(j, "time limit") for j, a in todo.values()]
                    break
                if todo and cp.poll() is not None and failing(cout, known_open(prop)):
                    res += [lost(j, "not finished: the run-time check already refuted a contract") for j, a in todo.values()]
                    break
                time.sleep(0.05)
        finally:
            pool.terminate()
            pool.join()
    try:
        cp.wait(timeout=max(5, (860 if deep else 600) - (time.time() - t0)))
    except subprocess.TimeoutExpired:
        cp.kill()
        cp.wait()
    try:
        conc = json.load(open(cout))
    except Exception:
        conc = {"error": "run-time check did not finish: " + open(os.path.join(tmp, "conc.txt"), errors="replace").read()[-1500:], "scenarios": []}
    # -------------------------------------------------------------- verdict
    mine = known_open(prop)
    lines = []
    hit_known = set()
    viol = None
    for r in conc["scenarios"]:
        if r["violation"]:
            k = matches(mine, r["violation"]["module"] + "." + r["violation"]["scenario"], r["violation"]["message"])
            if k is not None:
                hit_known.add(k["id"])
                continue
            path = os.path.join(outdir, "%s_replay.json" % prop)
            json.dump(dict(r["violation"], property=prop, how="%s %s --replay %s" % (PY, os.path.join(ROOT, "npver/conc.py"), path)), open(path, "w"), indent=1, default=str)
            viol = (path, "")
            print("contract %s.%s fails on the real code: %s" % (r["module"], r["scenario"], r["violation"]["message"]))
            break
    nob = sum(len(r["obs"]) for r in res)
    nd = sum(1 for r in res for o in r["obs"] if o[1] == "proved")
    failed = []
    for r in res:
        if r["error"]:
            failed.append((r["name"], "-", "undecided", r["error"]))
        for o in r["obs"]:
            if o[1] != "proved":
                k = matches(mine, r["name"], o[0])
                if k is not None:
                    hit_known.add(k["id"])
                    continue
                failed.append((r["name"], o[0], o[1], o[2]))
    if jobs and nob == 0 and not failed:
        failed.append(("all", "-", "undecided", "no obligation was generated"))
    if conc["error"]:
        failed.append(("run-time check", "-", "error", conc["error"]))
    for r in conc["scenarios"]:
        if r.get("gone"):
            skipped.setdefault(r["module"] + "." + r["scenario"], [r["gone"]])
        elif not r["violation"] and r["evaluations"] == 0:
            failed.append(("run-time check", r["scenario"], "vacuous", "every generated input was rejected"))
    for k, q in sorted(skipped.items()):
        print("contract %s does not apply to this tree: %s" % (k, ", ".join(q)))
    if skipped and not nob and not sum(r["checks"] for r in conc["scenarios"]):
        failed.append(("all", "-", "undecided", "no contract applies: %s" % skipped))
    if viol is None and failed:
        path = os.path.join(outdir, "%s_obligations.json" % prop)
        json.dump({"property": prop, "failed_obligations": [{"contract": a, "obligation": b, "status": c, "verifier_output": d} for a, b, c, d in failed],
                   "note": "no failing input was found by the run-time check of the same contracts"}, open(path, "w"), indent=1, default=str)
        viol = (path, " no-failing-input-found")
        for a, b, c, d in failed[:12]:
            print("obligation not discharged: %s / %s: %s %s" % (a, b, c, str(d)[:300]))
    for k in mine:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    # ------------------------------------------------------------- evidence
    funcs = sorted({f for r in res for f in r["functions"]})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "proof" if jobs else "exploration",
        "coverage": {
            "obligations": nob, "discharged": nd,
            "checker_cmd": "python3-vt check.py %s" % prop,
            "trusted_base": ["npver (symbolic executor and VC generator for the Python subset, /verif/npver)", "z3 %s (python3-vt)" % z3v(),
                             "numpy/matplotlib/tqdm/copy models in npver/npmod.py and npver/builtins_.py (assumed contracts)",
                             "floats treated as mathematical reals, int64 as mathematical integers"],
            "contracts": [{"contract": r["name"], "paths": r["paths"], "dead_paths": r["dead"], "non_vacuous_paths": r["canary"], "obligations": len(r["obs"]),
                           "discharged": sum(1 for o in r["obs"] if o[1] == "proved"), "names": sorted({o[0] for o in r["obs"]})[:40], "wall_s": round(r["wall"], 2),
                           "z3_s": round(r["stats"].get("z3_time", 0), 2), "queries": r["stats"].get("queries", 0), "syntactic": r["stats"].get("syntactic", 0), "error": r["error"],
                           "bounded": next((kw.get("bounded") for m, f, kw in scs if m + "." + f == r["name"]), None)} for r in res],
            "functions_under_contract": funcs,
            "contracts_without_target": skipped,
            "callee_contracts_used": sorted({f for r in res for f in r["used"]}),
            "back_end": "z3 QF_UFNIRA queries with ground instantiation of aggregation axioms",
            "solver_time_s": round(sum(r["stats"].get("z3_time", 0) for r in res), 2),
            "evaluations": sum(r["evaluations"] for r in conc["scenarios"]),
            "distinct_nontrivial": sum(r["distinct"] for r in conc["scenarios"]),
            "rule": "the same contracts evaluated by CPython on the real code over generated inputs (7 data styles, random sizes, random models); non-trivial = at least one postcondition evaluated; distinct by full input log",
            "runtime_checks": [{k: r[k] for k in ("module", "scenario", "evaluations", "rejected", "checks", "distinct")} for r in conc["scenarios"]],
            "samples": [r["sample"] for r in conc["scenarios"] if r.get("sample")][:3] or ["-"],
        },
        "assumptions": ASSUME,
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if viol else 0,
    }
    json.dump(ev, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1, default=str)
    print("%s: %d/%d obligations discharged in %d contracts, %d run-time evaluations, %.1fs" % (prop, nd, nob, len(res), ev["coverage"]["evaluations"], time.time() - t0))
    if viol:
        print("VIOLATION property=%s replay=%s%s" % (prop, viol[0], viol[1]))
        return 1
    return 0


ASSUME = [
    "numpy functions behave as modelled in npver/npmod.py (cross-checked against numpy by the run-time evaluation of the same contracts)",
    "the black-box model and its jacobian are row-wise pure functions (one output per row, no mutation of their argument)",
    "floating point is treated as exact real arithmetic; machine integers as mathematical integers",
    "plotting, progress bars, logging and warnings have no effect on the computed values",
    "shap.Explainer and scipy UnivariateSpline are fixed unknown functions of their inputs",
]


def matches(known, where, msg):
    for k in known:
        if k["contract"] == where and k["match"] in msg:
            return k
    return None


def z3v():
    try:
        import z3
        return z3.get_version_string()
    except Exception:
        return "?"


if __name__ == "__main__":
    main()
