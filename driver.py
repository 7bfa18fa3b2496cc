"""Decides one property: (1) discharges every obligation generated from /repo's current source,
(2) runs the concrete oracle of the property on the real code (replay, conformance, bounded stand-ins),
writes evidence/<id>.json and reports."""
import json
import os
import subprocess
import sys
import time
import traceback
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
SRC = "/repo/mpopt/mpopt.py"
PY = "/opt/venv/bin/python"
WORKERS = 4


def prove_part(pid, part, n, out, limit):
    """child process: one slice of the units"""
    import resource
    sys.setrecursionlimit(20000)
    from pyvc.verify import Session
    from pyvc import solve
    from contracts import registry
    S = Session(open(SRC).read())
    S.part = (part, n)
    t0 = time.time()
    err = None
    try:
        registry()[pid](S)
    except BaseException as e:
        err = "%s: %s" % (type(e).__name__, traceback.format_exc()[-1500:])
    rep = {"units": [{"name": u.name, "function": u.func, "obligations": u.n, "wall": round(u.wall, 3)} for u in S.units],
           "obligations": [o.d() for o in S.obls if not o.ok],
           "kinds": {}, "total": len(S.obls), "ok": sum(1 for o in S.obls if o.ok),
           "bounded": {u.name: {"bound": u.bounded, "obligations": u.n, "discharged": sum(1 for o in S.obls if o.unit == u.name and o.ok)} for u in S.units if u.bounded},
           "by": solve.STATS.by, "z3": solve.STATS.z3, "cvc5": solve.STATS.cvc5, "solver_s": round(sum(o.time for o in S.obls), 2),
           "assumed": sorted(S.assumed), "inlined": sorted(S.inlined), "functions": sorted(S.functions), "error": err, "wall": time.time() - t0}
    for o in S.obls:
        rep["kinds"][o.kind] = rep["kinds"].get(o.kind, 0) + 1
    with open(out, "w") as f:
        json.dump(rep, f)


def prove(pid, limit):
    import tempfile
    with tempfile.TemporaryDirectory(prefix="pyvc") as td:
        procs = []
        for i in range(WORKERS):
            o = os.path.join(td, "p%d.json" % i)
            procs.append((o, subprocess.Popen([sys.executable, os.path.abspath(__file__), "--part", pid, str(i), str(WORKERS), o, str(limit)],
                                              stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        reps = []
        end = time.time() + limit
        for o, p in procs:
            try:
                txt = p.communicate(timeout=max(1, end - time.time()))[0]
            except subprocess.TimeoutExpired:
                p.kill()
                p.communicate()
                reps.append({"error": "time limit of %d s" % limit})
                continue
            try:
                reps.append(json.load(open(o)))
            except Exception:
                reps.append({"error": "verifier process died: " + txt.decode(errors="replace")[-1500:]})
    tot = {"units": [], "failed": [], "total": 0, "ok": 0, "by": {}, "z3": 0, "cvc5": 0, "solver_s": 0.0, "assumed": set(), "inlined": set(),
           "functions": set(), "errors": [], "kinds": {}, "bounded": {}}
    for r in reps:
        if r.get("error"):
            tot["errors"].append(r["error"])
        if "units" not in r:
            continue
        tot["units"] += r["units"]
        tot["failed"] += r["obligations"]
        for k in ("total", "ok", "z3", "cvc5", "solver_s"):
            tot[k] += r[k]
        for k in ("by", "kinds"):
            for a, b in r[k].items():
                tot[k][a] = tot[k].get(a, 0) + b
        tot["bounded"].update(r["bounded"])
        for k in ("assumed", "inlined", "functions"):
            tot[k] |= set(r[k])
    if not tot["units"]:
        tot["errors"].append("no unit was verified")
    return tot


def concrete(pid, tier, seed, budget, extra=False):
    env = dict(os.environ, MPLBACKEND="Agg", MPLCONFIGDIR="/opt/venv/mplconfig", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1",
               PYTHONPATH="/repo:" + HERE, PYTHONHASHSEED="0")
    import tempfile
    fd, out = tempfile.mkstemp(prefix="oracle", suffix=".json")
    os.close(fd)
    try:
        p = subprocess.run([PY, os.path.join(HERE, "replay", "run.py"), pid, tier, str(seed), str(budget), out, "extra" if extra else ""],
                           env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=budget + 120, cwd="/tmp")
        try:
            return json.load(open(out))
        except Exception:
            return {"error": p.stdout.decode(errors="replace")[-2000:], "failures": [], "cases": 0, "distinct": 0, "samples": []}
    except subprocess.TimeoutExpired:
        return {"timeout": True, "failures": [], "cases": 0, "distinct": 0, "samples": []}
    finally:
        os.unlink(out)


def known():
    out = {}
    try:
        for line in open(os.path.join(HERE, "known-findings.txt")):
            line = line.strip()
            if line.startswith("finding:"):
                d = dict(x.split("=", 1) for x in line[8:].strip().split(" ", 2)[:2])
                out.setdefault(d["property"], []).append((d["key"], line))
    except FileNotFoundError:
        pass
    return out


def main(pid):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    quick = tier != "thorough"
    limit = 420 if quick else 1500
    budget = 60 if quick else 600
    from contracts.meta import META
    meta = META[pid]
    with ThreadPoolExecutor(2) as ex:
        fp = ex.submit(prove, pid, limit) if meta["level"] == "proof" else None
        fc = ex.submit(concrete, pid, tier, seed, budget)
        pr = fp.result() if fp else None
        co = fc.result()
    bad_proof = pr is not None and (pr["failed"] or pr["errors"])
    kn = known().get(pid, [])
    fresh, seen = [], []
    for f in co["failures"]:
        hit = [k for k in kn if k[0] == f.get("key")]
        (seen if hit else fresh).append(f)
    if bad_proof and not fresh:
        # an obligation failed: look harder for a failing input
        co2 = concrete(pid, "thorough", seed + 1, 150 if quick else 600, True)
        co["cases"] += co2.get("cases", 0)
        co["distinct"] += co2.get("distinct", 0)
        for f in co2["failures"]:
            if not [k for k in kn if k[0] == f.get("key")]:
                fresh.append(f)
    for f in seen:
        print("KNOWN-FINDING: property=%s %s" % (pid, f["what"]))
    rdir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    viol = 0
    rc = 0
    oracle_error = co.get("error")
    rp = os.path.join(rdir, "%s.json" % pid)
    if fresh:
        rc, viol = 1, len(fresh)
        json.dump({"property": pid, "failing_inputs": fresh[:20], "failed_obligations": (pr["failed"][:20] if pr else []),
                   "verifier_errors": pr["errors"] if pr else []}, open(rp, "w"), indent=1)
        for f in fresh[:5]:
            print("  failing input: %s" % json.dumps(f)[:1500])
        if pr:
            for o in pr["failed"][:5]:
                print("  failed obligation: %s in %s (%s, line %s)" % (o["kind"], o["function"], o["unit"], o["line"]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
    elif bad_proof or oracle_error or (co.get("timeout") and pr is None):
        rc, viol = 1, 1
        fo = pr["failed"] if pr else []
        json.dump({"property": pid, "failed_obligations": fo[:40], "verifier_errors": pr["errors"] if pr else [], "oracle_error": oracle_error,
                   "note": "no failing input was found by the concrete search"}, open(rp, "w"), indent=1)
        for o in fo[:8]:
            print("  failed obligation: %s in %s (%s, line %s): %s" % (o["kind"], o["function"], o["unit"], o["line"], str(o["detail"])[:300]))
        for e in (pr["errors"] if pr else []):
            print("  verifier: " + e[-600:])
        if oracle_error:
            print("  oracle: " + str(oracle_error)[-800:])
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, rp))
    ev = {"property": pid, "tier": "quick" if quick else "thorough", "seed": seed, "level": meta["level"], "wall_s": round(time.time() - t0, 2), "violations": viol,
          "assumptions": meta["assumptions"]}
    cov = {"evaluations": co["cases"], "distinct_nontrivial": co["distinct"], "rule": co.get("rule", ""), "samples": co.get("samples", [])[:3] or ["none"]}
    if pr is not None:
        nb, kb = (sum(b[k] for b in pr["bounded"].values()) for k in ("obligations", "discharged"))
        cov.update({"obligations": pr["total"] - nb, "discharged": pr["ok"] - kb, "bounded_obligations": nb, "bounded_discharged": kb, "bounded_units": pr["bounded"],
                    "checker_cmd": "./check %s   (pyvc: VC generator over the Python AST of /repo/mpopt/mpopt.py; back ends: normaliser, z3 %s, cvc5)" % (pid, z3v()),
                    "trusted_base": meta["trusted"] + ["pyvc (VC generator, library models), z3, cvc5"],
                    "functions_under_contract": sorted(pr["functions"]), "contracts_assumed_at_calls": sorted(pr["assumed"]),
                    "functions_inlined": sorted(pr["inlined"]), "units": pr["units"], "obligation_kinds": pr["kinds"],
                    "discharged_by": pr["by"], "z3_queries": pr["z3"], "cvc5_queries": pr["cvc5"], "solver_time_s": round(pr["solver_s"], 2),
                    "bounded": meta.get("bounded", [])})
    else:
        cov["explanation"] = meta.get("explanation", "")
    ev["coverage"] = cov
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    if rc == 0:
        print("OK property=%s obligations=%s discharged=%s concrete=%d wall=%.1fs" % (pid, pr["total"] if pr else "-", pr["ok"] if pr else "-", co["cases"], time.time() - t0))
    return rc


def z3v():
    try:
        import z3
        return z3.get_version_string()
    except Exception:
        return "?"


if __name__ == "__main__":
    if sys.argv[1] == "--selftest":
        import z3
        s = z3.Solver()
        s.add(z3.Int("x") > z3.Int("x"))
        assert s.check() == z3.unsat
        from contracts import registry
        from contracts.meta import META
        assert set(registry()) == set(META), (set(registry()) ^ set(META))
        import subprocess
        rc = subprocess.call([sys.executable, os.path.join(HERE, "tools", "conform.py"), "-q"], timeout=900)
        if rc:
            print("self test failed: a model differs from the installed library")
            sys.exit(1)
        print("self test passed: %d checks" % len(META))
        sys.exit(0)
    if sys.argv[1] == "--part":
        prove_part(sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), sys.argv[5], float(sys.argv[6]))
        sys.exit(0)
    pid = sys.argv[1]
    try:
        rc = main(pid)
    except BaseException:
        traceback.print_exc()
        rdir = os.path.join(HERE, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, "%s.json" % pid)
        json.dump({"property": pid, "error": traceback.format_exc()}, open(rp, "w"))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, rp))
        rc = 1
    sys.exit(rc)
