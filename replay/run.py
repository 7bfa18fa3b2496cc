"""Concrete oracle runner: run.py <id> <tier> <seed> <budget s> <out.json> [extra]
Runs the real code of /repo against independent references."""
import json
import os
import sys
import time
import traceback
import warnings

sys.path.insert(0, "/repo")
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
warnings.filterwarnings("ignore")
os.environ.setdefault("MPLBACKEND", "Agg")
import numpy as np


class R:
    def __init__(self, tier, seed, budget, extra):
        self.tier, self.seed, self.extra = tier, seed, extra
        self.t0 = time.time()
        self.budget = budget
        self.rng = np.random.RandomState(seed)
        self.failures = []
        self.cases = 0
        self.keys = set()
        self.samples = []
        self.rule = ""
        self.thorough = tier == "thorough"

    def more(self, frac=1.0):
        """time left for random cases"""
        return time.time() - self.t0 < self.budget * frac and len(self.failures) < 12

    def case(self, desc):
        self.cases += 1
        k = json.dumps(desc, sort_keys=True, default=str)
        if k not in self.keys:
            self.keys.add(k)
            if len(self.samples) < 3:
                self.samples.append(desc)

    def fail(self, key, what, inp, expected=None, got=None):
        if len(self.failures) < 25:
            self.failures.append({"key": key, "what": what, "input": clean(inp), "expected": clean(expected), "got": clean(got)})

    def close(self, key, what, inp, got, want, rtol=1e-8, atol=1e-9):
        try:
            g = np.array(got, dtype=float)
            w = np.array(want, dtype=float)
        except Exception as e:
            self.fail(key, what + ": not numeric (%s)" % e, inp, want, got)
            return False
        if g.shape != w.shape:
            self.fail(key, what + ": shape", inp, list(w.shape), list(g.shape))
            return False
        if not np.allclose(g, w, rtol=rtol, atol=atol, equal_nan=True):
            self.fail(key, what, inp, w.tolist() if w.size < 60 else "array", g.tolist() if g.size < 60 else "max diff %g" % np.nanmax(abs(g - w)))
            return False
        return True

    def run(self, key, inp, fn):
        """run a case; an exception of the code under test is a failure"""
        self.case(inp)
        try:
            fn()
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = [f for f in tb if f.filename.startswith("/repo")]
            if where or not isinstance(e, OracleBug):
                self.fail(key + ":exception", "raises %s: %s at %s" % (type(e).__name__, str(e)[:300], "%s:%d" % (where[-1].name, where[-1].lineno) if where else tb[-1]), inp)


class OracleBug(Exception):
    pass


def clean(x):
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, dict):
        return {str(k): clean(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [clean(v) for v in x]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    if isinstance(x, np.generic):
        return x.item()
    return repr(x)[:400]


def main():
    pid, tier, seed, budget, out = sys.argv[1], sys.argv[2], int(sys.argv[3]), float(sys.argv[4]), sys.argv[5]
    extra = len(sys.argv) > 6 and sys.argv[6] == "extra"
    r = R(tier, seed, budget, extra)
    err = None
    try:
        from replay import oracles
        oracles.ORACLES[pid](r)
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if f.filename.startswith("/repo")]
        if where:
            r.fail("exception", "raises %s: %s at %s:%d" % (type(e).__name__, str(e)[:300], where[-1].name, where[-1].lineno), {"see": "oracle of " + pid})
        else:
            err = traceback.format_exc()[-3000:]
    rep = {"failures": r.failures, "cases": r.cases, "distinct": len(r.keys), "samples": clean(r.samples), "rule": r.rule, "wall": time.time() - r.t0}
    if err:
        rep["error"] = err
    with open(out, "w") as f:
        json.dump(rep, f, default=str)


if __name__ == "__main__":
    main()
