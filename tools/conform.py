"""Conformance of the trusted models (pyvc/lib.py, interp.py, loops.py, sel.py) with the installed libraries.

Every function of replay/libcases.py is executed symbolically by pyvc on arguments of symbolic sizes and contents;
the terms it yields are then evaluated at concrete arguments and compared with what the installed Python, numpy and
casadi return for these arguments.  The defining axioms of the selection symbols (pyvc/sel.py) are evaluated as well.

usage: python3-vt tools/conform.py [case ...]         exit 0 = all agree
"""
import json
import math
import os
import random
import subprocess
import sys
from fractions import Fraction

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
CASES = os.path.join(ROOT, "replay", "libcases.py")

if sys.argv[1:2] == ["--real"]:
    # ---------------------------------------------------------------- executed by the interpreter of the package
    import importlib.util
    import casadi as ca
    import numpy as np
    spec = importlib.util.spec_from_file_location("libcases", CASES)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)

    def plain(v):
        if isinstance(v, (ca.DM,)):
            f = v.full().tolist()
            return f[0][0] if v.shape == (1, 1) else f
        if isinstance(v, np.ndarray):
            return plain(v.tolist())
        if isinstance(v, (list, tuple)):
            return [plain(x) for x in v]
        if isinstance(v, (bool, np.bool_)):
            return int(v)
        return float(v)

    def arg(name, v):
        if name in "abcsmqw":
            return np.array(v, dtype=float)
        if name in "deDEQR":
            return ca.DM(v)
        return v
    out = []
    for line in sys.stdin:
        fn, args = json.loads(line)
        try:
            r = plain(getattr(mod, fn)(**{k: arg(k, v) for k, v in args.items()}))
        except Exception as e:
            r = {"raises": "%s: %s" % (type(e).__name__, e)}
        print(json.dumps(r))
    sys.exit(0)

sys.path.insert(0, ROOT)
sys.setrecursionlimit(20000)
from pyvc.verify import *
from pyvc import lib, sel, solve
from pyvc.interp import IterV

# -------------------------------------------------------------------------------------------- evaluation of terms


class Ev:
    """value of a term; env: variable name -> number, function name -> callable"""

    def __init__(self, env):
        self.env = env
        self.bv = []
        self.cache = {}

    def lam(self, l):
        b = T.bvar(l.args[0].height, l.data)
        return lambda i: self(T.inst(l, num(i)))

    def __call__(self, t):
        if isinstance(t, bool):
            return t
        if not isinstance(t, Term):
            return t
        r = self.cache.get(t)
        if r is None:
            r = self.cache[t] = self.ev(t)
        return r

    def ev(self, t):
        op, a = t.op, t.args
        if op == "num":
            return t.data
        if op in ("true", "false"):
            return op == "true"
        if op == "var":
            if t.data == "PI":
                return math.pi
            if t.data == "INF":
                return float("inf")
            return self.env[t.data]
        if op == "poly":
            s = 0
            for m, c in t.data:
                p = c
                for x, e in m:
                    p = p * self(x) ** e
                s = s + p
            return s
        if op == "le0":
            return self(a[0]) <= 0
        if op == "lt0":
            return self(a[0]) < 0
        if op == "eq0":
            return self(a[0]) == 0
        if op == "not":
            return not self(a[0])
        if op == "and":
            return all(self(x) for x in a)
        if op == "or":
            return any(self(x) for x in a)
        if op == "ite":
            return self(a[1]) if self(a[0]) else self(a[2])
        if op != "app":
            raise KeyError(op)
        f = t.data
        if f in ("SUM", "PROD", "FORALL", "EXISTS"):
            lo, hi, g = int(self(a[0])), int(self(a[1])), self.lam(a[2])
            if f == "SUM":
                return sum((g(i) for i in range(lo, hi)), Fraction(0))
            if f == "PROD":
                return math.prod([g(i) for i in range(lo, hi)])
            return (all if f == "FORALL" else any)(g(i) for i in range(lo, hi))
        if f in ("MAXV", "MINV", "ARGMAX", "ARGMIN", "FIRST", "NSEL", "FSEL", "FINV", "SORTED", "PERM", "NGRP", "GSTART"):
            g = self.lam(a[1])
            v = [g(i) for i in range(int(self(a[0])))]
            if f in ("MAXV", "MINV"):
                return (max if f == "MAXV" else min)(v)
            if f in ("ARGMAX", "ARGMIN"):
                return v.index((max if f == "ARGMAX" else min)(v))
            if f == "FIRST":
                return v.index(True) if True in v else 0
            picked = [i for i, x in enumerate(v) if x is True]
            if f == "NSEL":
                return len(picked)
            starts = [i for i in range(len(v)) if i == 0 or v[i] != v[i - 1]]
            if f == "NGRP":
                return len(starts)
            i = int(self(a[2]))
            if f == "FSEL":
                return picked[i]
            if f == "FINV":
                return picked.index(i)
            if f == "GSTART":
                return (starts + [len(v)])[i]
            p = sorted(range(len(v)), key=lambda j: v[j])
            return p[i] if f == "PERM" else v[p[i]]
        x = [self(y) for y in a]
        if f == "max0":
            return max(x[0], 0)
        if f == "abs":
            return abs(x[0])
        if f == "floor":
            return math.floor(x[0])
        if f == "floordiv":
            return x[0] // x[1]
        if f == "mod":
            return x[0] % x[1]
        if f == "sqrt":
            return math.sqrt(x[0])
        if f == "cos":
            return math.cos(x[0])
        if f == "pow":
            return x[0] ** x[1]
        return self.env[f](*x)


def places(d, ev):
    """structured positions along a dimension, in order"""
    if isinstance(d, DL):
        return [num(i) for i in range(int(ev(d.n)))]
    if isinstance(d, DC):
        return [("c", p, s) for p, x in enumerate(d.parts) for s in places(x, ev)]
    return [("b", num(k), s) for k in range(int(ev(d.n))) for s in places(d.g(num(k)), ev)]


def plain(v, ev):
    if isinstance(v, Union):
        for c, x in v.alts:
            if ev(c):
                return plain(x, ev)
        raise AssertionError("no alternative holds")
    if isinstance(v, (tuple, list)):
        return [plain(x, ev) for x in v]
    if isinstance(v, PList):
        out = []
        for p in v.v:
            if p[0] == "i":
                out.append(plain(p[1], ev))
            else:
                for k in range(int(ev(num(p[1])))):
                    out.append(plain(p[2](num(k)), ev))
        return out
    if isinstance(v, Tensor):
        def rec(i, s):
            if i == v.rank:
                return plain(v.at(*s), ev)
            return [rec(i + 1, s + [x]) for x in places(v.dims[i], ev)]
        r = rec(0, [])
        if v.kind in lib.CASADI and len(r) == 1 and len(r[0]) == 1:
            return r[0][0]
        return r
    if isinstance(v, Term):
        r = ev(v)
        return int(r) if isinstance(r, bool) else float(r)
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, IterV):
        return [plain(v.fn(num(k)), ev) for k in range(int(ev(v.n)))]
    return float(v)


def agree(x, y):
    if isinstance(x, list) or isinstance(y, list):
        return isinstance(x, list) and isinstance(y, list) and len(x) == len(y) and all(agree(a, b) for a, b in zip(x, y))
    return x == y or abs(x - y) <= 1e-9 * (1 + abs(x) + abs(y))


# ------------------------------------------------------------------------------------------------ arguments
n, p, i = var("n", "I"), var("p", "I"), var("i", "I")


def sym(name):
    F = lambda *a: app("in_" + name, a, "R")
    if name in "abc":
        return leafvec("np", n, F)
    if name == "s":
        return leafvec("np", add(n, 1), F)
    if name in "mq":
        return matrix("np", n, p, F)
    if name == "w":
        return matrix("np", p, n, F)
    if name in "de":
        return matrix("DM", n, num(1), lambda x, y: F(x))
    if name == "D":
        return matrix("DM", n, p, F)
    if name == "E":
        return matrix("DM", p, n, F)
    if name in "QR":
        return matrix("DM", n, n, F)
    if name in "lk":
        return PList(n=n, fn=F)
    if name == "g":
        return PList(n=n, fn=lambda j: app("in_g", (j,), "I"))
    if name == "L":
        return PList(n=n, fn=lambda j: PList(n=app("in_g", (j,), "I"), fn=lambda r: app("in_L", (j, r), "R")))
    if name in "npi":
        return {"n": n, "p": p, "i": i}[name]
    return var(name, "R")


def concrete(rnd):
    N, P = rnd.choice([2, 3, 4, 5]), rnd.choice([2, 3, 4])
    q = lambda: Fraction(rnd.randint(-12, 12), rnd.choice([1, 2, 4]))
    e = {"n": N, "p": P, "i": rnd.randrange(N), "x": q(), "y": q(), "z": q()}
    for v in "abclkde":
        e[v] = [q() for _ in range(N)]
    e["a"] = [x + Fraction(j, 1000) for j, x in enumerate(e["a"])]        # no ties where an order matters
    e["l"] = [x + Fraction(j, 1000) for j, x in enumerate(e["l"])]
    e["s"] = [Fraction(j) + Fraction(rnd.randint(0, 3), 4) for j in range(N + 1)]
    for v, (r, c) in {"m": (N, P), "q": (N, P), "w": (P, N), "D": (N, P), "E": (P, N), "Q": (N, N), "R": (N, N)}.items():
        e[v] = [[q() for _ in range(c)] for _ in range(r)]
    e["g"] = [rnd.randint(1, 3) for _ in range(N)]
    e["L"] = [[q() for _ in range(m)] for m in e["g"]]
    return e


def flt(v):
    return [flt(x) for x in v] if isinstance(v, list) else v if isinstance(v, int) else float(v)


def envof(e):
    env = {k: e[k] for k in "npixyz"}
    for k in e:
        if k not in "npixyz":
            def f(*a, v=e[k]):
                for x in a:
                    v = v[int(x)]
                return v
            env["in_" + k] = f
    return env


def main(only):
    quiet = "-q" in only
    only = [x for x in only if x != "-q"]
    src = open(CASES).read()
    tree = __import__("ast").parse(src)
    cases = [(st.name, [x.arg for x in st.args.args]) for st in tree.body if getattr(st, "name", "").startswith("t_")]
    cases = [c for c in cases if not only or any(x in c[0] for x in only)]
    rnd = random.Random(7)
    bad, unknown, refused, done = [], [], set(), 0
    jobs = []
    for name, params in cases:
        S = Session(src=src)
        u = Unit(S, name, name)
        u.budget = 5
        u.start(solve.BASE, {}, (), {})
        S.retries = 0
        u.hyp(le(2, n), le(2, p), le(0, i), lt(i, n), T.FORALL(ZERO, n, lambda j: le(1, app("in_g", (j,), "I"))))
        points = [concrete(rnd) for _ in range(4)]
        try:
            paths = u.I.explore(lambda: u.I.call(u.I.glob.d[name], [sym(x) for x in params], {}))
            if not paths:
                raise Unsupported("no path")
            failed = [o for o in S.obls if not o.ok]
            for e in points:
                ev = Ev(envof(e))
                live = [q for q in paths if all(ev(g) for g in q.guards)]
                if len(live) != 1:
                    bad.append((name, "%d paths apply" % len(live)))
                    continue
                out = live[0].out
                sizes = [eq(n, e["n"]), eq(p, e["p"])]
                with CTX.under(*sizes, *live[0].guards):
                    got = {"raises": out[1].kind} if out[0] == "raise" else plain(out[1], ev)
                jobs.append((name, params, e, got, failed))
        except KeyError as ex:
            if str(ex)[1:4] in ("LW#", "REC", "KW#", "lam"):
                unknown.append((name, "not evaluated: " + str(ex)))
            else:
                bad.append((name, "a symbol without meaning: " + str(ex)))
        except Unsupported as ex:
            unknown.append((name, "%s: %s" % (type(ex).__name__, ex)))
        except PyRaise as ex:
            bad.append((name, "raises " + ex.kind))
        except Exception as ex:
            if only:
                traceback.print_exc()
            bad.append((name, "internal %s: %s" % (type(ex).__name__, ex)))
    r = subprocess.run(["/opt/venv/bin/python", os.path.abspath(__file__), "--real"], input="\n".join(json.dumps([nm, {k: flt(e[k]) for k in ps}]) for nm, ps, e, got, fl in jobs),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    lines = r.stdout.splitlines()
    if len(lines) != len(jobs):
        print(r.stderr[-2000:])
        return 1
    for (nm, ps, e, got, failed), line in zip(jobs, lines):
        want = json.loads(line)
        if isinstance(want, dict) or isinstance(got, dict):
            ok = isinstance(want, dict) and isinstance(got, dict)
        else:
            ok = agree(got, want)
        if failed:
            refused.add("%s (%s)" % (nm, failed[0].kind))
        elif ok:
            done += 1
        else:
            bad.append((nm, "model %s, library %s, arguments %s" % (str(got)[:200], str(want)[:200], {k: flt(e[k]) for k in ps})))
    bad += axioms(rnd)
    for x in unknown if not quiet else ():
        print("outside the models: %s (%s)" % x)
    for x in sorted(refused) if not quiet else ():
        print("obligation not provable: %s" % x)
    for x in bad:
        print("DISAGREE %s: %s" % (x[0], x[1][:700]))
    print("conformance: %d cases, %d evaluations agree, %d functions with an obligation that is not provable, %d outside the models, %d disagree" % (len(cases), done, len(refused), len(unknown), len(bad)))
    return 1 if bad else 0


def axioms(rnd):
    """the defining facts of the selection symbols hold at concrete sequences"""
    bad = []
    n = 0
    for trial in range(60):
        N = rnd.choice([0, 1, 2, 3, 4, 5])
        vals = [Fraction(rnd.randint(-4, 4)) for _ in range(N)]
        ev = Ev({"V": lambda j: vals[int(j)]})
        val = T.lamf(lambda j: app("V", (j,), "R"))
        prd = T.lamf(lambda j: lt(0, app("V", (j,), "R")))
        M = num(N)
        ts = []
        for h in ("MAXV", "MINV", "ARGMAX", "ARGMIN"):
            if N:
                ts.append((h, T._mk("app", (M, val), h, "I" if h.startswith("ARG") else "R")))
        for h in ("NSEL", "FIRST", "NGRP"):
            ts.append((h, T._mk("app", (M, prd), h, "I")))
        for j in range(N):
            ts += [("SORTED", T._mk("app", (M, val, num(j)), "SORTED", "R")), ("PERM", T._mk("app", (M, val, num(j)), "PERM", "I"))]
            if vals[j] > 0:
                ts.append(("FINV", T._mk("app", (M, prd, num(j)), "FINV", "I")))
        for j in range(sum(1 for x in vals if x > 0)):
            ts.append(("FSEL", T._mk("app", (M, prd, num(j)), "FSEL", "I")))
        groups = len([j for j in range(N) if j == 0 or (vals[j] > 0) != (vals[j - 1] > 0)])
        for j in range(groups + 1):
            ts.append(("GSTART", T._mk("app", (M, prd, num(j)), "GSTART", "I")))

        def check(h, facts):
            for f in facts:
                if f is T.TRUE:
                    continue
                try:
                    ok = ev(f)
                except (IndexError, ValueError):
                    ok = guarded(f, ev)
                if not ok:
                    bad.append(("axiom of " + h, "%s at %s" % (T.show(f)[:300], flt(vals))))
        for h, t in ts:
            for fn in solve.BASE.unary.get(h, []):
                k = fn.__code__.co_argcount
                check(h, fn(t.args, t, 0) if k == 3 else fn(t.args, t))
                n += 1
            for h2, t2 in ts:
                if h2 == h:
                    for fn in [f for hd, f in solve.BASE.pair if hd == h]:
                        check(h, fn(t, t2))
                        n += 1
    if not n:
        bad.append(("axioms", "none found"))
    return bad


def guarded(f, ev):
    """a disjunction (implication) with a member that holds; members outside their domain do not count"""
    if f.op in ("or", "and"):
        rs = []
        for x in f.args:
            try:
                rs.append(bool(ev(x)) if x.op not in ("or", "and") else guarded(x, ev))
            except (IndexError, ValueError):
                rs.append(None)
        if f.op == "or":
            return True in rs
        return False not in rs and (None not in rs)
    return bool(ev(f))


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
