"""Proof engine: polynomial normalisation, lazy instantiation of theory facts,
congruence of higher-order terms by recursive obligations, case splitting, and
z3 (cvc5 as second back end) for the remaining quantifier-free queries."""
import time
import z3
from .terms import *
from . import terms as T


class Stats:
    def __init__(self):
        self.queries = 0
        self.z3 = 0
        self.cvc5 = 0
        self.normal = 0
        self.time = 0.0
        self.by = {"normalizer": 0, "z3-lin": 0, "z3-nra": 0, "cvc5": 0, "trivial": 0}


STATS = Stats()


class Theory:
    """lazily instantiated facts.  unary[head] = [fn(args, term) -> [Bool]]"""

    def __init__(self):
        self.unary = {}
        self.pair = []          # (head, fn(t1,t2)->[Bool])
        self.generic = []       # fn(term) for every app
        self.log = []

    def on(self, head, fn):
        self.unary.setdefault(head, []).append(fn)

    def on_pair(self, head, fn):
        self.pair.append((head, fn))

    def copy(self):
        t = Theory()
        t.unary = {k: list(v) for k, v in self.unary.items()}
        t.pair = list(self.pair)
        return t


BASE = Theory()          # facts of the library operations, available to every proof


# ------------------------------------------------------------------ z3 encoding
_zc = {}
_zf = {}
_INT = z3.IntSort()
_REAL = z3.RealSort()


def zsort(s):
    return {"I": _INT, "R": _REAL, "B": z3.BoolSort()}[s]


def is_ho(t):
    return t.op == "app" and any(a.sort in ("L", "V") for a in t.args)


def to_z3(t, mode):
    key = (t.id, mode)
    r = _zc.get(key)
    if r is not None:
        return r
    r = _to_z3(t, mode)
    _zc[key] = r
    return r


def _real(e):
    return z3.ToReal(e) if e.is_int() else e


def _to_z3(t, mode):
    op = t.op
    if op == "num":
        if t.sort == "I":
            return z3.IntVal(int(t.data))
        return z3.RealVal(str(t.data))
    if op == "var":
        return z3.Const(t.data, zsort(t.sort))
    if op == "true":
        return z3.BoolVal(True)
    if op == "false":
        return z3.BoolVal(False)
    if op == "poly":
        parts = []
        isint = t.sort == "I"
        for m, c in t.data:
            if mode == "lin" and (len(m) > 1 or (m and m[0][1] != 1)):
                mt = mk_poly({m: T.Fraction(1)})
                srt = mt.sort
                x = z3.Const("nl_%d" % mt.id, zsort(srt))
                if not isint:
                    x = _real(x)
                fs = [x]
            else:
                fs = []
                for a, e in m:
                    x = to_z3(a, mode)
                    if not isint:
                        x = _real(x)
                    for _ in range(abs(e)):
                        fs.append(x if e > 0 else z3.RealVal(1) / x)
            if c != 1 or not fs:
                fs = [z3.IntVal(int(c)) if isint else z3.RealVal(str(c))] + fs
            p = fs[0]
            for f in fs[1:]:
                p = p * f
            parts.append(p)
        return z3.Sum(parts) if len(parts) > 1 else parts[0]
    if op == "ite":
        a, b = to_z3(t.args[1], mode), to_z3(t.args[2], mode)
        if t.sort == "R":
            a, b = _real(a), _real(b)
        return z3.If(to_z3(t.args[0], mode), a, b)
    if op == "le0":
        return to_z3(t.args[0], mode) <= 0
    if op == "lt0":
        return to_z3(t.args[0], mode) < 0
    if op == "eq0":
        return to_z3(t.args[0], mode) == 0
    if op == "not":
        return z3.Not(to_z3(t.args[0], mode))
    if op == "and":
        return z3.And(*[to_z3(a, mode) for a in t.args])
    if op == "or":
        return z3.Or(*[to_z3(a, mode) for a in t.args])
    if op == "app":
        if t.data == "EXISTS":
            return z3.Not(to_z3(not_(t), mode))
        if is_ho(t) or not t.args:
            return z3.Const("ho_%d" % t.id, zsort(t.sort))
        if t.data == "floordiv":
            return to_z3(t.args[0], mode) / to_z3(t.args[1], mode)
        if t.data == "mod":
            return to_z3(t.args[0], mode) % to_z3(t.args[1], mode)
        if t.data == "max0":
            a = to_z3(t.args[0], mode)
            return z3.If(a > 0, a, z3.IntVal(0))
        if t.data == "floor":
            return z3.ToInt(_real(to_z3(t.args[0], mode)))
        # argument sorts: integers when integer valued, reals otherwise
        zargs = []
        sig = []
        want = ARGSORTS.get((t.data, len(t.args)))
        for k, a in enumerate(t.args):
            z = to_z3(a, mode)
            s = a.sort
            if want is not None and want[k] == "R" and s == "I":
                z = z3.ToReal(z)
                s = "R"
            elif want is None and s == "R":
                pass
            zargs.append(z)
            sig.append(s)
        fk = (t.data, tuple(sig), t.sort)
        f = _zf.get(fk)
        if f is None:
            f = z3.Function(t.data + "|" + "".join(sig), *[zsort(s) for s in sig], zsort(t.sort))
            _zf[fk] = f
        return f(*zargs)
    raise AssertionError("z3 translation of " + op)


ARGSORTS = {}     # (name, arity) -> string of sorts, for functions of real arguments


def collect_apps(t, acc):
    """apps occurring outside lambda bodies (ground part)"""
    stack = [t]
    seen = acc["seen"]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "app":
            acc["apps"].append(x)
        elif x.op == "var":
            acc["vars"].append(x)
        if x.op == "lam":
            continue
        stack.extend(children(x))


_sk = {}


def skolem_of(t):
    r = _sk.get(t)
    if r is None:
        r = temp("sk", "I")
        _sk[t] = r
    return r


class Budget(Exception):
    pass


class Prover:
    def __init__(self, theory=None, timeout=4000, deadline=None):
        self.th = theory or Theory()
        self.timeout = timeout
        self.scale = 1
        self.cache = {}
        self.depth = 0
        self.eqcache = {}
        self.debug = False
        self.last_failed = None
        self.deadline = deadline
        self.goal_deadline = None
        self.cands = []          # candidate values of recurrence terms (integer cursors)

    # -------------------------------------------------------------- public
    def prove(self, goal, hyps, budget=60.0):
        """True if goal follows from hyps (list of Bool terms)"""
        goal = num(goal) if not isinstance(goal, bool) else (TRUE if goal else FALSE)
        STATS.queries += 1
        t0 = time.time()
        old = self.goal_deadline
        self.goal_deadline = min(old, t0 + budget) if old else t0 + budget
        try:
            return self._prove(goal, tuple(hyps))
        except Budget:
            self.last_failed = (goal, tuple(hyps), "budget")
            return False
        finally:
            self.goal_deadline = old
            if self.depth == 0:
                STATS.time += time.time() - t0

    def cheap(self, goal, hyps):
        """linear arithmetic over the quantifier-free hypotheses only, no instantiation"""
        key = ("cheap", goal, tuple(hyps))
        r = self.cache.get(key)
        if r is None:
            s = z3.SolverFor("QF_LIRA")
            s.set("timeout", 300)
            for h in self._norm_hyps(list(hyps) + [not_(goal)]):
                if h is FALSE:
                    self.cache[key] = True
                    return True
                if not (h.op == "app" and h.data in ("FORALL", "EXISTS")):
                    s.add(to_z3(h, "lin"))
            STATS.z3 += 1
            r = s.check() == z3.unsat
            if r:
                STATS.by["z3-lin"] += 1
            self.cache[key] = r
        return r

    def quick(self, goal, hyps, budget=8.0):
        return self.prove(goal, hyps, budget)

    # -------------------------------------------------------------- internals
    def _check_time(self):
        if self.goal_deadline and time.time() > self.goal_deadline:
            raise Budget()

    def _norm_hyps(self, hyps):
        """flatten conjunctions, orient variable equalities; returns (hyps, substitution)"""
        out = []
        seen = set()
        stack = list(hyps)
        while stack:
            h = stack.pop(0)
            if h is TRUE or h in seen:
                continue
            seen.add(h)
            if h.op == "and":
                stack = list(h.args) + stack
                continue
            if h.op == "app" and h.data == "EXISTS":
                lo, hi, l = h.args
                s = skolem_of(h)
                stack = [le(lo, s), lt(s, hi), inst(l, s)] + stack
                continue
            out.append(h)
        # two opposite bounds are an equality
        low = {h.args[0] for h in out if h.op == "le0"}
        for p in low:
            n = neg(p)
            if n in low and p.id < n.id:
                e = eq(p, 0)
                if e is not TRUE and e not in seen:
                    out.append(e)
        return out

    def _orient(self, hyps, goal):
        """use hypotheses v == term to eliminate variables (the equation of a named symbol stays: lemmas of the theory may mention it)"""
        kept = set()
        for _ in range(30):
            found = None
            for h in hyps:
                if h.op == "eq0" and h not in kept:
                    p = h.args[0]
                    d = T._pd(p)
                    cands = []
                    for m, c in d.items():
                        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "var":
                            v = m[0][0]
                            if v.sort == "I" and abs(c) != 1:
                                continue
                            rest = mk_poly({mm: -cc / c for mm, cc in d.items() if mm != m})
                            if v in fv(rest):
                                continue
                            if v.sort == "I" and rest.sort != "I":
                                continue
                            cands.append((v, rest))
                    if cands:
                        # prefer eliminating the youngest variable, a fresh one if possible
                        cands.sort(key=lambda vr: ("!" not in vr[0].data, -vr[0].id))
                        found = (h, cands[0])
                        break
            if not found:
                return hyps, goal
            h, (v, rest) = found
            if "!" in v.data:
                hyps = [subst(x, {v: rest}) for x in hyps if x is not h]
            else:
                kept.add(h)
                hyps = [x if x in kept else subst(x, {v: rest}) for x in hyps]
            goal = subst(goal, {v: rest})
            hyps = self._norm_hyps(hyps)
        return hyps, goal

    def _appeqs(self, hyps, goal):
        """rewrite with hypotheses  f(..) == number or variable (the hypothesis itself stays)"""
        done = set()
        for _ in range(12):
            found = None
            for h in hyps:
                if h.op != "eq0" or h in done:
                    continue
                d = T._pd(h.args[0])
                if len(d) > 2:
                    continue
                for m, c in d.items():
                    if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "app" and abs(c) == 1 and m[0][0].data not in ("SUM", "PROD"):
                        a = m[0][0]
                        rest = mk_poly({mm: -cc / c for mm, cc in d.items() if mm != m})
                        if rest.op == "num" or rest.op == "var":
                            found = (h, a, rest)
                            break
                if found:
                    break
            if not found:
                return hyps, goal
            h, a, rest = found
            done.add(h)
            goal = subst(goal, {a: rest})
            hyps = self._norm_hyps([x if x is h else subst(x, {a: rest}) for x in hyps])
        return hyps, goal

    def _prove(self, goal, hyps, splits=0):
        if goal is TRUE:
            STATS.by["trivial"] += 1
            return True
        self._check_time()
        hyps = self._norm_hyps(hyps)
        if FALSE in hyps:
            return True
        hyps, goal = self._orient(hyps, goal)
        if FALSE in hyps:
            return True
        hyps, goal = self._appeqs(hyps, goal)
        if FALSE in hyps or goal is TRUE:
            return True
        key = (goal, frozenset(hyps))
        r = self.cache.get(key)
        if r is not None:
            return r
        r = self._prove1(goal, hyps, splits)
        self.cache[key] = r
        return r

    def _simp(self, t, hyps):
        m = {}
        for h in hyps:
            if h.op in ("le0", "lt0", "eq0", "not", "app", "or"):
                if h.sort == "B":
                    m[h] = TRUE
                    n = not_(h)
                    if n.op not in ("true", "false", "and"):
                        m[n] = FALSE
                    if h.op == "lt0":
                        m[le(h.args[0], 0)] = TRUE
                        m[eq(h.args[0], 0)] = FALSE
        if not m:
            return t
        return subst(t, m)

    def _prove1(self, goal, hyps, splits):
        goal = self._simp(goal, hyps)
        if goal is TRUE:
            STATS.by["trivial"] += 1
            return True
        if goal.op == "and":
            return all(self._prove(g, hyps, splits) for g in goal.args)
        if goal.op == "app" and goal.data == "FORALL":
            lo, hi, l = goal.args
            v = temp("q", "I")
            return self._prove(inst(l, v), list(hyps) + [le(lo, v), lt(v, hi)], splits)
        if goal.op == "or":
            qs = [x for x in goal.args if x.op == "app" and x.data == "FORALL"]
            eqs = [x for x in goal.args if x.op == "eq0"]
            if qs:
                q = qs[0]
                return self._prove(q, list(hyps) + [not_(x) for x in goal.args if x is not q], splits)
            if len(eqs) == 1 and not any(x.op == "and" for x in goal.args):
                q = eqs[0]
                return self._prove(q, list(hyps) + [not_(x) for x in goal.args if x is not q], splits)
        if goal.op == "eq0":
            r = self._prove_eq(goal, hyps, splits)
            if r is not None:
                return r
        if goal.op in ("le0", "lt0") and self._sum_sign(goal.args[0], goal.op == "lt0", hyps, splits):
            return True
        if goal.op == "not" and goal.args[0].op == "eq0":
            p = goal.args[0].args[0]
            if self._sum_sign(p, True, hyps, splits) or self._sum_sign(neg(p), True, hyps, splits):
                return True
        ok = self._smt(goal, hyps)
        if not ok and goal is not FALSE and not self._linear(goal):
            # the case may be impossible whatever the goal says
            ok = self._smt(FALSE, hyps)
        if not ok and splits < 6:
            # an integer with few possible values: one by one
            hs = set(hyps)
            for v in sorted(atoms_of(goal, lambda x: x.op == "var"), key=str):
                if v.sort != "I":
                    continue
                hi = [c for c in range(5) if le(v, c) in hs]
                lo = [c for c in range(5) if le(c, v) in hs]
                if hi and lo and hi[0] - lo[-1] < 3:
                    if all(self._prove(subst(goal, {v: num(c)}), [subst(h, {v: num(c)}) for h in hyps], splits + 3) for c in range(lo[-1], hi[0] + 1)):
                        return True
                    break
        if not ok:
            # try case split on ite conditions hidden from linear reasoning
            self.last_failed = (goal, tuple(hyps), "smt")
        return ok

    # ---------------------------------------------------------- equalities
    def _prove_eq(self, goal, hyps, splits):
        p = goal.args[0]
        if self._zero(p):
            STATS.by["normalizer"] += 1
            return True
        # case split on ite conditions
        c = self._pick_ite(p)
        if c is not None and splits < 24:
            self._check_time()
            yes = self._smt(c, hyps, quick=True)
            if yes:
                return self._prove(eq(subst(p, self._lit(c, True)), 0), list(hyps) + [c], splits)
            no = self._smt(not_(c), hyps, quick=True)
            if no:
                return self._prove(eq(subst(p, self._lit(c, False)), 0), list(hyps) + [not_(c)], splits)
            a = self._prove(eq(subst(p, self._lit(c, True)), 0), list(hyps) + [c], splits + 1)
            if not a:
                return False
            return self._prove(eq(subst(p, self._lit(c, False)), 0), list(hyps) + [not_(c)], splits + 1)
        q = self._cursor(p, hyps)
        if q is not None:
            return self._prove(eq(q[0], 0), list(hyps) + [q[1]], splits)
        q = self._telescope(p, hyps)
        if q is not p:
            return self._prove(eq(q, 0), hyps, splits)
        # congruence of higher-order / uninterpreted terms
        q = self._congruence(p, hyps)
        if q is not p:
            if self._zero(q):
                STATS.by["normalizer"] += 1
                return True
            return self._prove(eq(q, 0), hyps, splits)
        return None

    def _sum_sign(self, p, strict, hyps, splits):
        """p <= 0 (p < 0) for a combination of sums over one range, summand by summand"""
        bounds = None
        for m, c in T._pd(p).items():
            if not m:
                if c > 0:
                    return False
                continue
            if len(m) != 1 or m[0][1] != 1:
                return False
            a = m[0][0]
            if a.op != "app" or a.data != "SUM" or (bounds is not None and bounds != a.args[:2]):
                return False
            bounds = a.args[:2]
        if bounds is None:
            return False
        lo, hi = bounds
        v = temp("sm", "I")
        body = ZERO
        const = False
        for m, c in T._pd(p).items():
            if m:
                body = add(body, mul(num(c), inst(m[0][0].args[2], v)))
            else:
                const = c < 0
        if strict and not const and not self._prove(lt(lo, hi), hyps, splits):
            return False
        g = lt(body, 0) if strict and not const else le(body, 0)
        return self._prove(g, list(hyps) + [le(lo, v), lt(v, hi)], splits)

    def _cursor(self, p, hyps):
        """replace integer recurrence terms by a candidate value they provably have"""
        if not self.cands:
            return None
        recs = [a for a in atoms_of(p, lambda x: x.op == "app" and x.sort == "I" and x.data.startswith("REC#")) if not bvs_free(a)]
        for a in recs:
            for c in self.cands:
                if a in fv_apps(c):
                    continue
                if self._smt(eq(a, c), hyps, quick=True):
                    return subst(p, {a: c}), eq(a, c)
        return None

    def _telescope(self, p, hyps):
        """write the longer of two sums of the same summand whose ranges differ by a constant in terms of the shorter"""
        groups = {}
        for a in atoms_of(p, lambda x: x.op == "app" and x.data == "SUM"):
            if not bvs_free(a):
                groups.setdefault((a.args[0], a.args[2]), []).append(a)
        for (lo, l), g in groups.items():
            for a in g:
                for b in g:
                    d = sub(a.args[1], b.args[1])
                    if d.op == "num" and 0 < d.data <= 3 and d.data.denominator == 1 and self._smt(le(lo, b.args[1]), hyps, quick=True):
                        return subst(p, {a: add(b, *[inst(l, add(b.args[1], i)) for i in range(int(d.data))])})
        return p

    def _lit(self, c, val):
        m = {c: TRUE if val else FALSE}
        n = not_(c)
        if n.op not in ("and", "or", "true", "false"):
            m[n] = FALSE if val else TRUE
        return m

    def _pick_ite(self, t):
        best = None
        stack = [t]
        seen = set()
        while stack:
            x = stack.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == "ite":
                c = x.args[0]
                if c.op in ("and", "or"):
                    # split on an atomic condition first
                    c2 = self._atomic(c)
                    c = c2 if c2 is not None else c
                # prefer conditions without nested ite
                if not atoms_of(c, lambda y: y.op == "ite"):
                    return c
                inner = atoms_of(c, lambda y: y.op == "ite")[-1].args[0]
                best = best or inner
            if x.op == "lam":
                # conditions inside lambdas which do not depend on a bound variable
                c = self._closed_ite(x.args[0], seen)
                if c is not None:
                    return c
                continue
            stack.extend(children(x))
        return best

    def _closed_ite(self, t, seen):
        stack = [t]
        while stack:
            x = stack.pop()
            if (x, 1) in seen:
                continue
            seen.add((x, 1))
            if x.op == "ite" and not bvs(x.args[0]):
                c = x.args[0]
                return self._atomic(c) if c.op in ("and", "or") else c
            stack.extend(children(x))
        return None

    def _atomic(self, c):
        while c.op in ("and", "or", "not"):
            c = c.args[0]
        return c

    def _zero(self, p):
        """is the rational expression p identically zero (denominators assumed nonzero)"""
        for _ in range(8):
            if p is ZERO:
                return True
            if p.op != "poly":
                return False
            # poly atoms in denominators
            dens = {}
            for m, c in p.data:
                for a, e in m:
                    if e < 0 and a.op == "poly":
                        dens[a] = min(dens.get(a, 0), e)
            if not dens:
                return False
            a, e = next(iter(dens.items()))
            k = -e
            d = {}
            out = []
            for m, c in p.data:
                ea = 0
                rest = []
                for b, f in m:
                    if b is a:
                        ea = f
                    else:
                        rest.append((b, f))
                x = mk_poly({tuple(rest): c})
                out.append(mul(x, power(a, k + ea)))
            p = add(*out)
        return p is ZERO

    def _congruence(self, p, hyps):
        """merge uninterpreted terms of p that are provably equal"""
        apps = []
        seen = set()
        stack = [p]
        while stack:
            x = stack.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == "app" and x.args and x.data not in ("max0",):
                apps.append(x)
                # do not descend: arguments are compared on demand
                continue
            if x.op == "lam":
                continue
            stack.extend(children(x))
        groups = {}
        for a in apps:
            groups.setdefault((a.data, len(a.args), a.sort), []).append(a)
        m = {}
        for k, g in groups.items():
            g.sort(key=lambda t: t.id)
            reps = []
            for a in g:
                for r in reps:
                    if self._eq_app(a, r, hyps):
                        m[a] = r
                        break
                else:
                    reps.append(a)
        if not m:
            return p
        return subst(p, m)

    def _eq_app(self, a, b, hyps):
        if a is b:
            return True
        key = (a, b, frozenset(hyps))
        r = self.eqcache.get(key)
        if r is not None:
            return r
        if self.depth > 6:
            return False
        self.depth += 1
        try:
            r = self._eq_app1(a, b, hyps)
        finally:
            self.depth -= 1
        self.eqcache[key] = r
        return r

    def _eq_app1(self, a, b, hyps):
        if a.data != b.data or len(a.args) != len(b.args):
            return False
        if a.data in ("SUM", "PROD", "FORALL", "EXISTS", "MAXR", "MINR"):
            if not (self._eqt(a.args[0], b.args[0], hyps) and self._eqt(a.args[1], b.args[1], hyps)):
                return False
            if a.args[2] is b.args[2]:
                return True
            v = temp("c", "I")
            return self._eqt(inst(a.args[2], v), inst(b.args[2], v), list(hyps) + [le(a.args[0], v), lt(v, a.args[1])])
        if a.data in ("NSEL", "FSEL", "FINV", "MAXV", "MINV", "ARGMAX", "ARGMIN", "FIRST", "SORTED", "PERM", "NGRP", "GSTART"):
            if not self._eqt(a.args[0], b.args[0], hyps) or not all(self._eqt(x, y, hyps) for x, y in zip(a.args[2:], b.args[2:])):
                return False
            v = temp("c", "I")
            return a.args[1] is b.args[1] or self._eqt(inst(a.args[1], v), inst(b.args[1], v), list(hyps) + [le(0, v), lt(v, a.args[0])])
        # cheap arguments first
        idx = sorted(range(len(a.args)), key=lambda i: (a.args[i].sort in ("V", "L"), i))
        for i in idx:
            if not self._eqt(a.args[i], b.args[i], hyps):
                return False
        return True

    def _eqt(self, x, y, hyps):
        if x is y:
            return True
        self._check_time()
        if x.sort == "V":
            if x.data != "vec" or y.data != "vec":
                return x.data == y.data and self._eq_app1(x, y, hyps)
            if not self._eqt(x.args[0], y.args[0], hyps):
                return False
            if x.args[1] is y.args[1]:
                return True
            v = temp("c", "I")
            return self._eqt(inst(x.args[1], v), inst(y.args[1], v), list(hyps) + [le(0, v), lt(v, x.args[0])])
        if x.sort == "L":
            v = temp("c", x.data)
            return self._eqt(inst(x, v), inst(y, v), hyps)
        if x.sort == "B" or y.sort == "B":
            return self._prove(and_(implies(x, y), implies(y, x)), hyps)
        return self._prove(eq(x, y), hyps)

    # ------------------------------------------------------------------ smt
    def _smt(self, goal, hyps, quick=False):
        key = ("smt", goal, frozenset(hyps))
        r = self.cache.get(key)
        if r is True or (r is False) or (r == "q" and quick):
            return r is True
        ok = self._smt1(goal, hyps, quick)
        self.cache[key] = True if ok else ("q" if quick else False)
        return ok

    @staticmethod
    def _linear(goal):
        return goal.op in ("le0", "lt0", "eq0") and all(not m or (len(m) == 1 and m[0][1] == 1) for m in T._pd(goal.args[0]))

    def _smt1(self, goal, hyps, quick):
        self._check_time()
        base = list(hyps) + [not_(goal)]
        base = self._norm_hyps(base)
        if FALSE in base:
            return True
        insts = self.instantiate(base, rounds=2 if quick else 3)
        res = None
        for mode, to in (("lin", 1500 * self.scale if quick else self.timeout), ("nra", 800 * self.scale if quick else self.timeout)):
            if mode == "nra" and res == z3.sat and not self._has_nl(base, insts):
                return False
            s = z3.Solver()
            s.set("timeout", to)
            s.set("random_seed", 1)
            for h in base:
                s.add(to_z3(h, mode))
            for h in insts:
                s.add(to_z3(h, mode))
            t0 = time.time()
            res = s.check()
            STATS.z3 += 1
            if self.debug:
                print("   z3[%s] %s %.2fs  (%d hyps, %d instances)  goal=%s" % (mode, res, time.time() - t0, len(base), len(insts), show(goal)[:300]))
            if res == z3.unsat:
                STATS.by["z3-lin" if mode == "lin" else "z3-nra"] += 1
                return True
            if res == z3.sat and mode == "nra":
                self.last_model = s.model()
                return False
            if res == z3.sat and mode == "lin" and quick and not self._has_nl(base, insts):
                return False
        if not quick:
            return self._cvc5(base, insts)
        return False

    def _has_nl(self, base, insts):
        seen = set()
        stack = list(base) + list(insts)
        while stack:
            x = stack.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == "poly":
                for m, c in x.data:
                    if len(m) > 1 or (m and m[0][1] != 1):
                        return True
            if x.op != "lam":
                stack.extend(children(x))
        return False

    def _cvc5(self, base, insts):
        try:
            import cvc5
        except Exception:
            return False
        s = z3.Solver()
        for h in base + insts:
            s.add(to_z3(h, "nra"))
        txt = s.to_smt2()
        STATS.cvc5 += 1
        try:
            tm = cvc5.TermManager() if hasattr(cvc5, "TermManager") else None
            slv = cvc5.Solver(tm) if tm else cvc5.Solver()
            slv.setOption("tlimit-per", str(self.timeout))
            slv.setLogic("ALL")
            p = cvc5.InputParser(slv)
            p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, "q")
            sm = p.getSymbolManager()
            res = None
            while True:
                cmd = p.nextCommand()
                if cmd.isNull():
                    break
                out = cmd.invoke(slv, sm)
                if "unsat" in str(out):
                    res = "unsat"
                    break
            if res == "unsat":
                STATS.by["cvc5"] += 1
                return True
        except Exception as e:
            if self.debug:
                print("cvc5:", e)
        return False

    # -------------------------------------------------------- instantiation
    def instantiate(self, base, rounds=3, cap=600):
        insts = []
        have = set(base)
        acc = {"seen": set(), "apps": [], "vars": []}
        done = set()
        frontier = list(base)
        for rnd in range(rounds):
            n0 = len(acc["apps"])
            for t in frontier:
                collect_apps(t, acc)
            frontier = []
            new = []
            for a in list(acc["apps"]):
                if bvs_free(a):
                    continue
                for fn in list(self.th.unary.get(a.data, ())) + BASE.unary.get(a.data, []):
                    k = (id(fn), a)
                    if k in done:
                        continue
                    done.add(k)
                    new.extend(fn(a.args, a, rnd) if fn.__code__.co_argcount >= 3 else fn(a.args, a))
                if a.data in ("FORALL",):
                    new.extend(self._inst_forall(a, acc, done))
                elif a.data == "EXISTS":
                    k = ("ex", a)
                    if k not in done:
                        done.add(k)
                        s = skolem_of(a)
                        lo, hi, l = a.args
                        new.append(implies(a, and_(le(lo, s), lt(s, hi), inst(l, s))))
            for head, fn in self.th.pair + BASE.pair:
                g = [a for a in acc["apps"] if a.data == head]
                if len(g) > 14:
                    g = g[:14]
                for i in range(len(g)):
                    for j in range(len(g)):
                        if i == j:
                            continue
                        k = (id(fn), g[i], g[j])
                        if k in done:
                            continue
                        done.add(k)
                        new.extend(fn(g[i], g[j]))
            flat = self._norm_hyps(new)
            for h in flat:
                if h not in have:
                    have.add(h)
                    insts.append(h)
                    frontier.append(h)
            if not frontier or len(insts) > cap:
                break
        return insts

    def _inst_forall(self, a, acc, done):
        lo, hi, l = a.args
        body = l.args[0]
        b = bvar(body.height, "I")
        cands = []
        # patterns: apps in the body with an argument linear in the bound variable
        pats = atoms_of(body, lambda x: x.op == "app" and b in bvs(x))
        for pt in pats:
            for k, arg in enumerate(pt.args):
                if b in bvs(arg) and arg.sort == "I":
                    off = sub(arg, b)
                    if b in bvs(off):
                        continue
                    for g in acc["apps"]:
                        if g.data == pt.data and len(g.args) == len(pt.args) and not bvs_free(g):
                            if bvs(off):
                                continue
                            cands.append(sub(g.args[k], off))
        for v in acc["vars"]:
            if v.sort == "I" and ("!" in v.data):
                cands.append(v)
        cands += [lo, sub(hi, 1)]
        out = []
        n = 0
        for c in cands:
            if c.sort != "I":
                continue
            k = ("fa", a, c)
            if k in done:
                continue
            done.add(k)
            n += 1
            if n > 40:
                break
            f = INSTANCES.get((a, c))
            if f is None:
                f = INSTANCES[a, c] = implies(and_(a, le(lo, c), lt(c, hi)), inst(l, c))
            out.append(f)
        return out


INSTANCES = {}


def fv_apps(t):
    return set(atoms_of(t, lambda x: x.op == 'app'))


def bvs_free(t):
    """does t contain a bvar that is not bound inside t?"""
    h = t.height
    for b in bvs(t):
        if b.data >= h:
            return True
        # a bvar of smaller height may still be free in odd places; treat as bound
    return False
