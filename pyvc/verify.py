"""Verification session: generates and discharges the obligations of one unit
(= one function of /repo under one contract scenario)."""
import time
import traceback
from .terms import *
from . import terms as T
from .values import *
from . import values as V_
from . import solve
from .interp import Interp, Path
from . import lib, loops

REPO = "/repo/mpopt/mpopt.py"


class Obl:
    __slots__ = ("unit", "func", "kind", "goal", "hyps", "ok", "detail", "line", "time", "model")

    def d(self):
        return {"unit": self.unit, "function": self.func, "kind": self.kind, "line": self.line,
                "discharged": bool(self.ok), "goal": self.goal, "detail": self.detail}


class Session:
    """one property check"""

    def __init__(self, src=None):
        self.src = src if src is not None else open(REPO).read()
        self.obls = []
        self.units = []
        self.functions = {}      # qualname -> "contract"
        self.assumed = set()
        self.inlined = set()
        self.errors = []
        self.retries = 3         # further attempts at failing obligations
        self.deadline = None
        self.verbose = False
        self.count = 0
        self.part = None
        self.only = None
        self.frame = None        # frame conditions only: fn(unit) -> hook of Interp.frame

    def unit(self, name, func, build, theory=None, contracts=None, budget=40.0, hints=(), hooks=None, attrs=None, bounded=None):
        self.count += 1
        if self.part is not None and (self.count - 1) % self.part[1] != self.part[0]:
            return None
        if self.only and not any(x in name for x in self.only):
            return None
        u = (FrameUnit if self.frame else Unit)(self, name, func)
        u.budget = budget
        u.bounded = bounded
        self.units.append(u)
        t0 = time.time()
        try:
            u.start(theory, contracts, hints, hooks or {})
            build(u)
            if not u.n and not (self.frame and not u.ran):
                u.fail("vacuous", "no obligation was generated")
        except Unsupported as e:
            u.fail("out of reach", "%s (line %s)" % (e, u.I.stmt_line if u.I else "?"))
        except PyRaise as e:
            u.fail("exception", "%s (line %s)" % (e.kind, u.I.stmt_line if u.I else "?"))
        except RecursionError:
            u.fail("out of reach", "recursion limit")
        except Exception as e:
            tb = traceback.format_exc().strip().splitlines()
            u.fail("out of reach", "internal: %s: %s | %s" % (type(e).__name__, str(e)[:300], " / ".join(tb[-7:-1])[-700:]))
            if self.verbose:
                traceback.print_exc()
        u.wall = time.time() - t0
        if u.I:
            self.assumed |= u.I.assumed
            self.inlined |= u.I.inlined
        self.functions[func] = self.functions.get(func, 0) + 1
        return u

    def ok(self):
        return all(o.ok for o in self.obls) and bool(self.obls)


class Unit:
    def __init__(self, ses, name, func):
        self.ses, self.name, self.func = ses, name, func
        self.n = 0
        self.I = None
        self.wall = 0
        self.seen = set()

    def start(self, theory, contracts, hints, hooks):
        CTX.hyps = []
        CTX.trail = []
        CTX.generators = []
        CTX.decide_cache = {}
        CTX.obl_cache = {}
        CTX.lazy = 0
        CTX.suppress = 0
        CTX.depth = 0
        CTX.loopvars = set()
        th = (theory.copy() if theory else solve.Theory())
        CTX.prover = solve.Prover(th, timeout=4000)
        CTX.on_oblige = self.oblige
        self.th = th
        self.I = Interp(self.ses.src)
        self.I.contracts = dict(contracts or {})
        self.I.contracts.pop(self.func, None)
        self.I.loop_hints = list(hints)
        self.I.hooks = dict(hooks)
        self.I.verifying = self.func
        self.prover = CTX.prover

    # ------------------------------------------------------------ obligations
    def oblige(self, kind, goal):
        key = (kind, goal, tuple(CTX.hyps))
        if key in self.seen:
            return True
        self.seen.add(key)
        t0 = time.time()
        ok = self.prover.prove(goal, CTX.hyps, self.budget) or self.retry(goal)
        self.record(kind, goal, ok, time.time() - t0)
        return ok

    def retry(self, goal):
        """a second attempt from scratch with longer limits (a busy machine must not fail a proof)"""
        if self.ses.retries <= 0 or isinstance(goal, bool):
            return False
        self.ses.retries -= 1
        p = solve.Prover(self.prover.th, timeout=10000)
        p.scale = 4
        p.cands = self.prover.cands
        return p.prove(goal, CTX.hyps, 1.5 * self.budget)

    def record(self, kind, goal, ok, dt=0.0, detail=None):
        o = Obl()
        o.unit, o.func, o.kind = self.name, self.func, kind
        o.goal = (show(goal) if isinstance(goal, Term) else str(goal))[:1500]
        o.hyps = None
        o.ok = ok
        o.line = self.I.stmt_line if self.I else 0
        o.time = dt
        o.detail = detail
        if not ok and detail is None:
            lf = self.prover.last_failed
            if lf:
                o.detail = "stuck at: %s   under: %s" % (show(lf[0])[:600], "; ".join(show(h) for h in lf[1])[:900])
        self.n += 1
        self.ses.obls.append(o)
        if self.ses.verbose and (not ok or self.ses.verbose > 1):
            print("  [%s] %-4s %s  %s  (%.2fs)%s" % (self.name, "ok" if ok else "FAIL", kind, o.goal[:300], dt, "" if ok else "\n        " + str(o.detail)[:1500]))

    def fail(self, kind, detail):
        self.record(kind, kind, False, detail=detail)

    # ------------------------------------------------------------ conveniences
    def hyp(self, *hs):
        for h in hs:
            if h is not TRUE:
                CTX.hyps.append(h)

    def fact(self, kind, goal):
        """obligation usable by the following ones"""
        if self.oblige(kind, goal):
            CTX.hyps.append(goal)

    def satisfiable(self):
        """vacuity guard: the precondition must not be contradictory"""
        ok = not self.prover.prove(FALSE, CTX.hyps, 10)
        self.record("precondition satisfiable (not refutable)", TRUE, ok, detail=None if ok else "contradictory precondition")

    def run(self, run, post=None, raises=None, replay=False):
        """explore all paths of run(); check post(result) inside each path"""
        def go():
            r = run()
            if post is not None:
                post(r)
            return r
        paths = self.I.explore(go, replay=replay)
        n = 0
        for p in paths:
            if p.out[0] == "raise":
                with CTX.under(*p.guards):
                    if raises is not None and raises(p.out[1]):
                        continue
                    ok = self.prover.prove(FALSE, CTX.hyps, self.budget)
                    self.record("no exception: %s" % p.out[1].kind, FALSE, ok, detail=None if ok else
                                "raises %s (line %s) under %s" % (p.out[1].kind, self.I.stmt_line, "; ".join(show(g) for g in p.guards)[:600]))
            else:
                n += 1
        return paths

    def sparse(self, t, pts):
        """sums in t whose summand vanishes outside the (pairwise distinct) points pts"""
        if not isinstance(t, Term):
            return t
        for a in atoms_of(t, lambda x: x.op == "app" and x.data == "SUM"):
            lo, hi, l = a.args
            v = fresh("k", "I")
            with CTX.under(le(lo, v), lt(v, hi), *[ne(v, p) for p in pts]):
                ok = self.prover.prove(eq(inst(l, v), 0), CTX.hyps, self.budget)
            if ok:
                self.record("sum restricted to its support", eq(inst(l, v), 0), True)
                t = subst(t, {a: add(*[ite(and_(le(lo, p), lt(p, hi)), inst(l, p), ZERO) for p in pts])})
        return t

    def positive_sums(self, *ts):
        """a non-empty sum of positive terms is positive (induction); assumed for the sums in ts whose terms are proved positive"""
        seen = set()
        for t in ts:
            for a in atoms_of(t, lambda x: x.op == "app" and x.data == "SUM"):
                if a in seen:
                    continue
                seen.add(a)
                lo, hi, l = a.args
                v = fresh("k", "I")
                with CTX.under(le(lo, v), lt(v, hi)):
                    ok = self.prover.prove(gt(inst(l, v), 0), CTX.hyps, self.budget)
                if ok:
                    self.record("terms of the sum are positive", gt(inst(l, v), 0), True)
                    CTX.hyps.append(implies(lt(lo, hi), gt(a, 0)))

    def call(self, obj, meth, *args, **kw):
        f = self.I.getattr(obj, meth)
        a = list(args)
        if isinstance(f, Bound):
            a, f = [f.self_] + a, f.fn
        return self.I.run_func(f, a, kw)

    # ---------------------------------------------------------------- compare
    def eq(self, name, got, want):
        """got and want are equal values (structurally, elementwise)"""
        got = self.I.force(got) if isinstance(got, Union) and not any(isinstance(x, Term) for c, x in got.alts) else got
        if isinstance(want, (bool, str)) or want is None:
            if isinstance(want, bool) and isinstance(got, Term):
                self.oblige(name, got if want else not_(got))
                return
            ok = same(got, want) or (got is want)
            self.record(name, "%r == %r" % (got, want), ok, detail="value differs")
            return
        if is_scalar(want) or is_bool(want):
            try:
                g = term(got)
            except Unsupported:
                self.record(name, "%r is a scalar" % (got,), False, detail="not a scalar: %r" % (got,))
                return
            w = term(want)
            if w.sort == "B":
                self.oblige(name, and_(implies(g, w), implies(w, g)))
            else:
                self.oblige(name, eq(g, w))
            return
        if isinstance(want, tuple):
            if isinstance(got, PList) and got.concrete():
                got = tuple(got.items())
            if not isinstance(got, tuple) or len(got) != len(want):
                self.record(name, "tuple of length %d" % len(want), False, detail="got %r" % (got,))
                return
            for i, (a, b) in enumerate(zip(got, want)):
                self.eq("%s[%d]" % (name, i), a, b)
            return
        if isinstance(want, PList):
            if isinstance(got, tuple):
                got = PList(list(got))
            if isinstance(got, Tensor) and got.rank >= 1:
                t = got
                got = PList(n=t.dims[0].size(), fn=lambda k: lib.getitem(self.I, t, k))
            if not isinstance(got, PList):
                self.record(name, "list", False, detail="got %r" % (got,))
                return
            n = want.length()
            self.oblige(name + ": length", eq(got.length(), n))
            if isnum(n) and n.data <= 8:
                for i in range(int(n.data)):
                    self.eq("%s[%d]" % (name, i), got.item(num(i)), want.item(num(i)))
                return
            v = fresh("e", "I")
            with CTX.under(le(0, v), lt(v, n)):
                self.eq(name + "[e]", got.item(v), want.item(v))
            return
        if isinstance(want, Tensor):
            if got is None or not isinstance(got, Tensor):
                if isinstance(got, Term) and all(is_num(d.size(), 1) for d in want.dims):
                    self.eq(name, got, want.get(*[ZERO for d in want.dims]))
                    return
                if isinstance(got, PList) and want.kind == "np":
                    got = lib.nparray(self.I, got)
                else:
                    self.record(name, "matrix", False, detail="got %r" % (got,))
                    return
            if got.rank != want.rank:
                self.record(name, "rank %d" % want.rank, False, detail="got rank %d" % got.rank)
                return
            ok = True
            for p, (a, b) in enumerate(zip(got.dims, want.dims)):
                ok = self.oblige("%s: size along axis %d" % (name, p), eq(a.size(), b.size())) and ok
            if not ok:
                return
            idx = self.generic(want.dims)
            for s, hy in idx:
                with CTX.under(*hy):
                    if CTX.prover.quick(FALSE, CTX.hyps, 3):
                        continue
                    gs = []
                    for p, (a, b) in enumerate(zip(got.dims, want.dims)):
                        gs.append(s[p] if same_dim(a, b) else lib.remap(a, b)(s[p]))
                    x = got.at(*gs)
                    y = want.at(*s)
                    self.eq("%s: entry" % name, x, y)
            return
        if isinstance(want, PolyV):
            if not isinstance(got, PolyV):
                if is_scalar(got) or isinstance(got, Tensor):
                    g = term(got)
                    t = fresh("tq", "R")
                    self.oblige(name + " (as a function)", eq(subst(g, {lib.TV: t}), want.fn(t)))
                    return
                self.record(name, "polynomial", False, detail="got %r" % (got,))
                return
            t = fresh("tq", "R")
            self.oblige(name + " (as a function)", eq(got.fn(t), want.fn(t)))
            return
        if isinstance(want, PDict):
            if not isinstance(got, PDict) or not isinstance(got.v, dict) or set(got.v) != set(want.v):
                self.record(name, "dict with keys %s" % sorted(map(str, want.v)), False, detail="got %r" % (got,))
                return
            for k in want.v:
                self.eq("%s[%s]" % (name, k), got.v[k], want.v[k])
            return
        if got is want:
            self.record(name, "same object", True)
            return
        raise Unsupported("comparison of %r with %r" % (got, want))

    def generic(self, dims):
        return lib.each_index(dims)


class FrameUnit(Unit):
    """the unit executed for its frame condition alone: its other obligations belong to another property"""

    def start(self, *a):
        self.ran = set()
        Unit.start(self, *a)
        self.I.frame = self.ses.frame(self)
        CTX.on_oblige = lambda kind, goal: True

    def oblige(self, kind, goal):
        return True

    def eq(self, name, got, want):
        pass

    def satisfiable(self):
        pass

    def record(self, kind, goal, ok, dt=0.0, detail=None):
        if str(kind).startswith(("frame", "out of reach", "vacuous")):
            if ok and (kind, self.name) in self.seen:
                return
            self.seen.add((kind, self.name))
            Unit.record(self, kind, goal, ok, dt, detail)

    def run(self, run, post=None, raises=None, replay=False):
        return self.I.explore(run, replay=replay)
