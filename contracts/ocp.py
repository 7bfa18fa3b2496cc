"""Contracts of class OCP (property C19): construction, validation, accessors."""
from pyvc.verify import *
from pyvc.solve import Theory
from pyvc import lib
from pyvc import terms as T
from .nlp import NX, NU, NA, NP

FUNCS = ("dynamics", "path_constraints", "terminal_constraints", "running_costs", "terminal_costs")
TERMINAL = ("terminal_constraints", "terminal_costs")
BYX = ("x00", "xf0", "lbx", "ubx")
BYU = ("u00", "uf0", "lbu", "ubu")
BYA = ("a0", "lba", "uba")
BYT = ("t00", "tf0", "lbt0", "ubt0", "lbtf", "ubtf")
PAIRS = (("lbx", "ubx"), ("lbu", "ubu"), ("lba", "uba"), ("lbt0", "ubt0"), ("lbtf", "ubtf"))
COUNTS = (("dynamics", "running_costs", "terminal_costs", "path_constraints", "terminal_constraints"))


def theory():
    return Theory()


def construct(u, na, nph):
    u.hyp(ge(NX, 1), ge(NU, 1), lt(0, INF))
    if na is NA:
        u.hyp(ge(NA, 1))
    if nph is NP:
        u.hyp(ge(NP, 2))
    u.satisfiable()
    return lambda: u.I.call(ClassVal("OCP"), [NX, NU, nph, na], {})


def zero(*i):
    return ZERO


def new_ocp(S):
    for na, nan in ((ZERO, "no parameters"), (NA, "parameters")):
        for nph, npn in ((ONE, "one phase"), (NP, "several phases")):
            def build(u, na=na, nph=nph):
                make = construct(u, na, nph)
                I = u.I

                def post(o):
                    g = lambda nm: I.getattr(o, nm)
                    for nm, w in (("nx", NX), ("nu", NU), ("na", num(na)), ("n_phases", num(nph))):
                        u.eq(nm, g(nm), w)
                    u.eq("phase_links", g("phase_links"), PList(n=sub(nph, 1), fn=lambda k: (k, add(k, 1))))
                    for nm, n in (("scale_x", NX), ("scale_u", NU), ("scale_a", na)):
                        u.eq(nm, g(nm), leafvec("np", n, lambda i: ONE))
                    u.eq("scale_t", g("scale_t"), ONE)
                    for names, n in ((BYX, NX), (BYU, NU), (BYA, na), (BYT, ONE)):
                        for nm in names:
                            if nm in ("lbx", "lbu", "lba"):
                                val = lambda q, i: neg(INF)
                            elif nm in ("ubx", "ubu", "uba", "ubtf"):
                                val = lambda q, i: INF
                            elif nm == "ubt0":
                                val = lambda q, i: ite(eq(q, 0), ZERO, INF)
                            elif nm == "tf0":
                                val = lambda q, i: ONE
                            else:
                                val = zero
                            if is_num(num(n), 0):
                                sh = I.getattr(g(nm), "shape")
                                u.eq(nm + " shape", sh, (num(nph), num(0)))
                                continue
                            u.eq(nm, g(nm), matrix("np", nph, n, val))
                    if nph is NP:
                        for nm in ("lbe", "ube"):
                            u.eq(nm, g(nm), matrix("np", sub(nph, 1), NX, zero))
                    else:
                        for nm in ("lbe", "ube"):
                            u.eq(nm + ": no rows", lib.length(I, g(nm)), ZERO)
                    for nm, v in (("diff_u", 0), ("midu", 1), ("du_continuity", 0), ("lbdu", -15), ("ubdu", 15)):
                        u.eq(nm, g(nm), leafvec("np", nph, lambda q, v=v: num(v)))
                    # functions: one per phase, neutral
                    q = fresh("q", "I")
                    x, uu, t, a = [leafvec("np", n, lambda i, h=h: app(h, (i,), "R")) for n, h in ((NX, "xx"), (NU, "uu"), (ONE, "tt"), (num(na), "aa"))]
                    for nm in FUNCS:
                        u.eq(nm + ": one per phase", lib.length(I, g(nm)), num(nph))
                        args = [x, t, x, t] if nm in TERMINAL else [x, uu, t]
                        with CTX.under(le(0, q), lt(q, nph)):
                            f = lib.getitem(I, g(nm), q)
                            r = I.call(f, args + ([] if is_num(num(na), 0) else [a]), {})
                        if nm == "dynamics":
                            u.eq("default dynamics", r, PList(n=NX, fn=zero))
                        elif nm.endswith("costs"):
                            u.eq("default " + nm, r, ZERO)
                        else:
                            u.record("default " + nm, "no constraints", r is None, detail="got %r" % (r,))
                    arr = BYX + BYU + BYA + BYT + ("lbe", "ube", "scale_x", "scale_u", "scale_a", "lbdu", "ubdu", "diff_u", "midu", "du_continuity") + FUNCS + ("phase_links",)
                    twins = [(a, b) for k, a in enumerate(arr) for b in arr[:k] if g(a) is g(b)]
                    u.record("attributes do not share storage", TRUE, not twins, detail="shared: %s" % twins)
                    u.call(o, "validate")
                    # fractional limits are kept
                    q, i = fresh("q", "I"), fresh("i", "I")
                    v = fresh("limit", "R")
                    for nm, n in [(nm, NX) for nm in ("lbx", "ubx")] + [(nm, NU) for nm in ("lbu", "ubu")] + [(nm, na) for nm in ("lba", "uba")] + \
                            [(nm, ONE) for nm in ("lbt0", "ubt0", "lbtf", "ubtf")] + [("lbe", NX), ("ube", NX), ("lbdu", None), ("ubdu", None)]:
                        if nm in ("lbe", "ube") and nph is not NP or n is not None and is_num(num(n), 0):
                            continue
                        rows = sub(nph, 1) if nm in ("lbe", "ube") else nph
                        old = g(nm)
                        with CTX.under(le(0, q), lt(q, rows), le(0, i), lt(i, n if n is not None else 1)):
                            t = g(nm)
                            if n is None:
                                lib.setitem(I, t, q, v)
                                u.eq(nm + ": fractional limit is kept", lib.getitem(I, t, q), v)
                            else:
                                lib.setitem(I, t, (q, i), v)
                                u.eq(nm + ": fractional limit is kept", lib.getitem(I, t, (q, i)), v)
                u.run(make, post)
            S.unit("OCP.__init__ [%s, %s]" % (nan, npn), "OCP.__init__", build, theory())


# ---------------------------------------------------------------- validation
class Any:
    """an arbitrary problem: every size, shape and value is a symbol.
    Functions return a list of any length, or nothing."""

    def __init__(self, u, na, rank1=None):
        self.u, self.I = u, u.I
        o = self.o = Inst("OCP")
        d = o.d
        n = self.n = {}
        self.na = num(na)
        d["nx"], d["nu"], d["na"], d["n_phases"] = NX, NU, self.na, NP
        u.hyp(ge(NX, 1), ge(NU, 1))
        if na is NA:
            u.hyp(ge(NA, 1))
        for nm in FUNCS:
            c = n[nm] = var("len." + nm, "I")
            u.hyp(ge(c, 0))
            d[nm] = PList(n=c, fn=self.function(nm))
        for nm in ("scale_x", "scale_u", "scale_a"):
            c = n[nm] = var("len." + nm, "I")
            u.hyp(ge(c, 0))
            d[nm] = leafvec("np", c, lambda i, nm=nm: app(nm, (i,), "R"))
        d["scale_t"] = var("scale_t", "R")
        for nm in BYX + BYU + BYA + BYT + ("lbe", "ube"):
            if nm == rank1:
                c = n[nm] = var("len." + nm, "I")
                u.hyp(ge(c, 0))
                d[nm] = leafvec("np", c, lambda i, nm=nm: app(nm, (i, ZERO), "R"))
                continue
            r, c = n[nm] = var("rows." + nm, "I"), var("cols." + nm, "I")
            u.hyp(ge(r, 0), ge(c, 0))
            d[nm] = matrix("np", r, c, lambda q, i, nm=nm: app(nm, (q, i), "R"))
        d["phase_links"] = PList(n=sub(NP, 1), fn=lambda k: (k, add(k, 1)))
        for nm in ("diff_u", "midu", "du_continuity"):
            d[nm] = leafvec("np", NP, lambda q, nm=nm: app(nm, (q,), "I"))
        for nm in ("lbdu", "ubdu"):
            d[nm] = leafvec("np", NP, lambda q, nm=nm: app(nm, (q,), "R"))

    def function(self, nm):
        def at(q):
            def f(I, args, kw):
                want = (4 if nm in TERMINAL else 3) + (0 if is_num(self.na, 0) else 1)
                if len(args) != want or kw:
                    raise PyRaise("TypeError: wrong number of arguments for %s" % nm)
                if nm == "dynamics":
                    return PList(n=self.count(nm, q), fn=lambda i: app("val." + nm, (q, i), "R"))
                some = self.some(nm, q)
                if nm.endswith("costs"):
                    return Union([(some, app("val." + nm, (q,), "R")), (not_(some), None)])
                return Union([(some, PList(n=self.count(nm, q), fn=lambda i: app("val." + nm, (q, i), "R"))), (not_(some), None)])
            return PyFn(f, nm)
        self.u.th.on("count." + nm, lambda a, t: [ge(t, 0)])
        return at

    def count(self, nm, q):
        return app("count." + nm, (q,), "I")

    def some(self, nm, q):
        return app("some." + nm, (q,), "B")

    def shaped(self):
        """name -> well-formedness condition"""
        n, out = self.n, {"at least one phase": gt(NP, 0)}
        for nm in FUNCS:
            out[nm + ": one per phase"] = eq(n[nm], NP)
        for nm, w in (("scale_x", NX), ("scale_u", NU), ("scale_a", self.na)):
            out[nm + ": size"] = eq(n[nm], w)
        for names, w in ((BYX, NX), (BYU, NU), (BYA, self.na), (BYT, ONE)):
            for nm in names:
                if nm in n and isinstance(n[nm], tuple):
                    out[nm + ": rows"] = eq(n[nm][0], NP)
                    out[nm + ": columns"] = eq(n[nm][1], w)
        for nm in ("lbe", "ube"):
            out[nm + ": rows"] = eq(n[nm][0], sub(NP, 1))
            out[nm + ": columns"] = or_(le(NP, 1), eq(n[nm][1], NX))
        each = lambda f: T.FORALL(ZERO, NP, f)
        out["number of dynamics"] = each(lambda q: eq(self.count("dynamics", q), NX))
        for nm in ("running_costs", "terminal_costs"):
            out[nm + ": a value"] = each(lambda q: self.some(nm, q))
        for nm in ("path_constraints", "terminal_constraints"):
            out[nm + ": not empty"] = each(lambda q: or_(not_(self.some(nm, q)), gt(self.count(nm, q), 0)))
        for (lo, hi), w in zip(PAIRS + (("lbe", "ube"),), (NX, NU, self.na, ONE, ONE, NX)):
            rows = sub(NP, 1) if lo == "lbe" else NP
            out["%s below %s" % (lo, hi)] = T.FORALL(ZERO, rows, lambda q: T.FORALL(ZERO, w, lambda i: le(app(lo, (q, i), "R"), app(hi, (q, i), "R"))))
        return out


def validate(S):
    for na, nan in ((ZERO, "no parameters"), (NA, "parameters")):
        def accept(u, na=na):
            p = Any(u, na)
            u.hyp(*p.shaped().values())
            u.satisfiable()
            n0 = len(u.ses.obls)
            u.run(lambda: u.call(p.o, "validate"), lambda r: u.record("accepted", TRUE, True), replay=True)
        S.unit("validate accepts well-formed problems [%s]" % nan, "OCP.validate", accept, theory())

        def reject(u, na=na):
            p = Any(u, na)
            # indexing a row that does not exist raises IndexError
            for nm in ("x00", "u00", "t00", "a0"):
                u.hyp(ge(p.n[nm][0], NP))
            u.satisfiable()
            passed = []

            def post(r):
                passed.append(1)
                for nm, g in p.shaped().items():
                    u.oblige("accepted only if " + nm, g)
            u.run(lambda: u.call(p.o, "validate"), post, raises=lambda e: True, replay=True)
            u.record("some problem is accepted", TRUE, bool(passed), detail="validate always raises")
        S.unit("validate accepts only well-formed problems [%s]" % nan, "OCP.validate", reject, theory())


# ---------------------------------------------------------------- accessors
def accessors(S):
    """get_X(phase) is the user's function of that phase, called with the problem parameters only if there are any"""
    for na, nan in ((ZERO, "no parameters"), (NA, "parameters")):
        for nm in FUNCS:
            def build(u, na=na, nm=nm):
                p = Any(u, na)
                q = var("q", "I")
                u.hyp(ge(NP, 1), le(0, q), lt(q, NP), eq(p.n[nm], NP))
                p.o.d[nm] = PList(n=NP, fn=lambda k: PyFn(lambda I, args, kw: (k, tuple(args), tuple(kw)), nm))
                u.satisfiable()
                args = [Opaque("x"), Opaque("t"), Opaque("x0"), Opaque("t0"), Opaque("a")] if nm in TERMINAL else [Opaque("x"), Opaque("u"), Opaque("t"), Opaque("a")]

                def post(f):
                    k, got, kw = u.I.call(f, args, {})
                    u.eq("function of the phase", k, q)
                    want = tuple(args[:-1] if is_num(num(na), 0) else args)
                    u.record("arguments", TRUE, len(got) == len(want) and all(x is y for x, y in zip(got, want)) and not kw, detail="got %r" % (got,))
                u.run(lambda: u.call(p.o, "get_" + nm, q), post)
            S.unit("get_%s [%s]" % (nm, nan), "OCP.get_" + nm, build, theory())

        for nm in ("path_constraints", "terminal_constraints"):
            def build(u, na=na, nm=nm):
                p = Any(u, na)
                q = var("q", "I")
                u.hyp(le(0, q), lt(q, NP), *p.shaped().values())
                seen = []
                some = p.some(nm, q)
                ok = lambda v, name, w: (isinstance(v, Tensor) and v.rank == 1) and u.eq("argument %s" % name, v, leafvec("np", w, lambda i: app(name, (q, i), "R"))) is None
                names = (("xf0", NX), ("tf0", ONE), ("x00", NX), ("t00", ONE)) if nm in TERMINAL else (("x00", NX), ("u00", NU), ("t00", ONE))
                if not is_num(num(na), 0):
                    names += (("a0", NA),)

                def f(I, args, kw):
                    u.record("number of arguments", TRUE, len(args) == len(names) and not kw, detail="got %d" % len(args))
                    for (n, w), v in zip(names, args):
                        u.record("argument %s is a vector" % n, TRUE, ok(I.force(v), n, w))
                    return Union([(some, PList([Opaque("constraint")])), (not_(some), None)])
                p.o.d[nm] = PList(n=NP, fn=lambda k: PyFn(f, nm))
                u.satisfiable()
                u.run(lambda: u.call(p.o, "has_" + nm, q), lambda r: u.eq("present exactly if the function returns a list", term(r), some))
            S.unit("has_%s [%s]" % (nm, nan), "OCP.has_" + nm, build, theory())


def c19(S):
    accessors(S)
    new_ocp(S)
    validate(S)
