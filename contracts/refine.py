"""Contracts of the segment width refinement (C14) and of the h-adaptive solve (C15)."""
import os
from fractions import Fraction
from pyvc.verify import *
from pyvc import lib, loops
from pyvc.sel import nsel, fsel, finv, first, ngroups, gstart
from .colloc import P, pk, T0, T1, Con, NS
from .nlp import *
from .post import Sol, trajectory

H = ClassVal("mpopt_h_adaptive")
RV = lambda i: A("rv", num(i))
NR = var("nr", "I")


def area(j):
    """trapezoidal area under the residual curve up to point j"""
    return SUM(0, j, lambda i: mul(num(Fraction(1, 2)), add(RV(i), RV(add(i, 1)))))


def c14(S):
    equal_area(S)
    equal_area_lemma(S)
    at_times(S)
    steep_times(S)
    merge_split(S)
    refine_rule(S)
    phase_residuals(S)
    phase_slopes(S)
    combined(S)
    width_parameters(S)


def equal_area(S):
    def build(u):
        n = NS
        u.hyp(ge(n, 1), ge(NR, 2), gt(area(sub(NR, 1)), 0))
        u.th.on("rv", lambda a, t: [ge(t, 0)])
        u.satisfiable()

        def post(r):
            u.eq("widths", r, PList(n=n, fn=lambda i: sub(cut(add(i, 1)), cut(i))))
        u.run(lambda: u.call(H, "get_roots_wrt_equal_area", leafvec("np", NR, RV), n), post)
    S.unit("equal area", "mpopt_h_adaptive.get_roots_wrt_equal_area", build, Theory())


def rel(j):
    return div(area(j), area(sub(NR, 1)))


def level_index(i):
    """first point up to which at least the i-th of NS equal parts lies"""
    j = fresh("j", "I")
    return first(NR, lam(j, le(div(num(i), NS), rel(j))))


def cut(i):
    """relative position of the end of the i-th segment"""
    j = level_index(i)
    p = div(add(sub(j, 1), div(sub(div(num(i), NS), rel(sub(j, 1))), sub(rel(j), rel(sub(j, 1))))), sub(NR, 1))
    return ite(eq(num(i), 0), ZERO, ite(eq(num(i), NS), ONE, p))


def at_times(S):
    t0, tf = var("ts", "R"), var("te", "R")
    m = var("nt", "I")

    def build(u):
        u.hyp(ge(NS, 2), lt(t0, tf), ge(m, 1))
        u.th.on("tm", lambda a, t: [lt(t0, t), lt(t, tf)])
        u.satisfiable()

        def post(r):
            u.eq("widths", r, leafvec("np", NS, lambda i: div(sub(cuts_at(u.I, m, t0, tf, add(i, 1)), cuts_at(u.I, m, t0, tf, i)), sub(tf, t0))))
        u.run(lambda: u.call(H, "compute_segment_widths_at_times", leafvec("np", m, lambda i: A("tm", i)), NS, t0, tf), post)
    S.unit("widths at times", "mpopt_h_adaptive.compute_segment_widths_at_times", build, Theory())

    for few in (True, False):
        def lemma(u, few=few):
            u.hyp(ge(NS, 2), lt(t0, tf), ge(m, 1), lt(sub(NS, 2), m) if few else le(m, sub(NS, 2)))
            u.th.on("tm", lambda a, t: [lt(t0, t), lt(t, tf)])
            u.th.on_pair("tm", lambda a, b: [or_(eq(a.args[0], b.args[0]), ne(a, b))])
            i = fresh("i", "I")
            u.hyp(le(0, i), lt(i, NS))
            u.satisfiable()
            C = lambda i: cuts_at(u.I, m, t0, tf, i)
            if few:
                u.oblige("cuts increase", lt(C(i), C(add(i, 1))))
            else:
                a, b = sub(sorted_times(m, ZERO), t0), sub(tf, sorted_times(m, sub(m, 1)))
                u.oblige("first and last interval are not empty", and_(lt(0, a), lt(0, b)))
                r, x = div(a, add(a, b)), sub(NS, m)
                u.oblige("share of the first interval", and_(lt(0, r), lt(r, 1)))
                y = mul(r, x)
                u.oblige("spare segments of the first interval", and_(le(0, y), lt(y, x)))
                ns = add(1, app("floor", (y,), "I"))
                u.oblige("both intervals get a segment", and_(le(1, ns), le(ns, x)))
                nend = sub(add(x, 1), ns)
                n0, n1 = fresh("ns", "I"), fresh("ne", "I")
                with CTX.under(le(1, n0), le(1, n1)):
                    u.oblige("equal shares are positive", and_(lt(0, div(a, n0)), lt(0, div(b, n1))))
                last = sub(add(ns, m), 1)
                with CTX.under(lt(i, ns), lt(0, div(a, ns))):
                    u.oblige("cuts increase in the first interval", lt(C(i), C(add(i, 1))))
                with CTX.under(le(ns, i), lt(i, last)):
                    u.oblige("cuts increase between the times", lt(C(i), C(add(i, 1))))
                with CTX.under(le(last, i), lt(0, div(b, nend))):
                    u.oblige("cuts increase in the last interval", lt(C(i), C(add(i, 1))))
                k, w = fresh("k", "I"), fresh("w", "R")
                u.oblige("shares of the first interval add up", eq(add(t0, mul(ns, div(a, ns))), sorted_times(m, ZERO)))
                u.oblige("shares of the last interval add up", eq(add(sorted_times(m, sub(m, 1)), mul(sub(NS, last), div(b, nend))), tf))
            u.oblige("first cut is the start", eq(C(ZERO), t0))
            u.oblige("last cut is the end", eq(C(NS), tf))
            x, y = fresh("x", "R"), fresh("y", "R")
            with CTX.under(lt(x, y)):
                u.oblige("widths are positive", lt(0, div(sub(y, x), sub(tf, t0))))
            u.oblige("the whole phase has width one", eq(div(sub(tf, t0), sub(tf, t0)), 1))
        S.unit("cuts at times/%s (lemma)" % ("enough times" if few else "few times"), "lemma", lemma, Theory())


def equal_area_lemma(S):
    n = NS

    def setup(u):
        u.hyp(ge(n, 1), ge(NR, 2), gt(area(sub(NR, 1)), 0))
        u.fact("all of the area", eq(rel(sub(NR, 1)), ONE))
        u.fact("none of the area", eq(rel(ZERO), ZERO))
        i = fresh("i", "I")
        u.satisfiable()
        return i

    def facts(u, i):
        """position of the first point beyond the i-th part"""
        j = level_index(i)
        lv = div(i, n)
        u.oblige("level below the total", lt(lv, ONE))
        u.oblige("positive level", lt(0, lv))
        last = sub(NR, 1)
        u.oblige("some point reaches the level", and_(le(lv, rel(j)), le(j, last)))
        u.oblige("not the first point", le(1, j))
        u.oblige("the point before does not reach it", lt(rel(sub(j, 1)), lv))
        got = and_(le(lv, rel(j)), le(j, last), le(1, j), lt(rel(sub(j, 1)), lv), lt(lv, ONE), lt(0, lv))
        return j, got

    def step(u):
        i = setup(u)
        u.hyp(le(1, i), lt(i, n))
        j, got = facts(u, i)
        A0, A1 = fresh("a", "R"), fresh("a", "R")
        f = lambda x: div(sub(x, A0), sub(A1, A0))
        x = fresh("x", "R")
        with CTX.under(lt(A0, x), le(x, A1)):
            u.oblige("relative position inside the interval", and_(lt(0, f(x)), le(f(x), 1)))
            u.oblige("area at the cut is the level", eq(add(A0, mul(f(x), sub(A1, A0))), x))
            y = fresh("y", "R")
            with CTX.under(lt(x, y)):
                u.oblige("a larger level lies further", lt(f(x), f(y)))
                with CTX.under(eq(y, A1)):
                    u.oblige("a level below the end lies before it", lt(f(x), 1))
    S.unit("equal parts of the area (lemma)", "lemma", step, Theory())

    def order(u):
        i = setup(u)
        u.hyp(le(1, i), lt(add(i, 1), n))
        j, g1 = facts(u, i)
        k, g2 = facts(u, add(i, 1))
        u.oblige("levels increase", lt(div(i, n), div(add(i, 1), n)))
        u.oblige("indices do not decrease", le(j, k))
    S.unit("cuts are ordered (lemma)", "lemma", order, Theory())

    def widths(u):
        """from the lemmas above: cuts strictly increase from 0 to 1"""
        u.hyp(ge(n, 1), ge(NR, 2))
        j, k = fresh("j", "I"), fresh("k", "I")
        f, g = fresh("f", "R"), fresh("g", "R")
        u.hyp(le(1, j), le(j, k), le(k, sub(NR, 1)), lt(0, f), le(f, 1), lt(0, g), le(g, 1), implies(eq(j, k), lt(f, g)))
        pos = lambda j, f: div(add(sub(j, 1), f), sub(NR, 1))
        u.satisfiable()
        u.oblige("later cut", lt(pos(j, f), pos(k, g)))
        u.oblige("first width is positive", lt(0, pos(j, f)))
        with CTX.under(implies(eq(j, sub(NR, 1)), lt(f, 1))):
            u.oblige("last width is positive", lt(pos(j, f), 1))
    S.unit("widths are positive (lemma)", "lemma", widths, Theory())

    def total(u):
        u.hyp(ge(n, 1))
        C = lambda i: A("cut", num(i))
        s = lambda m: SUM(0, m, lambda i: sub(C(add(i, 1)), C(i)))
        m = fresh("m", "I")
        u.hyp(le(0, m))
        u.oblige("sum: base", eq(s(ZERO), sub(C(ZERO), C(ZERO))))
        u.hyp(eq(s(m), sub(C(m), C(ZERO))))
        u.oblige("sum: step", eq(s(add(m, 1)), sub(C(add(m, 1)), C(ZERO))))
        u.oblige("from zero to one", and_(eq(cut(ZERO), 0), eq(cut(n), 1)))
    S.unit("widths sum to one (lemma)", "lemma", total, theory())


def sorted_times(n, i):
    k = fresh("k", "I")
    return app("SORTED", (num(n), lam(k, A("tm", k)), num(i)), "R")


def cuts_at(I, m, t0, tf, i):
    """boundaries of the segments: the times, sorted; spare segments share the first and last interval"""
    i = num(i)
    k = ite(le(m, NS), m, NS)
    few = lambda: ite(eq(i, 0), t0, ite(eq(i, NS), tf, sorted_times(k, sub(i, 1))))
    a, b = sorted_times(m, ZERO), sorted_times(m, sub(m, 1))
    a, b = sub(a, t0), sub(tf, b)
    extra = sub(NS, m)
    ns = add(1, num(lib.to_int(I, mul(div(a, add(a, b)), extra))))
    nend = sub(add(extra, 1), ns)
    last = sub(add(ns, m), 1)
    many = ite(le(i, ns), add(t0, mul(i, div(a, ns))), ite(le(i, last), sorted_times(m, sub(i, ns)), add(sorted_times(m, sub(m, 1)), mul(sub(i, last), div(b, nend)))))
    return ite(lt(sub(NS, 2), m), few(), many)


def steep_times(S):
    n, thr = var("npt", "I"), var("thr", "R")
    T, D = (lambda i: A("to", num(i))), (lambda i, j: A("du", num(i), num(j)))

    def norm(i):
        return app("sqrt", (SUM(0, NU, lambda j: mul(D(i, j), D(i, j))),), "R")

    def chosen(m=None):
        k, e = fresh("k", "I"), fresh("e", "I")
        l = lam(k, le(thr, norm(add(k, 1))))
        m = nsel(sub(n, 2), l)
        key = lam(e, norm(add(fsel(sub(n, 2), l, e), 1)))
        return m, lambda e: add(fsel(sub(n, 2), l, app("PERM", (m, key, num(e)), "I")), 1)

    def build(u):
        u.hyp(ge(n, 2), ge(NU, 1))
        u.satisfiable()

        def post(r):
            m, at = chosen()
            u.eq("times", r, leafvec("np", m, lambda e: T(at(e))))
        u.run(lambda: u.call(H, "compute_time_at_max_values", Opaque("grid"), leafvec("np", n, T), matrix("np", n, NU, D), threshold=thr), post)
    S.unit("times of large control slope", "mpopt_h_adaptive.compute_time_at_max_values", build, Theory())

    def lemma(u):
        m, at = chosen()
        i, j = fresh("i", "I"), fresh("j", "I")
        u.hyp(ge(n, 2), le(0, i), lt(i, j), lt(j, m))
        u.th.on_pair("to", lambda a, b: [implies(and_(le(0, a.args[0]), lt(a.args[0], b.args[0]), lt(b.args[0], n)), lt(a, b)), implies(and_(le(0, b.args[0]), lt(b.args[0], a.args[0]), lt(a.args[0], n)), lt(b, a))])
        u.satisfiable()
        u.oblige("interior mesh points", and_(le(1, at(i)), le(at(i), sub(n, 2))))
        u.oblige("strictly inside the phase", and_(lt(T(ZERO), T(at(i))), lt(T(at(i)), T(sub(n, 1)))))
        u.oblige("different mesh points", ne(at(i), at(j)))
        u.oblige("different times", ne(T(at(i)), T(at(j))))
    S.unit("times of large control slope (lemma)", "lemma", lemma, Theory())


RES, OLD, TOL = (lambda k: A("res", num(k))), (lambda k: A("hw", num(k))), var("tol", "R")


def runs():
    k = fresh("k", "I")
    l = lam(k, lt(RES(k), TOL))
    return l, ngroups(NS, l), lambda g: gstart(NS, l, num(g))


MERGE_MAX = 8 if os.environ.get("VERIF_TIER") == "thorough" else 6


def merge_split(S):
    """bounded: every number of segments up to MERGE_MAX, all residuals, tolerances and positive widths"""
    for n in range(1, MERGE_MAX + 1):
        for kind in ("array", "list"):
            def build(u, kind=kind, n=n):
                u.th.on("hw", lambda a, t: [gt(t, 0)])
                given = [OLD(k) for k in range(n)]
                viol = [le(TOL, RES(k)) for k in range(n)]
                until = lambda v, j: add(ZERO, *v[:j])

                def post(r):
                    known = all(CTX.holds(v) or CTX.holds(not_(v)) for v in viol)
                    v = [bool(CTX.holds(c)) for c in viol]
                    groups = sum(k == 0 or v[k] != v[k - 1] for k in range(n))
                    new = [num(lib.getitem(u.I, r, k)) for k in range(int(lib.length(u.I, r)))]
                    u.record("one width per segment", "%d" % len(new), len(new) == n)
                    if len(new) != n:
                        return
                    u.record("the path determines which segments violate the tolerance", "%s" % v, known)
                    if groups == n or not any(v):
                        for k in range(n):
                            u.oblige("width %d unchanged" % k, eq(new[k], given[k]))
                        return
                    for k in range(n):
                        u.oblige("width %d is positive" % k, gt(new[k], 0))
                    u.oblige("same total", eq(until(new, n), until(given, n)))
                    for k in range(1, n):
                        if v[k] != v[k - 1]:
                            at = [j for j in range(1, n) if CTX.holds(eq(until(new, j), until(given, k)))]
                            u.record("boundary before segment %d does not move" % k, "a boundary of the new segments, among %d" % (n - 1), bool(at))
                u.run(lambda: u.call(H, "merge_split_segments_based_on_residuals", PList([RES(k) for k in range(n)]), lib.np_array(u.I, [PList(given)], {}) if kind == "array" else PList(given), ERR_TOL=TOL), post)
            S.unit("merge and split/%d segments, widths as %s" % (n, kind), "mpopt_h_adaptive.merge_split_segments_based_on_residuals", build, theory(),
                   bounded="exactly %d segments; all residuals, tolerances and positive widths" % n)


NTR = lambda q, s: app("ntr", (num(q), num(s)), "I")
RR = lambda q, s, e, i: A("RR", num(q), num(s), num(e), num(i))
SWP = lambda i: A("swp", num(i))
TOLR = lambda q: A("tolr", num(q))
WOLD = lambda q, i: SWP(add(mul(NS, q), i))


def con_residuals(z):
    """residuals of every phase: per segment a matrix, None where a segment has no points"""
    def seg(q, s):
        return Union([(ge(NTR(q, s), 1), matrix("np", NTR(q, s), NX, lambda e, i: RR(q, s, e, i))), (lt(NTR(q, s), 1), None)])

    def f(I, v):
        u = [x for k, x in v.items() if k not in ("self", "solution") and x is not None and x is not False]
        CTX.oblige("residuals of the given solution on the default grid", TRUE if v["solution"] is z.solution and not u else FALSE)
        return (Opaque("ti"), PList(n=NP, fn=lambda q: PList(n=NS, fn=lambda s: seg(q, s))))
    return Con(f)


def over(n, f):
    k = fresh("k", "I")
    return app("MAXV", (num(n), lam(k, f(k))), "R")


def seg_residual(q, s):
    return over(NTR(q, s), lambda e: over(NX, lambda i: app("abs", (RR(q, s, e, i),), "R")))


def max_residual(q):
    """largest residual component in magnitude of a phase, zero for segments without points"""
    return over(NS, lambda s: ite(ge(NTR(q, s), 1), seg_residual(q, s), ZERO))


def phase_of(I, v):
    """index of the phase whose residuals these are, read from the values"""
    t = lib.getitem(I, v, ZERO)
    for c, x in t.alts if isinstance(t, Union) else [(TRUE, t)]:
        if isinstance(x, Tensor):
            with CTX.under(c):
                for a in atoms_of(num(lib.getitem(I, x, (0, 0))), lambda y: y.op == "app" and y.data == "RR"):
                    return a.args[0]
    raise Unsupported("residuals of an unknown phase")


def con_refine(method):
    """contract of refine_segment_widths_based_on_residuals: NS values for the residuals of phase q"""
    def refine(I, v):
        q = phase_of(I, v["residuals"])
        i = fresh("i", "I")
        CTX.oblige("one of the phases", and_(le(0, q), lt(q, NP)))
        CTX.oblige("the phase's own tolerance", eq(term(v["ERR_TOL"]), TOLR(q)))
        CTX.oblige("the selected rule", TRUE if v["method"] == method else FALSE)
        CTX.oblige("as many old widths as segments", eq(lib.length(I, v["segment_widths"]), NS))
        with CTX.under(le(0, i), lt(i, NS)):
            CTX.oblige("the phase's old widths", eq(num(lib.getitem(I, v["segment_widths"], i)), WOLD(q, i)))
        return leafvec("np", NS, lambda i: A("rw", q, i))
    return Con(refine)


def phase_residuals(S):
    for method in ("merge_split", "equal_area"):
        def build(u, method=method):
            pr = Prob(u, None)
            z = adaptive_state(u, pr)
            u.I.contracts["mpopt.get_dynamics_residuals"] = con_residuals(z)
            u.I.contracts["mpopt_h_adaptive.refine_segment_widths_based_on_residuals"] = con_refine(method)
            i = fresh("i", "I")
            u.hyp(le(0, i), lt(i, NS))
            u.satisfiable()

            def post(r):
                w, e = r
                u.oblige("as many widths as segments in all phases", eq(lib.length(u.I, w), mul(NP, NS)))
                old, new = WOLD(Q, i), A("rw", Q, i)
                new = new if method == "merge_split" else add(mul(num(Fraction(2, 5)), new), mul(num(Fraction(3, 5)), old))
                got = num(lib.getitem(u.I, w, add(mul(NS, Q), i)))
                u.oblige("width kept where the tolerance is met", implies(lt(max_residual(Q), TOLR(Q)), eq(got, old)))
                u.oblige("refined width", implies(le(TOLR(Q), max_residual(Q)), eq(got, new)))
                m = over(NP, max_residual)
                u.oblige("largest residual", eq(num(e), ite(lt(0, m), m, ZERO)))
            u.run(lambda: u.call(z.s, "compute_seg_width_based_on_residuals", z.solution, method=method), post)
        S.unit("widths from residuals/%s" % method, "mpopt_h_adaptive.compute_seg_width_based_on_residuals", build, theory(), COLLOC)


class adaptive_state:
    """an h-adaptive optimizer with stored widths and a solution"""

    def __init__(self, u, pr, z=None):
        self.s = s = z.s if z else optimizer(u, pr, "mpopt_h_adaptive")
        self.solution = PDict({"x": Opaque("x*"), "f": Opaque("f*")})
        CTX.set(s, "_nlp_sw_params", leafvec("np", mul(NS, pr.np), SWP))
        CTX.set(s, "tol_residual", PList(n=pr.np, fn=TOLR))
        CTX.set(s, "lbh", PList(n=pr.np, fn=lambda q: A("lbh", q)))
        CTX.set(s, "ubh", PList(n=pr.np, fn=lambda q: A("ubh", q)))
        CTX.set(s, "plot_residual_evolution", False)
        u.th.on("ntr", lambda a, t: [ge(t, 0)])


def refine_rule(S):
    for method in ("merge_split", "equal_area", "other"):
        def build(u, method=method):
            u.hyp(ge(NS, 2), ge(NX, 1))
            u.th.on("ntr", lambda a, t: [ge(t, 0)])
            res = PList(n=NS, fn=lambda s: Union([(ge(NTR(Q, s), 1), matrix("np", NTR(Q, s), NX, lambda e, i: RR(Q, s, e, i))), (lt(NTR(Q, s), 1), None)]))
            old = leafvec("np", NS, OLD)
            out = leafvec("np", NS, lambda i: A("rw", num(i)))

            def merge(I, v):
                s = fresh("s", "I")
                CTX.oblige("the given tolerance", eq(term(v["ERR_TOL"]), TOL))
                CTX.oblige("one residual per segment", eq(lib.length(I, v["max_residuals"]), NS))
                with CTX.under(le(0, s), lt(s, NS)):
                    r = num(I.force(lib.getitem(I, v["max_residuals"], s)))
                    CTX.oblige("largest residual of a segment", implies(ge(NTR(Q, s), 1), eq(r, seg_residual(Q, s))))
                    CTX.oblige("no residual in a segment without points", implies(lt(NTR(Q, s), 1), eq(r, 0)))
                    CTX.oblige("the given widths", eq(num(lib.getitem(I, v["segment_widths"], s)), OLD(s)))
                return out

            def area(I, v):
                m = lambda s: ite(ge(NTR(Q, s), 1), NTR(Q, s), ONE)
                norm = lambda s, e: app("sqrt", (SUM(0, NX, lambda i: mul(RR(Q, s, e, i), RR(Q, s, e, i))),), "R")
                u.eq("residual norms of all segments in order", v["residuals"], Tensor("np", (lib.DB(NS, lambda s: lib.DL(m(s))),), lambda r: ite(ge(NTR(Q, r[1]), 1), norm(r[1], r[2]), ZERO)))
                CTX.oblige("as many parts as segments", eq(term(v["n_segments"]), NS))
                return out
            u.I.contracts["mpopt_h_adaptive.merge_split_segments_based_on_residuals"] = Con(merge)
            u.I.contracts["mpopt_h_adaptive.get_roots_wrt_equal_area"] = Con(area)
            pr = Prob(u, None)
            s = optimizer(u, pr, "mpopt_h_adaptive")
            u.satisfiable()

            def post(r):
                if method == "other":
                    u.eq("widths unchanged", r, old)
                else:
                    u.eq("widths of the rule", r, out)
            u.run(lambda: u.call(s, "refine_segment_widths_based_on_residuals", res, old, ERR_TOL=TOL, method=method), post)
        S.unit("refinement rule/%s" % method, "mpopt_h_adaptive.refine_segment_widths_based_on_residuals", build, theory(), COLLOC)

    def positive(u):
        u.hyp(ge(NR, 2))
        u.th.on("rv", lambda a, t: [ge(t, 0)])
        j, m = fresh("j", "I"), fresh("m", "I")
        half = lambda j: mul(num(Fraction(1, 2)), RV(j))
        u.hyp(le(0, j), le(1, m))
        u.satisfiable()
        u.fact("area of one more interval", eq(area(add(m, 1)), add(area(m), half(m), half(add(m, 1)))))
        with CTX.under(le(j, 1)):
            u.oblige("base", le(half(j), area(ONE)))
        with CTX.under(le(j, m), le(half(j), area(m))):
            u.oblige("step, earlier point", le(half(j), area(add(m, 1))))
        with CTX.under(le(0, area(m))):
            u.oblige("step, last point", le(half(add(m, 1)), area(add(m, 1))))
            u.oblige("step, no point", le(0, area(add(m, 1))))
        k = fresh("k", "I")
        f = lambda k: SUM(0, k, lambda i: mul(A("rr", i), A("rr", i)))
        with CTX.under(le(0, k), le(0, f(k))):
            u.oblige("sum of squares", and_(le(0, f(add(k, 1))), le(mul(A("rr", k), A("rr", k)), f(add(k, 1))), le(f(k), f(add(k, 1)))))
    S.unit("some residual makes the area positive (lemma)", "lemma", positive, theory())


def phase_slopes(S):
    """widths from control slopes: per phase, cuts at the times of large slope, clipped and normalised"""
    def build(u):
        pr = Prob(u, None)
        z = Sol(u, pr, "mpopt_h_adaptive")
        adaptive_state(u, pr, z)
        u.hyp(ge(NS, 2))
        # node times of a phase increase strictly from its start to its end (C05; widths positive with sum one)
        n1 = sub(N(), 1)
        inc = lambda a, b: implies(and_(eq(a.args[0], b.args[0]), le(0, a.args[1]), lt(a.args[1], b.args[1]), le(b.args[1], n1)), lt(a, b))
        u.th.on_pair("V.t", lambda a, b: [inc(a, b), inc(b, a)])
        first_t, last_t = (lambda q: z.T(q, ZERO)), (lambda q: z.T(q, n1))
        u.th.on("V.t", lambda a, t: [eq(first_t(a[0]), z.t0(a[0])), eq(last_t(a[0]), z.tf(a[0])), implies(and_(le(0, a[1]), le(a[1], n1)), and_(le(z.t0(a[0]), t), le(t, z.tf(a[0]))))])
        for h in ("lbh", "ubh"):
            u.th.on(h, lambda a, t: [gt(t, 0)])
        mt = lambda q: app("mt", (q,), "I")
        at = lambda q, e: app("at", (q, num(e)), "I")
        u.th.on("mt", lambda a, t: [ge(t, 0)])
        u.th.on("at", lambda a, t: [implies(and_(le(0, a[1]), lt(a[1], mt(a[0]))), and_(le(1, t), lt(t, n1)))])

        def steep(I, v):
            """proved above: times of interior nodes, one each"""
            q = [a.args[0] for a in atoms_of(num(lib.getitem(I, v["t_orig"], ZERO)), lambda y: y.op == "app" and y.data == "V.t")][0]
            du = v["du_orig"]
            k = fresh("k", "I")
            CTX.oblige("slope threshold is the optimizer's", eq(num(v["threshold"]), num(I.getattr(z.s, "_THRESHOLD_SLOPE"))))
            CTX.oblige("a time per node", eq(lib.length(I, v["t_orig"]), N()))
            CTX.oblige("slopes per node", and_(eq(du.dims[0].size(), N()), eq(du.dims[1].size(), NU)))
            with CTX.under(le(0, k), lt(k, N())):
                CTX.oblige("times of the nodes", eq(num(lib.getitem(I, v["t_orig"], k)), z.T(q, k)))
            return leafvec("np", mt(q), lambda e: z.T(q, at(q, e)))

        def widths(I, v):
            """proved above: positive widths with sum one"""
            ts = v["times"]
            q = [a.args[0] for a in atoms_of(num(lib.getitem(I, ts, ZERO)), lambda y: y.op == "app" and y.data == "V.t")][0]
            e = fresh("e", "I")
            CTX.oblige("one of the phases", and_(le(0, q), lt(q, NP)))
            CTX.oblige("some time", ge(mt(q), 1))
            CTX.oblige("as many times as there are", eq(lib.length(I, ts), mt(q)))
            CTX.oblige("number of segments", eq(term(v["n_segments"]), NS))
            CTX.oblige("from the start to the end of the phase", and_(eq(num(v["t0"]), z.t0(q)), eq(num(v["tf"]), z.tf(q))))
            with CTX.under(le(0, e), lt(e, mt(q))):
                t = num(lib.getitem(I, ts, e))
                CTX.oblige("times inside the phase", and_(lt(z.t0(q), t), lt(t, z.tf(q))))
            return leafvec("np", NS, lambda i: A("cw", q, i))
        u.th.on("cw", lambda a, t: [gt(t, 0)])
        c = u.I.contracts
        c["mpopt.get_dynamics_residuals"] = con_residuals(z)
        c["mpopt.get_residual_grid_taus"] = Con(lambda I, v: Opaque("grid"))
        c["mpopt.get_interpolated_time_grid"] = Con(lambda I, v: leafvec("np", var("ngrid", "I"), lambda e: A("grid", e)))
        u.hyp(ge(var("ngrid", "I"), 2))
        c["mpopt.init_trajectories"] = Con(lambda I, v: trajectory(z, term(v["phase"]), u.I.getattr(z.s, "_nlp_sw_params")))
        c["mpopt_h_adaptive.compute_time_at_max_values"] = Con(steep)
        c["mpopt_h_adaptive.compute_segment_widths_at_times"] = Con(widths)
        i = fresh("i", "I")
        u.hyp(le(0, i), lt(i, NS))
        u.satisfiable()

        def post(r):
            w, e = r
            u.oblige("as many widths as segments in all phases", eq(lib.length(u.I, w), mul(NP, NS)))
            got = num(lib.getitem(u.I, w, add(mul(NS, Q), i)))
            u.oblige("width kept where the tolerance is met", implies(lt(max_residual(Q), TOLR(Q)), eq(got, WOLD(Q, i))))
            with CTX.under(le(TOLR(Q), max_residual(Q))):
                u.oblige("width kept without large slopes", implies(lt(mt(Q), 1), eq(got, WOLD(Q, i))))
                with CTX.under(le(1, mt(Q))):
                    W = lambda k: num(lib.getitem(u.I, w, add(mul(NS, Q), k)))
                    got = W(i)
                    hm = len(CTX.hyps)
                    u.positive_sums(got)
                    u.oblige("positive", lt(0, got))
                    u.oblige("sum one", eq(SUMc(NS, W), 1))
                    del CTX.hyps[hm:]
            m = over(NP, max_residual)
            u.oblige("largest residual", eq(num(e), ite(lt(0, m), m, ZERO)))
        u.run(lambda: u.call(z.s, "compute_seg_width_based_on_input_slope", z.solution), post)
    S.unit("widths from control slopes", "mpopt_h_adaptive.compute_seg_width_based_on_input_slope", build, theory(), COLLOC)


def con_widths(z, name, method=None):
    """contract of the two rules over all phases: widths and largest residual"""
    def f(I, v):
        CTX.oblige("the given solution", TRUE if v["solution"] is z.solution else FALSE)
        if method:
            CTX.oblige("the selected sub-method", TRUE if v["method"] == method else FALSE)
        w = I.getattr(z.s, "_nlp_sw_params")
        i = fresh("i", "I")
        CTX.oblige("stored widths for all segments", eq(lib.length(I, w), mul(NS, NP)))
        return (leafvec("np", mul(NP, NS), lambda i: A(name, i)), var("err:" + name, "R"))
    return Con(f)


def width_parameters(S):
    cases = {"no solution": (None, None), "control slope": ({"method": "control_slope"}, "slope"), "merge and split": ({"method": "residual", "sub_method": "merge_split"}, "merge_split"),
             "equal area": ({"method": "residual", "sub_method": "equal_area"}, "equal_area"), "default sub-method": ({"method": "residual"}, "equal_area"),
             "other method": ({"method": "none of these"}, None), "no method": ({"sub_method": "equal_area"}, None), "one segment": ({"method": "residual"}, None)}
    for nm, (opt, rule) in cases.items():
        for stored in (True, False) if rule else (True,):
            def build(u, nm=nm, opt=opt, rule=rule, stored=stored):
                pr = Prob(u, None)
                z = adaptive_state(u, pr)
                u.hyp(eq(NS, 1) if nm == "one segment" else ge(NS, 2))
                if not stored:
                    z.s.d.pop("_nlp_sw_params", None)
                c = u.I.contracts
                c["mpopt_h_adaptive.compute_seg_width_based_on_input_slope"] = con_widths(z, "slope")
                c["mpopt_h_adaptive.compute_seg_width_based_on_residuals"] = con_widths(z, rule, rule)
                u.satisfiable()

                def post(r):
                    w, e = r
                    if rule:
                        u.eq("widths of the selected rule", w, leafvec("np", mul(NP, NS), lambda i: A(rule, i)))
                        u.oblige("its largest residual", eq(num(e), var("err:" + rule, "R")))
                    else:
                        i = fresh("i", "I")
                        u.oblige("as many widths as segments in all phases", eq(lib.length(u.I, w), mul(NP, NS)))
                        with CTX.under(le(0, i), lt(i, mul(NP, NS))):
                            u.oblige("equal widths", eq(num(lib.getitem(u.I, w, i)), div(ONE, NS)))
                        none(u, "no residual", e)
                u.run(lambda: u.call(z.s, "get_segment_width_parameters", None if opt is None else z.solution, options=PDict(opt or {})), post)
            S.unit("width parameters/%s%s" % (nm, "" if stored else "/nothing stored"), "mpopt_h_adaptive.get_segment_width_parameters", build, theory(), COLLOC)


def none(u, name, v):
    r = lib.is_same(u.I, v, None)
    u.oblige(name, r if isinstance(r, Term) else TRUE if r else FALSE)


def combined(S):
    """mixing with the old widths, and clipping followed by normalisation, keep a valid partition"""
    def build(u):
        u.hyp(ge(NS, 1))
        new, old, c = (lambda i: A("nw", i)), (lambda i: A("hw", i)), (lambda i: A("cl", i))
        for h in ("nw", "hw", "cl"):
            u.th.on(h, lambda a, t: [gt(t, 0)])
        mix = lambda i: add(mul(num(Fraction(2, 5)), new(i)), mul(num(Fraction(3, 5)), old(i)))
        s = lambda f: SUM(0, NS, f)
        i = fresh("i", "I")
        u.satisfiable()
        u.oblige("mixed width positive", lt(0, mix(i)))
        with CTX.under(eq(s(new), 1), eq(s(old), 1)):
            u.oblige("mixed widths sum to one", eq(s(mix), 1))
        u.oblige("positive total of clipped widths", lt(0, s(c)))
        with CTX.under(lt(0, s(c))):
            u.oblige("normalised width positive", lt(0, div(c(i), s(c))))
            u.oblige("normalised widths sum to one", eq(s(lambda k: div(c(k), s(c))), 1))
    S.unit("mixed and normalised widths (lemma)", "lemma", build, theory())


# ---------------------------------------------------------------- C15
MI = var("maxit", "I")
WN = lambda j, i: A("WN", num(j), num(i))
ERR = lambda j: A("ERR", num(j))
EQW = lambda i: div(ONE, NS)


class Run(loops.LoopInvariant):
    """history of an h-adaptive solve: before iteration k, k NLPs have been solved; solution j belongs to the
    widths WN(j-1) and has largest residual ERR(j) and refined widths WN(j)"""

    def __init__(self, u, initial, rule, init, reinit, given_options):
        self.u, self.initial, self.rule = u, initial, rule
        I = u.I
        self.pr = Prob(u, None)
        z = adaptive_state(u, self.pr)
        self.s = s = z.s
        for h in ("WN", "tolr"):
            u.th.on(h, lambda a, t: [gt(t, 0)])
        u.hyp(ge(MI, 1))
        self.size = mul(NP, NS)
        self.ghost = Inst("ghost")
        self.g("n", ZERO)
        self.g("last", None)
        self.g("p", None)
        self.g("built", ZERO)
        self.bounds = {k: Opaque(k) for k in ("lbg", "ubg", "lbx", "ubx")}
        self.old_bounds = {k: Opaque("old " + k) for k in self.bounds}
        CTX.set(s, "_nlpsolver_initialized", init)
        if init:
            CTX.set(s, "nlp_solver", PyFn(self.solver, "nlp_solver"))
            CTX.set(s, "nlp_bounds", PDict(dict(self.old_bounds)))
        self.build = (not init) or reinit
        self.start = self.solution(ZERO) if initial else None
        self.options = PDict({"method": Opaque("method")} if given_options else {})
        self.solver_options = PDict({"k": Opaque("v")})
        self.frame = dict(self.options.v), dict(self.solver_options.v), dict(self.start.v) if initial else None
        c = I.contracts
        c["mpopt.create_solver"] = Con(self.create)
        c["mpopt.get_solver_warm_start_input_parameters"] = Con(self.warm)
        c["mpopt_h_adaptive.get_segment_width_parameters"] = Con(self.refine)
        I.loop_invariants.append(self)

    def g(self, name, *v):
        if v:
            CTX.set(self.ghost, name, v[0])
        return self.ghost.d.get(name)

    def solution(self, j):
        r = PDict({"x": Opaque("x"), "f": Opaque("f"), "lam_x": Opaque("lx"), "lam_g": Opaque("lg")})
        r.index = num(j)
        return r

    def widths(self, j):
        return leafvec("np", self.size, lambda i: WN(j, i))

    def error(self, j):
        """ERR(j), None where there is no residual"""
        if not self.rule or (not self.initial and CTX.decide(eq(j, 0)) is not False and j is ZERO):
            return None
        return ERR(j)

    # contracts of the callees
    def create(self, I, v):
        CTX.oblige("the NLP is built before the first solve", eq(self.g("n"), 0))
        CTX.oblige("the named solver is built", TRUE if v["solver"] == "SOLVER" else FALSE)
        self.g("built", add(self.g("built"), 1))
        CTX.set(self.s, "nlp_solver", PyFn(self.solver, "nlp_solver"))
        CTX.set(self.s, "nlp_bounds", PDict(dict(self.bounds)))
        CTX.set(self.s, "_nlpsolver_initialized", True)

    def warm(self, I, v):
        w = Opaque("warm start")
        w.solution = v["solution"]
        return PDict({"x0": w})

    def refine(self, I, v):
        sol = v["solution"]
        o = v["options"].v
        given = self.frame[0]
        CTX.oblige("the given options, or residual based equal area refinement", TRUE if (o == given if given else o == {"method": "residual", "sub_method": "equal_area"}) else FALSE)
        if sol is None:
            return (PList(n=self.size, fn=EQW), None)
        if sol is not self.start:
            # the refinement of a solution starts from the widths the solution was computed with
            i = fresh("i", "I")
            w = I.getattr(self.s, "_nlp_sw_params")
            CTX.oblige("stored widths are those of the solution", eq(lib.length(I, w), self.size))
            with CTX.under(le(0, i), lt(i, self.size)):
                CTX.oblige("stored width is that of the solution", eq(num(lib.getitem(I, w, i)), num(lib.getitem(I, self.g("p"), i))))
        return (self.widths(sol.index) if self.rule else PList(n=self.size, fn=EQW), self.error(sol.index))

    def target(self):
        q = fresh("q", "I")
        return app("MINV", (NP, lam(q, TOLR(q))), "R")

    def new(self, j, i):
        return EQW(i) if not self.rule or (not self.initial and j is ZERO) else WN(j, i)

    def solver(self, I, a, kw):
        n = self.g("n")
        u = self.u
        u.record("named inputs only", "solver call", not a)
        CTX.oblige("no more NLP solves than permitted", lt(n, MI))
        first = CTX.decide(eq(n, 0)) is True
        j = ZERO if first else n
        prev = self.start if first else self.g("last")
        u.record("warm start from the previous solution", "x0", set(kw) == {"x0", "p", "lbg", "ubg", "lbx", "ubx"} and kw["x0"].solution is prev)
        want = self.bounds if self.build else self.old_bounds
        u.record("bounds of the NLP", "lbg, ubg, lbx, ubx", all(kw.get(k) is x for k, x in want.items()))
        p = I.force(kw["p"])
        i = fresh("i", "I")
        CTX.oblige("a width for every segment of every phase", eq(lib.length(I, p), self.size))
        with CTX.under(le(0, i), lt(i, self.size)):
            CTX.oblige("equal widths first" if first and not self.initial else "widths refined from the previous solution", eq(num(lib.getitem(I, p, i)), self.new(j, i)))
            CTX.oblige("the widths of the solve are stored", eq(num(lib.getitem(I, I.getattr(self.s, "_nlp_sw_params"), i)), num(lib.getitem(I, p, i))))
        e = self.error(j)
        if e is not None:
            CTX.oblige("no further solve once all residuals are below the smallest tolerance", le(self.target(), e))
        if not first:
            with CTX.under(self.still(j)):
                CTX.oblige("no further solve once the widths stop changing", FALSE)
            if e is not None:
                with CTX.under(self.steady(j)):
                    CTX.oblige("no further solve once the error stops changing", FALSE)
        r = self.solution(add(n, 1))
        self.g("n", add(n, 1))
        self.g("last", r)
        self.g("p", p)
        return r

    def still(self, j):
        """the widths refined from solution j are within tolerance of those it was computed with"""
        ch = lambda i: le(div(app("abs", (sub(self.new(j, i), self.before(j, i)),), "R"), self.new(j, i)), num(self.u.I.getattr(self.s, "_TOL_SEG_WIDTH_CHANGE")))
        return T.FORALL(ZERO, self.size, ch)

    def steady(self, j):
        """the largest residual is within 5 % of the mean of the last four"""
        mean = div(add(*[ERR(sub(j, d)) for d in range(4)]), 4)
        return and_(lt(4, j), lt(app("abs", (sub(ERR(j), mean),), "R"), mul(num(Fraction(1, 20)), app("abs", (ERR(j),), "R"))))

    def reasons(self, j):
        """why the iteration may stop after solve j"""
        return [self.still(j)] + ([lt(ERR(j), self.target()), self.steady(j)] if self.rule else [])

    # the loop
    def applies(self, I, it, st, env):
        return MI in fv(num(it.n))

    def havoc(self, I, env, k):
        first = I.choose(eq(k, 0))
        s = self.s
        out = [(env, x) for x in ("new_nlp_sw_params", "max_error", "initial_solution", "sw_old")]
        out += [(s, x) for x in ("_nlp_sw_params", "iter_count", "iter_info")] + [(self.ghost, x) for x in ("n", "last", "p")]
        CTX.set(s, "iter_count", k)
        self.g("n", k)
        if first:
            return out + [I.getattr(s, "iter_info")]
        sol = self.solution(k)
        info = PDict()
        info.d["v"] = lib.ordered_symd(sub(k, 1), "int", lambda e: add(num(e), 1), lambda e: ERR(add(num(e), 1)) if self.rule else None)
        CTX.set(s, "iter_info", info)
        out += [info, (env, "solution")]
        w = leafvec("np", self.size, lambda i: self.before(k, i))
        CTX.set(s, "_nlp_sw_params", w)
        self.g("last", sol)
        self.g("p", w)
        for nm, v in (("solution", sol), ("initial_solution", sol), ("sw_old", w), ("new_nlp_sw_params", self.widths(k) if self.rule else PList(n=self.size, fn=EQW)), ("max_error", self.error(k))):
            CTX.set(env, nm, v)
        # without residuals the equal widths never change, so a second iteration makes no solve
        CTX.hyps.append(le(self.target(), ERR(k)) if self.rule else le(k, 1))
        return out

    def before(self, k, i):
        """widths of the k-th solve"""
        if not self.rule:
            return EQW(i)
        return WN(sub(k, 1), i) if self.initial else ite(eq(k, 1), EQW(i), WN(sub(k, 1), i))

    def check(self, I, env, k):
        u, s = self.u, self.s
        j = fresh("j", "I")
        dom = and_(le(0, j), lt(j, self.size))
        u.oblige("invariant: NLPs solved so far", eq(self.g("n"), k))
        u.oblige("invariant: iterations counted", eq(num(I.getattr(s, "iter_count")), k))
        at = lambda v: num(lib.getitem(I, v, j))
        new, err = env.d["new_nlp_sw_params"], env.d["max_error"]
        u.oblige("invariant: new widths for all segments", eq(lib.length(I, new), self.size))
        with CTX.under(dom):
            u.oblige("invariant: widths refined from the latest solution", eq(at(new), self.new(k, j)))
        e = self.error(k)
        if not self.rule:
            u.oblige("invariant: one solve for equal widths", le(k, 1))
        if e is None:
            none(u, "invariant: no residual known", err)
        else:
            u.oblige("invariant: largest residual of the latest solution", eq(num(err), ERR(k)))
            u.oblige("invariant: not yet below the tolerance", le(self.target(), ERR(k)))
        if k is ZERO:
            u.record("invariant: starts from the given solution", "initial_solution", env.d["initial_solution"] is self.start)
            return
        last = self.g("last")
        u.record("invariant: the latest solution is kept", "solution, initial_solution", env.d["initial_solution"] is last and env.d["solution"] is last)
        u.oblige("invariant: index of the latest solution", eq(last.index, k))
        sw = env.d["sw_old"]
        for nm, v in (("previous widths", sw), ("stored widths", I.getattr(s, "_nlp_sw_params"))):
            u.oblige("invariant: one %s per segment" % nm, eq(lib.length(I, v), self.size))
            with CTX.under(dom):
                u.oblige("invariant: %s are those of the latest solve" % nm, eq(at(v), num(lib.getitem(I, self.g("p"), j))))
        with CTX.under(dom):
            u.oblige("invariant: widths of the latest solve", eq(num(lib.getitem(I, self.g("p"), j)), self.before(k, j)))
        if self.rule and CTX.decide(lt(k, MI)) is not False:
            with CTX.under(lt(k, MI)):
                seq = getattr(I.getattr(s, "iter_info").v, "seq", None)
                if seq is None:
                    d = I.getattr(s, "iter_info").v
                    seq = (num(len(d)), None) if isinstance(d, dict) else None
                u.record("invariant: residual history in order", "iter_info", seq is not None)
                if seq:
                    u.oblige("invariant: one residual recorded per earlier solve", eq(seq[0], sub(k, 1)))
                    if seq[1]:
                        m = fresh("m", "I")
                        with CTX.under(le(0, m), lt(m, sub(k, 1))):
                            u.oblige("invariant: residuals recorded in order", eq(num(seq[1](m)), ERR(add(m, 1))))


def c15(S):
    for initial in (False, True):
        for rule in (True, False):
            for init, reinit in ((False, False), (True, True), (True, False)):
                for opts in (True, False) if rule and not init else (True,) if not rule else (False,):
                    def build(u, initial=initial, rule=rule, init=init, reinit=reinit, opts=opts):
                        I = u.I
                        I.set_class_attr("mpopt", "_MUTE_", not init)
                        h = Run(u, initial, rule, init, reinit, opts)
                        u.satisfiable()

                        def post(r):
                            n = h.g("n")
                            u.oblige("at most the permitted number of NLP solves", le(n, MI))
                            u.oblige("the NLP is built when needed, once", eq(h.g("built"), 1 if h.build else 0))
                            if CTX.decide(eq(n, 0)) is True:
                                u.record("without a solve, the given solution is returned", "result", r is h.start and initial)
                                if initial and rule:
                                    u.oblige("only when it is below the smallest tolerance", lt(ERR(ZERO), h.target()))
                            else:
                                u.oblige("some NLP was solved", ge(n, 1))
                                u.record("the latest solution is returned", "result", r is h.g("last"))
                                u.oblige("stops before the permitted number of solves only with a reason", or_(ge(n, MI), *h.reasons(n)))
                                i = fresh("i", "I")
                                w = I.getattr(h.s, "_nlp_sw_params")
                                u.oblige("stored widths for all segments", eq(lib.length(I, w), h.size))
                                with CTX.under(le(0, i), lt(i, h.size)):
                                    u.oblige("stored widths are those of the returned solution", eq(num(lib.getitem(I, w, i)), num(lib.getitem(I, h.g("p"), i))))
                            u.record("caller's dictionaries unchanged", "frame", (h.options.v, h.solver_options.v, h.start.v if initial else None) == h.frame)
                        u.run(lambda: u.call(h.s, "solve", h.start, reinit, "SOLVER", h.solver_options, h.options, MI), post)
                    S.unit("h-adaptive solve/%s/%s/%s%s" % ("initial solution" if initial else "no initial solution", "residuals" if rule else "no residuals",
                                                           "rebuild" if reinit else "initialised" if init else "fresh", "" if opts else "/default options"), "mpopt_h_adaptive.solve", build, theory(), COLLOC)
