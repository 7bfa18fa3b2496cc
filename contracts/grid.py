"""Contracts of the evaluation grids (C16)."""
from fractions import Fraction
from pyvc.verify import *
from pyvc import lib
from pyvc.sel import nsel, fsel, finv
from .colloc import P, pk, T0, T1, Con, tau, NS, taus_fn
from .nlp import *


def W(h, k):
    return SUM(0, k, h)


def members(h, n, loc, k):
    """predicate: point i lies in the left-open, right-closed interval of segment k"""
    i = fresh("pt", "I")
    return lam(i, and_(lt(W(h, k), loc(i)), le(loc(i), W(h, add(k, 1)))))


def assigned(h, n, x, a, b, loc=None):
    """specification of the assignment of points x(0..n-1) of [a,b] to segments of relative widths h"""
    loc = loc or (lambda i: div(sub(x(i), a), sub(b, a)))

    def item(k):
        l = members(h, n, loc, k)
        m = nsel(n, l)
        return Tensor("np", (lib.DL(m),), lambda e: add(a, mul(sub(b, a), div(sub(loc(fsel(n, l, lib.flat_of(lib.DL(m), e))), W(h, k)), h(k)))))
    return PList(n=NS, fn=item)


def c16(S):
    X, H = (lambda i: A("pt", i)), (lambda k: A("hw", k))
    a, b = var("ta", "R"), var("tb", "R")
    n = var("npt", "I")

    def scenario(u):
        u.hyp(ge(NS, 1), lt(a, b), ge(n, 0), eq(W(H, NS), 1))
        u.th.on("hw", lambda ar, t: [gt(t, 0)])
        u.satisfiable()

    for kind in ("array", "list"):
        def build(u, kind=kind):
            scenario(u)
            pts_ = Tensor("np", (lib.DL(n),), lambda i: X(lib.flat_of(lib.DL(n), i)))
            h = leafvec("np", NS, H) if kind == "array" else PList(n=NS, fn=H)

            def post(r):
                u.eq("points of segment k", r, assigned(H, n, X, a, b))
            u.run(lambda: u.call(ClassVal("mpopt"), "compute_interpolation_taus_corresponding_to_original_grid", pts_, h, a, b), post)
        S.unit("assignment/widths as %s" % kind, "mpopt.compute_interpolation_taus_corresponding_to_original_grid", build, Theory())
    lemmas(S, X, H, a, b, n, scenario)
    grid_units(S)


def lemmas(S, X, H, a, b, n, scenario):
    """the specified assignment is a partition of the points of (a, b], in order"""
    loc = lambda i: div(sub(X(i), a), sub(b, a))

    def setup(u):
        scenario(u)
        widths_theory(u, "hw", H)
        k, e = fresh("k", "I"), fresh("e", "I")
        u.hyp(le(0, k), lt(k, NS))
        return k, e, members(H, n, loc, k)

    def build(u):
        k, e, l = setup(u)
        m = nsel(n, l)
        u.hyp(le(0, e), lt(e, m))
        j = fsel(n, l, e)
        u.oblige("an assigned point is one of the given points", and_(le(0, j), lt(j, n)))
        u.oblige("it lies in the interval of its segment", and_(lt(W(H, k), loc(j)), le(loc(j), W(H, add(k, 1)))))
        c = div(sub(loc(j), W(H, k)), H(k))
        u.oblige("local coordinate after the segment start", lt(0, c))
        u.hyp(eq(W(H, add(k, 1)), add(W(H, k), H(k))))
        u.oblige("local coordinate up to the segment end", le(mul(c, H(k)), H(k)))
        e2 = fresh("e", "I")
        with CTX.under(lt(e, e2), lt(e2, m)):
            u.oblige("points keep their order", lt(j, fsel(n, l, e2)))
    S.unit("assigned points (lemma)", "lemma", build, Theory())

    def complete(u):
        k, e, l = setup(u)
        i = fresh("i", "I")
        u.hyp(le(0, i), lt(i, n), lt(W(H, k), loc(i)), le(loc(i), W(H, add(k, 1))))
        r = finv(n, l, i)
        u.oblige("every point of the interval is assigned", and_(le(0, r), lt(r, nsel(n, l)), eq(fsel(n, l, r), i)))
        k2 = fresh("k", "I")
        with CTX.under(lt(k, k2), lt(k2, NS)):
            u.oblige("to no later segment", not_(and_(lt(W(H, k2), loc(i)), le(loc(i), W(H, add(k2, 1))))))
    S.unit("members are assigned once (lemma)", "lemma", complete, Theory())

    def cover(u):
        scenario(u)
        widths_theory(u, "hw", H)
        i, m = fresh("i", "I"), fresh("m", "I")
        u.hyp(le(0, i), lt(i, n), lt(0, loc(i)))
        inside = lambda m: EXISTS(ZERO, m, lambda k: and_(lt(W(H, k), loc(i)), le(loc(i), W(H, add(k, 1)))))
        claim = lambda m: implies(le(loc(i), W(H, m)), inside(m))
        u.oblige("covering: no segment", claim(ZERO))
        u.hyp(le(0, m), lt(m, NS), claim(m), le(loc(i), W(H, add(m, 1))))
        with CTX.under(le(loc(i), W(H, m))):
            w = fresh("w", "I")
            with CTX.under(le(0, w), lt(w, m), lt(W(H, w), loc(i)), le(loc(i), W(H, add(w, 1)))):
                u.oblige("covering: one more segment, already covered", inside(add(m, 1)))
        with CTX.under(lt(W(H, m), loc(i))):
            u.oblige("covering: one more segment, new", inside(add(m, 1)))
    S.unit("points up to the phase end are covered (lemma)", "lemma", cover, Theory())


def widths_theory(u, head, h):
    """prefix sums of positive widths: strictly increasing (proved by induction here, then used)"""
    def positive(a, t):
        if not is_head(a[2], head):
            return []
        return [implies(le(a[0], a[1]), ge(t, 0)), implies(lt(a[0], a[1]), lt(0, t))]

    def step(s, t):
        if s.args[2] is not t.args[2] or s.args[0] is not t.args[0] or not is_head(s.args[2], head):
            return []
        a, b = s.args[1], t.args[1]
        return [implies(and_(le(s.args[0], a), lt(a, b)), le(add(s, inst(s.args[2], a)), t)), implies(and_(eq(b, add(a, 1)), le(s.args[0], a)), eq(t, add(s, inst(s.args[2], a))))]
    u.th.on(head, lambda a, t: [gt(t, 0)])
    u.th.on("SUM", positive)
    u.th.on_pair("SUM", step)


def is_head(l, head):
    body = l.args[0]
    return body.op == "app" and body.data == head


def con_assign(I, v):
    """call site of the assignment: points x, widths"""
    x, hs, a, b = lib.nparray(I, I.force(v["nodes_req"])), I.force(v["seg_widths"]), term(v["tau0"]), term(v["tau1"])
    CTX.oblige("one width per segment", eq(lib.length(I, hs), NS))
    h = lambda k: term(lib.getitem(I, hs, k))
    k = fresh("k", "I")
    with CTX.under(le(0, k), lt(k, NS)):
        hk = h(k)
        CTX.oblige("widths are positive", gt(hk, 0))
    H = lambda j: subst(hk, {k: num(j)})
    CTX.oblige("widths sum to one", eq(W(H, NS), 1))
    CTX.oblige("non-degenerate interval", lt(a, b))
    # the relative position of point i is named GL(i), their number NGL
    I.assign_calls.append((x, H, a, b))
    return assigned(H, NGL, None, a, b, lambda i: A("GL", i))


ASSIGN = {"mpopt.compute_interpolation_taus_corresponding_to_original_grid": Con(con_assign)}
MGP = var("mgp", "I")
NGL = var("ngl", "I")


def swp(q, k):
    return A("swp", add(mul(NS, q), k))


def grid_scenario(u, grid):
    pr = Prob(u, None)
    u.I.set_class_attr("mpopt", "_MAX_GRID_POINTS", MGP)
    u.hyp(ge(MGP, 1))
    s = optimizer(u, pr)
    widths_theory(u, "swp", None)
    CTX.set(s, "_nlp_sw_params", leafvec("np", mul(NS, NP), lambda i: A("swp", i)))
    u.hyp(eq(SUM(0, NS, lambda k: swp(Q, k)), 1))
    if grid is not None:
        CTX.set(s, "grid_type", PList(n=pr.np, fn=lambda q: Union([(eq(q, Q), grid), (ne(q, Q), "other")])))
    return pr, s


def fixed_nodes():
    a, b = P(NS), MGP
    return add(ite(le(b, a), a, b), 2)


def grid_units(S):
    con = dict(COLLOC)
    con.update(ASSIGN)
    for own in (True, False):
        for kind in ("fixed", "mid-points", "spectral"):
            def build(u, kind=kind, own=own):
                pr, s = grid_scenario(u, kind if own else "other")
                u.satisfiable()
                calls = u.I.assign_calls = []

                def post(r):
                    k, e = fresh("k", "I"), fresh("e", "I")
                    if kind == "fixed":
                        u.record("the grid is assigned once", "number of calls", len(calls) == 1)
                        fixed(u, r, calls.pop())
                    elif kind == "mid-points":
                        u.eq("mid points of every segment", r, PList(n=NS, fn=lambda s: leafvec("np", pk(s), lambda i: mul(Fraction(1, 2), add(tau(pk(s), i), tau(pk(s), add(i, 1)))))))
                    else:
                        u.eq("spectral points of every segment", r, PList(n=NS, fn=lambda s: leafvec("np", add(MGP, 1), lambda i: tau(add(MGP, 2), add(i, 1)))))
                u.run(lambda: u.call(s, "get_residual_grid_taus", Q, None if own else kind), post)
            S.unit("residual grid/%s%s" % (kind, "" if own else " (overridden)"), "mpopt.get_residual_grid_taus", build, theory(), con)

    def inside(u):
        Prob(u, None)
        d, i = fresh("d", "I"), fresh("i", "I")
        u.hyp(ge(d, 1), le(0, i), lt(i, d), eq(tau(d, ZERO), T0), eq(tau(d, d), T1))
        m = mul(Fraction(1, 2), add(tau(d, i), tau(d, add(i, 1))))
        u.oblige("mid points lie strictly inside", and_(lt(T0, m), lt(m, T1)))
        with CTX.under(ge(d, 3), ge(i, 1)):
            u.oblige("spectral points lie strictly inside", and_(lt(T0, tau(d, i)), lt(tau(d, i), T1)))
    S.unit("mid and spectral points are interior (lemma)", "lemma", inside, theory())


def fixed(u, r, call):
    """all interior points of the uniform grid, and only those"""
    n = fixed_nodes()
    x, H, a, b = call
    u.oblige("on the reference interval", and_(eq(a, T0), eq(b, T1)))
    uni = lambda i: add(T0, mul(sub(T1, T0), div(i, sub(n, 1))))
    u.eq("uniform grid", x, leafvec("np", n, uni))
    k, e, i = fresh("k", "I"), fresh("e", "I"), fresh("i", "I")
    u.eq("the phase's own widths", H(k), swp(Q, k))
    # facts of a uniform grid of NGL points, by relative position
    m = var("npts", "I")
    rel = lambda i: div(i, sub(m, 1))
    with CTX.under(ge(m, 3)):
        with CTX.under(lt(i, e)):
            u.oblige("relative positions increase", lt(rel(i), rel(e)))
        u.oblige("first relative position", eq(rel(ZERO), 0))
        u.oblige("last relative position", eq(rel(sub(m, 1)), 1))
    u.oblige("at least three points", ge(n, 3))
    u.th.on_pair("GL", lambda s, t: [implies(lt(s.args[0], t.args[0]), lt(s, t))])
    gl = lambda i: A("GL", i)
    u.hyp(ge(NGL, 3), eq(gl(ZERO), 0), eq(gl(sub(NGL, 1)), 1))
    want = assigned(H, NGL, None, T0, T1, gl)
    last = sub(NGL, 1)
    u.oblige("one list per segment", eq(lib.length(u.I, r), NS))
    with CTX.under(le(0, k), lt(k, NS)):
        it = lib.getitem(u.I, r, k)
        l = members(H, NGL, gl, k)
        m = nsel(NGL, l)
        size = lib.length(u.I, it)
        rl = finv(NGL, l, last)
        u.oblige("the phase end belongs to the last segment", implies(eq(k, sub(NS, 1)), and_(inst(l, last), eq(fsel(NGL, l, rl), last), le(0, rl), lt(rl, m))))
        u.hyp(implies(eq(k, sub(NS, 1)), and_(eq(fsel(NGL, l, rl), last), le(0, rl), lt(rl, m))))
        with CTX.under(le(0, e), lt(e, size)):
            u.eq("point e of segment k", term(lib.getitem(u.I, it, e)), want.item(k).get(e))
            j = fsel(NGL, l, e)
            z = fsel(NGL, l, sub(m, 1))
            u.oblige("the last point of the last segment is dropped", implies(eq(k, sub(NS, 1)), eq(size, sub(m, 1))))
            u.oblige("the last member is a point of the grid", implies(ge(m, 1), le(z, last)))
            u.hyp(implies(ge(m, 1), le(z, last)))
            u.oblige("only interior points of the phase", and_(lt(0, j), lt(j, last)))
        with CTX.under(lt(0, i), lt(i, last), lt(W(H, k), gl(i)), le(gl(i), W(H, add(k, 1)))):
            u.oblige("all interior points of the segment", and_(le(0, finv(NGL, l, i)), lt(finv(NGL, l, i), size), eq(fsel(NGL, l, finv(NGL, l, i)), i)))
