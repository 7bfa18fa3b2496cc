"""Contracts of class mpopt_adaptive (C13)."""
from fractions import Fraction
from pyvc.verify import *
from pyvc import lib
from .colloc import P, pk, T0, T1, Con, tau, NS
from .nlp import *
from . import nlp

LBH, UBH, TOL = (lambda q: A("lbh", q)), (lambda q: A("ubh", q)), (lambda q: A("tolr", q))


def adaptive(u, pr):
    s = optimizer(u, pr, "mpopt_adaptive")
    for nm in ("lbh", "ubh"):
        CTX.set(s, nm, PList(n=pr.np, fn=lambda q, nm=nm: A(nm, q)))
    CTX.set(s, "tol_residual", PList(n=pr.np, fn=TOL))
    return s


def midp(g, i):
    return mul(Fraction(1, 2), add(tau(pk(g), i), tau(pk(g), add(i, 1))))


def mids(n):
    """rows: one per segment and pair of consecutive nodes"""
    return lib.DB(n, lambda g: lib.DB(NS, lambda s: lib.DL(pk(s)))) if n is not None else lib.DB(NS, lambda s: lib.DL(pk(s)))


def c13(S):
    for nm, na in variants():
        for first in (True, False):
            def build(u, na=na, first=first):
                pr = Prob(u, na)
                s = adaptive(u, pr)
                v = View(u, s)
                u.hyp(eq(Q, 0) if first else ge(Q, 1))
                u.satisfiable()
                q = ZERO if first else Q

                def post(r):
                    Z, lo, hi = r
                    u.eq("decision vector with the segment widths", Z, zlayout(pr, v, q, lambda k: v.w(k, q)))
                    u.eq("lower bounds", lo, zbounds(pr, q, first, "lb", lambda k: LBH(q)))
                    u.eq("upper bounds", hi, zbounds(pr, q, first, "ub", lambda k: UBH(q)))
                u.run(lambda: u.call(s, "get_nlp_variables", q), post)
            S.unit("variables/%s/%s" % (nm, "first phase" if first else "later phase"), "mpopt_adaptive.get_nlp_variables", build, theory(), COLLOC)
        for resid in (True, False):
            width_unit(S, nm, na, resid)
    limits_unit(S)
    time_unit(S)
    opts = [nm for fn, nm, opt in GROUPS["mpopt_adaptive"] if opt]
    for m in range(2 ** len(opts)):
        discretize_unit(S, "mpopt_adaptive", {o for i, o in enumerate(opts) if m >> i & 1})
    for ev in (False, True):
        nlp_unit(S, "mpopt_adaptive", ev)
    create_solver_unit(S, "mpopt_adaptive")
    solve_adaptive_unit(S)


def width_unit(S, nm, na, resid):
    def build(u):
        pr = Prob(u, na)
        s = adaptive(u, pr)
        CTX.set(s, "mid_residuals", resid)
        tg = PList(n=N(), fn=lambda k: A("TG", k))
        CTX.set(s, "time_grid", PList(n=pr.np, fn=lambda q: PList(n=N(), fn=lambda k: ite(eq(q, Q), A("TG", k), A("TGother", q, k)))))
        v = View(u, s)
        u.I.guess_hints.append(P)
        u.satisfiable()
        fin = lambda h, n: or_(EXISTSc(n, lambda i: lt(neg(INF), A("lb" + h, Q, i))), EXISTSc(n, lambda i: lt(A("ub" + h, Q, i), INF)))
        ufin, xfin = fin("u", NU), fin("x", NX)
        at = lambda h, g, m, i, der=False: SUMc(N(), lambda c: mul(seg_cols(c, g, lambda j: A("DL1" if der else "LV", pk(g), j, midp(g, m))), (v.X if h == "x" else v.U)(Q, c, i)))

        def dims_scaled(n):
            return lib.DB(n, lambda i: lib.DB(NS, lambda g: lib.DL(pk(g))))

        def post(r):
            SW, lo, hi = r
            parts = [("widths sum to one", lib.DL(1), lambda x: sub(SUMc(NS, lambda k: v.w(k, Q)), ONE), lambda x: ZERO, lambda x: ZERO)]
            for h, c, n in (("u", ufin, NU), ("x", xfin, NX)):
                with CTX.under(c):
                    live = not CTX.prover.quick(FALSE, CTX.hyps, 8)
                if live:
                    u.oblige("mid-point bounds of %s only when some bound is finite" % h, c)
                    parts.append((h, dims_scaled(n), lambda x, h=h: at(h, x[2][1], x[2][2], x[1]), lambda x, h=h: mul(A("lb" + h, Q, x[1]), A("s" + h, x[1])),
                                  lambda x, h=h: mul(A("ub" + h, Q, x[1]), A("s" + h, x[1]))))
                else:
                    u.oblige("mid-point bounds of %s are left out only when no bound is finite" % h, not_(c))
            if resid:
                def res(x):
                    # segment by segment, state by state, point by point
                    g, i, m = x[1], x[2][1], x[2][2]
                    xs = vecc(NX, lambda j: div(at("x", g, m, j), A("sx", j)))
                    us = vecc(NU, lambda j: div(at("u", g, m, j), A("su", j)))
                    k = add(P(g), m)
                    t = mul(Fraction(1, 2), add(A("TG", k), A("TG", add(k, 1))))
                    args = (xs, us, t) + v.as_(Q, pr)
                    return mul(v.w(g, Q), sub(at("x", g, m, i, True), mul(v.h(g, Q), mul(A("sx", i), A("dyn", Q, i, *args)))))
                parts.append(("residual", lib.DB(NS, lambda g: lib.DB(NX, lambda i: lib.DL(pk(g)))), res, lambda x: neg(TOL(Q)), lambda x: TOL(Q)))
            d = lib.DC([p[1] for p in parts])
            u.eq("segment width constraints", SW, Tensor("SX", (d, lib.DL(1)), lambda x, c: parts[x[1]][2](x[2])))
            u.eq("lower bounds", lo, Tensor("np", (d,), lambda x: parts[x[1]][3](x[2])))
            u.eq("upper bounds", hi, Tensor("np", (d,), lambda x: parts[x[1]][4](x[2])))
        u.run(lambda: u.call(s, "get_nlp_constrains_for_segment_widths", Q), post)
    S.unit("widths/%s%s" % (nm, "/residuals" if resid else ""), "mpopt_adaptive.get_nlp_constrains_for_segment_widths", build, theory(), COLLOC)


def limits_unit(S):
    """the constructor gives every phase its own width limits and tolerance"""
    def build(u):
        pr = Prob(u, None)
        u.satisfiable()
        made = []

        def post(s):
            for nm, c in (("lbh", "_SEG_WIDTH_MIN"), ("ubh", "_SEG_WIDTH_MAX"), ("tol_residual", "_TOL_RESIDUAL")):
                val = u.I.getattr(s, c)
                u.eq("default %s of every phase" % nm, u.I.getattr(s, nm), PList(n=pr.np, fn=lambda q: term(val)))
            u.eq("mid-point residuals are on by default", u.I.getattr(s, "mid_residuals"), True)
            lo, hi, tl = [term(u.I.getattr(s, c)) for c in ("_SEG_WIDTH_MIN", "_SEG_WIDTH_MAX", "_TOL_RESIDUAL")]
            u.oblige("width limits admit a partition into positive widths", and_(gt(lo, 0), le(lo, hi), ge(hi, 1)))
            u.oblige("tolerance is positive", gt(tl, 0))
        u.run(lambda: optimizer(u, pr, "mpopt_adaptive", created=False), post)
    S.unit("default limits", "mpopt_adaptive.__init__", build, theory(), COLLOC)


def time_unit(S):
    """the mean of the times of two consecutive nodes (C05) is the time of the local mid-point"""
    def build(u):
        pr = Prob(u, 0)
        s = adaptive(u, pr)
        v = View(u, s)
        g, m = fresh("g", "I"), fresh("m", "I")
        u.hyp(le(0, g), lt(g, NS), le(0, m), lt(m, pk(g)))
        mean = mul(Fraction(1, 2), add(v.time(g, m, Q), v.time(g, add(m, 1), Q)))
        loc = div(sub(midp(g, m), T0), sub(T1, T0))
        u.oblige("time of a mid-point", eq(mean, add(v.T0(Q), mul(v.dur(Q), add(v.W(g, Q), mul(v.w(g, Q), loc))))))
        with CTX.under(ge(add(g, 1), 1), lt(add(g, 1), NS)):
            # a shared node has one time: index P(g) + p(g) is node 0 of the next segment
            # (end points of every node set: C01)
            u.hyp(eq(tau(pk(g), pk(g)), T1), eq(tau(pk(add(g, 1)), ZERO), T0))
            lo = lambda s, j: div(sub(tau(pk(s), j), T0), sub(T1, T0))
            u.oblige("last node of a segment", eq(lo(g, pk(g)), 1))
            u.oblige("first node of the next segment", eq(lo(add(g, 1), ZERO), 0))
            at = lambda s, x: add(v.T0(Q), mul(v.dur(Q), add(v.W(s, Q), mul(v.w(s, Q), x))))
            u.eq("node times are affine in the local coordinate", v.time(g, m, Q), at(g, lo(g, m)))
            u.oblige("shared nodes", eq(at(g, ONE), at(add(g, 1), ZERO)))
    S.unit("mid-point times (lemma)", "lemma", build, theory(), COLLOC)


def solve_adaptive_unit(S):
    from . import traj
    for init in (False, True):
        for re in (False, True):
            for warm in (False, True):
                def build(u, init=init, re=re, warm=warm):
                    I = u.I
                    pr = Prob(u, None)
                    s = adaptive(u, pr)
                    Z, xs = Opaque("Z"), Opaque("x*")
                    CTX.set(s, "Z", Z)
                    CTX.set(s, "_nlpsolver_initialized", init)
                    u.satisfiable()
                    made, runs, wcalls = [], [], []
                    result = PDict({"x": xs, "f": Opaque("f*"), "lam_x": Opaque("lx"), "lam_g": Opaque("lg")})

                    def solver(I, a, k):
                        runs.append((list(a), dict(k)))
                        return result
                    bounds = [{k: Opaque("%s of NLP %d" % (k, i)) for k in ("lbg", "ubg", "lbx", "ubx")} for i in (0, 1)]
                    CTX.set(s, "nlp_solver", PyFn(solver, "nlp_solver") if init else None)
                    if init:
                        CTX.set(s, "nlp_bounds", PDict(dict(bounds[0])))

                    def create(I, v):
                        made.append((v["solver"], v["options"]))
                        CTX.set(s, "nlp_solver", PyFn(solver, "nlp_solver"))
                        CTX.set(s, "nlp_bounds", PDict(dict(bounds[1])))
                        CTX.set(s, "_nlpsolver_initialized", True)
                    I.contracts["mpopt_adaptive.create_solver"] = Con(create)
                    ini = PDict({"x": Opaque("given x")}) if warm else None
                    ws = {"x0": Opaque("x0"), "lam_x0": Opaque("lx0")} if warm else {"x0": Opaque("default")}

                    def warmf(I, v):
                        wcalls.append(v["solution"])
                        return PDict(dict(ws))
                    I.contracts["mpopt.get_solver_warm_start_input_parameters"] = Con(warmf)
                    I.hooks["cafun"] = traj.eval_hook(u, s, Z, xs, True)
                    opts = PDict({"k": Opaque("v")})

                    def post(r):
                        n_made, n_runs, wc = list(made), list(runs), list(wcalls)
                        del made[:], runs[:], wcalls[:]
                        build_ = (not init) or re
                        u.record("the NLP is rebuilt on the first solve or when asked, only", "number of builds", len(n_made) == (1 if build_ else 0))
                        if build_ and n_made:
                            u.record("solver and options are passed on", "create_solver arguments", n_made[0][0] == "SOLVER" and n_made[0][1] is opts)
                        u.record("one NLP solve", "number of solver calls", len(n_runs) == 1)
                        if len(n_runs) != 1:
                            return
                        k = {a: I.force(b) for a, b in n_runs[0][1].items()}
                        want = dict(ws)
                        want.update(bounds[1 if build_ else 0])
                        u.record("the solver receives the warm start and the bounds of the assembled NLP", "solver inputs",
                                 not n_runs[0][0] and set(k) == set(want) and all(k[a] is b for a, b in want.items()))
                        u.record("warm start from the given solution", "argument", len(wc) == 1 and wc[0] is ini)
                        u.record("the solver's result is returned", "result", r is result)
                        w = I.getattr(s, "_nlp_sw_params")
                        g, q = fresh("g", "I"), fresh("qq", "I")
                        u.oblige("one stored width per segment and phase", eq(lib.length(I, w), mul(NS, NP)))
                        with CTX.under(le(0, g), lt(g, NS), le(0, q), lt(q, NP)):
                            u.eq("stored width of segment s of phase q is the optimized one", term(lib.getitem(I, w, add(mul(q, NS), g))), A("V.h", g, q))
                    u.run(lambda: u.call(s, "solve", ini, re, "SOLVER", opts, PDict({})), post)
                S.unit("solve/%s%s%s" % ("initialised" if init else "fresh", "/reinitialise" if re else "", "/initial solution" if warm else ""), "mpopt_adaptive.solve", build, theory(), COLLOC)
