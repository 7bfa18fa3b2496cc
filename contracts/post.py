"""Contracts of the evaluation of solutions (C17) and of post-processing (C18)."""
from fractions import Fraction
from pyvc.verify import *
from pyvc import lib, loops
from .colloc import P, pk, T0, T1, Con, tau, NS
from .nlp import *
from .grid import swp, widths_theory
from . import traj

NT = lambda s: app("nt", (num(s),), "I")
TN = lambda s, e: A("TN", num(s), num(e))


class Sol:
    """values of the decision variables and node times in the given solution"""

    def __init__(self, u, pr, cls="mpopt", grid=None):
        self.u, self.pr, I = u, pr, u.I
        self.s = s = optimizer(u, pr, cls)
        self.v = View(u, s)
        self.Z, self.xs = Opaque("Z"), Opaque("x*")
        CTX.set(s, "Z", self.Z)
        CTX.set(s, "_nlp_sw_params", leafvec("np", mul(NS, pr.np), lambda i: A("swp", i)))
        CTX.set(s, "time_grid", PList(n=pr.np, fn=lambda q: PList(n=N(), fn=lambda k: A("TG", q, k))))
        self.solution = PDict({"x": self.xs, "f": Opaque("f*"), "lam_x": Opaque("lx"), "lam_g": Opaque("lg")})
        I.hooks["cafun"] = traj.eval_hook(u, s, self.Z, self.xs, cls == "mpopt_adaptive")
        u.th.on("nt", lambda a, t: [ge(t, 0)])

    def X(self, q, k, i):
        return A("V.x", q, k, i)

    def U(self, q, k, i):
        return A("V.u", q, k, i)

    def T(self, q, k):
        return A("V.t", q, k)

    def t0(self, q):
        return div(A("V.t0", q, ZERO), ST)

    def tf(self, q):
        return div(A("V.tf", q, ZERO), ST)

    def w(self, k, q):
        return swp(q, k)

    def nodes(self, n=NT, x=TN):
        return PList(n=NS, fn=lambda s: leafvec("np", n(s), lambda e: x(s, e)))

    def interp(self, h, s, x, i, der=0, q=Q):
        """value (derivative) at local coordinate x of segment s of the solution's interpolant"""
        f = self.X if h == "x" else self.U
        return SUMc(N(), lambda c: mul(seg_cols(c, s, lambda j: A("DL%d" % der if der else "LV", pk(s), j, x)), f(q, c, i)))

    def time(self, s, x, q=Q):
        a, b = self.T(q, P(s)), self.T(q, P(add(s, 1)))
        return add(a, mul(sub(b, a), div(sub(x, T0), sub(T1, T0))))

    def rows(self):
        return lib.DB(NS, lambda s: lib.DL(NT(s)))

    def mat(self, h, der=0):
        n = NX if h == "x" else NU
        return Tensor("DM", (self.rows(), lib.DL(n)), lambda r, c: self.interp(h, r[1], TN(r[1], r[2]), c, der))

    def times(self):
        return Tensor("DM", (self.rows(), lib.DL(1)), lambda r, c: self.time(r[1], TN(r[1], r[2])))


def c17(S):
    for nm, na, cls in [(a, b, "mpopt") for a, b in variants()] + [("width-optimising", None, "mpopt_adaptive")]:
      for given in (True, False):
        def build(u, na=na, given=given, cls=cls):
            pr = Prob(u, na)
            z = Sol(u, pr, cls)
            u.satisfiable()
            nodes = z.nodes()
            if not given:
                own_grid(u, z, nodes)

            def post(r):
                Xi, Ui, ti, a, DXi, DUi, tg, t0, tf = r
                u.eq("interpolated states", Xi, z.mat("x"))
                u.eq("interpolated controls", Ui, z.mat("u"))
                u.eq("state derivatives", DXi, z.mat("x", 1))
                u.eq("control derivatives", DUi, z.mat("u", 1))
                u.eq("times", ti, z.times())
                u.record("the points used are returned", "target_nodes", tg is nodes)
                u.eq("start time", t0, leafvec("np", ONE, lambda i: z.t0(Q)))
                u.eq("end time", tf, leafvec("np", ONE, lambda i: z.tf(Q)))
                u.eq("parameters", a, leafvec("DM", pr.na, lambda i: A("V.a", i, Q)))
            u.run(lambda: u.call(z.s, "interpolate_single_phase", z.solution, Q, nodes if given else None, None, PDict({})), post)
        S.unit("interpolation/%s%s" % (nm, "" if given else "/own grid"), "mpopt.interpolate_single_phase", build, theory(), COLLOC)

    residual_units(S)
    all_phases(S)
    state_units(S)
    time_lemma(S)


def none(u, name, v):
    r = lib.is_same(u.I, v, None)
    u.oblige(name, r if isinstance(r, Term) else TRUE if r else FALSE)


def con_interpolate(z):
    """contract of interpolate_single_phase, proved in the units above"""
    def f(I, v):
        CTX.oblige("own phase", eq(term(v["phase"]), Q))
        if v["solution"] is not z.solution or v["target_nodes"] is not z.given:
            CTX.oblige("the given solution and points are interpolated", FALSE)
        one = lambda f: leafvec("np", ONE, lambda i: f)
        return (z.mat("x"), z.mat("u"), z.times(), leafvec("DM", z.pr.na, lambda i: A("V.a", i, Q)), z.mat("x", 1), z.mat("u", 1), z.given, one(z.t0(Q)), one(z.tf(Q)))
    return Con(f)


def dynamics_at(z, s, x, t):
    """the user's dynamics at the unscaled interpolated point"""
    xs = vecc(NX, lambda j: div(z.interp("x", s, x, j), A("sx", j)))
    us = vecc(NU, lambda j: div(z.interp("u", s, x, j), A("su", j)))
    a = () if is_num(z.pr.na, 0) else (vecc(z.pr.na, lambda j: div(A("V.a", j, Q), A("sa", j))),)
    return lambda i: A("dyn", Q, i, xs, us, t, *a)


def residual_units(S):
    for nm, na in variants():
        def build(u, na=na):
            pr = Prob(u, na)
            z = Sol(u, pr)
            u.satisfiable()
            z.given = z.nodes()
            u.I.contracts["mpopt.interpolate_single_phase"] = con_interpolate(z)
            u.I.guess_hints.append(lambda k: SUM(0, k, NT))

            def scaled(s, e, i):
                x = TN(s, e)
                h = div(mul(sub(z.tf(Q), z.t0(Q)), swp(Q, s)), sub(T1, T0))
                return mul(h, mul(A("sx", i), dynamics_at(z, s, x, z.time(s, x))(i)))

            def post(r):
                ti, res, dyn = r
                k = fresh("k", "I")
                for nm, lst in (("times", ti), ("residuals", res), ("dynamics", dyn)):
                    u.oblige("one entry per segment: " + nm, eq(lib.length(u.I, lst), NS))
                with CTX.under(le(0, k), lt(k, NS)):
                    with CTX.under(ge(NT(k), 1)):
                        e = NT(k)
                        u.eq("times of segment k", lib.getitem(u.I, ti, k), leafvec("np", e, lambda i: z.time(k, TN(k, i))))
                        u.eq("residuals of segment k", lib.getitem(u.I, res, k), matrix("np", e, NX, lambda e, i: sub(z.interp("x", k, TN(k, e), i, 1), scaled(k, e, i))))
                        u.eq("dynamics of segment k", lib.getitem(u.I, dyn, k), matrix("np", e, NX, lambda e, i: scaled(k, e, i)))
                    with CTX.under(eq(NT(k), 0)):
                        u.eq("no times", lib.length(u.I, lib.getitem(u.I, ti, k)), ZERO)
                        none(u, "no residuals", lib.getitem(u.I, res, k))
            u.run(lambda: u.call(z.s, "get_dynamics_residuals_single_phase", z.solution, Q, z.given), post)
        S.unit("dynamics residual/%s" % nm, "mpopt.get_dynamics_residuals_single_phase", build, theory(), COLLOC)


# ---------------------------------------------------------------- all phases
def con_grid(I, v):
    """points of a phase; the grid type is a number: the phase's own one is gtype(phase)"""
    q, g = term(v["phase"]), v["grid_type"]
    CTX.oblige("phase of the grid", and_(le(0, q), lt(q, NP)))
    g = A("gtype", q) if g is None else var("grid:" + g, "R") if isinstance(g, str) else term(g)
    return PList(n=NS, fn=lambda s: leafvec("np", app("ntg", (g, q, num(s)), "I"), lambda e: A("TNg", g, q, num(s), e)))


def per_segment(nt, f):
    """list over segments: value, None for segments without points"""
    return PList(n=NS, fn=lambda s: Union([(ge(nt(s), 1), f(s)), (lt(nt(s), 1), None)]))


def con_single(z, heads, ranks, empty=False):
    """results of one phase as functions of phase, segment and point"""
    def f(I, v):
        q = term(v["phase"])
        CTX.oblige("one of the phases", and_(le(0, q), lt(q, NP)))
        if v["solution"] is not z.solution:
            CTX.oblige("the given solution", FALSE)
        nodes = v["target_nodes"] if "target_nodes" in v else v["nodes"]
        nt, X = pts(I, nodes)
        out = []
        for h, n in zip(heads, ranks):
            if n is None:
                out.append(per_segment(nt, lambda s, h=h: leafvec("np", nt(s), lambda e: A(h, q, s, X(s, e)))))
            else:
                out.append(per_segment(nt, lambda s, h=h, n=n: matrix("np", nt(s), n, lambda e, i: A(h, q, s, i, X(s, e)))))
        return tuple(out)
    return Con(f)


def phases_unit(S, name, meth, single, order, heads, ranks, default):
    """default: grid code when no type is given (None: the phase's own)"""
    for mode in ("nodes", "own grid", "grid type") if meth != "get_states_residuals" else ("nodes", "own grid", "one phase"):
        def build(u, mode=mode):
            pr = Prob(u, None)
            z = Sol(u, pr)
            CTX.set(z.s, "grid_type", PList(n=NP, fn=lambda q: A("gtype", q)))
            u.th.on("ntg", lambda a, t: [ge(t, 0)])
            u.I.contracts["mpopt.get_residual_grid_taus"] = Con(con_grid)
            u.I.contracts["mpopt." + single] = con_single(z, heads, ranks)
            kw = {}
            G = var("gcode", "R")
            g = lambda q: A("gtype", q)
            if mode == "nodes":
                g = lambda q: var("gnodes", "R")
                kw["nodes"] = PList(n=NP, fn=lambda q: con_grid(u.I, {"phase": q, "grid_type": g(q)}))
            elif mode == "one phase":
                kw["phases"] = PList([Q])
            elif mode == "grid type":
                kw["grid_type"], g = G, lambda q: G
            elif default is not None:
                g = lambda q: var("grid:" + default, "R")
            u.satisfiable()

            def post(r):
                k = fresh("k", "I")
                q = Q
                nt = app("ntg", (g(q), q, k), "I")
                for (nm, p), h, n in zip(order, heads, ranks):
                    lst = r[p]
                    u.oblige("one entry per phase: " + nm, eq(lib.length(u.I, lst), NP))
                    lq = lib.getitem(u.I, lst, q)
                    u.oblige("one entry per segment: " + nm, eq(lib.length(u.I, lq), NS))
                    with CTX.under(le(0, k), lt(k, NS), ge(nt, 1)):
                        x = lambda e: A("TNg", g(q), q, k, e)
                        want = leafvec("np", nt, lambda e: A(h, q, k, x(e))) if n is None else matrix("np", nt, n, lambda e, i: A(h, q, k, i, x(e)))
                        u.eq("%s of segment k of phase q" % nm, lib.getitem(u.I, lq, k), want)
            u.run(lambda: u.call(z.s, meth, z.solution, **kw), post)
        S.unit("%s/%s" % (name, mode), "mpopt." + meth, build, theory(), COLLOC)


def all_phases(S):
    phases_unit(S, "dynamics residuals", "get_dynamics_residuals", "get_dynamics_residuals_single_phase", [("times", 0), ("residuals", 1)], ["tim", "resid", "dynv"], [None, NX, NX], None)
    phases_unit(S, "second derivatives", "get_state_second_derivative", "get_state_second_derivative_single_phase", [("times", 0), ("states", 1), ("controls", 2)], ["tim", "ddx", "ddu"], [None, NX, NU], "spectral")
    for nm, na in variants():
        for given in (True, False):
            def build(u, na=na, given=given):
                pr = Prob(u, na)
                z = Sol(u, pr)
                u.satisfiable()
                u.I.guess_hints.append(lambda k: SUM(0, k, NT))
                nodes = z.nodes()
                if not given:
                    own_grid(u, z, nodes)

                def post(r):
                    k = fresh("k", "I")
                    names = ("times", "second derivatives of the states", "second derivatives of the controls")
                    for nm, lst in zip(names, r):
                        u.oblige("one entry per segment: " + nm, eq(lib.length(u.I, lst), NS))
                    with CTX.under(le(0, k), lt(k, NS), ge(NT(k), 1)):
                        ti, dx, du = [lib.getitem(u.I, l, k) for l in r]
                        one = lib.DL(ONE)
                        u.eq(names[0], ti, matrix("np", NT(k), ONE, lambda i, j: z.time(k, TN(k, i))))
                        for nm, got, h, n in ((names[1], dx, "x", NX), (names[2], du, "u", NU)):
                            u.eq(nm, got, Tensor("np", (lib.DL(NT(k)), lib.DL(n), one), lambda e, i, o, h=h: z.interp(h, k, TN(k, lib.flat_of(lib.DL(NT(k)), e)), lib.flat_of(lib.DL(n), i), 2)))
                u.run(lambda: u.call(z.s, "get_state_second_derivative_single_phase", z.solution, Q, nodes if given else None), post)
            S.unit("second derivative/%s%s" % (nm, "" if given else "/own grid"), "mpopt.get_state_second_derivative_single_phase", build, theory(), COLLOC)


def own_grid(u, z, nodes):
    """the grid contract returns `nodes` for the own grid type of the own phase"""
    CTX.set(z.s, "grid_type", PList(n=NP, fn=lambda q: A("gtype", q)))

    def grid(I, v):
        q, g = term(v["phase"]), v["grid_type"]
        CTX.oblige("grid of the own phase", eq(q, Q))
        if g is not None:
            CTX.oblige("own grid type", eq(term(g), A("gtype", Q)))
        return nodes
    u.I.contracts["mpopt.get_residual_grid_taus"] = Con(grid)


# ---------------------------------------------------------------- state residuals
def con_custom(I, v):
    """customized nodes: kept by key"""
    s, rd = v["self"], I.force(v["roots_dict"])
    CTX.set(s, "$custom", loops.dict_content(rd.v))


def con_weights(z):
    def f(I, v):
        """weights of a customized node set: the segment's own points (C02)"""
        s, key = v["self"], v["key"]
        tag, k = lib.skey(key)
        c = s.d.get("$custom")
        if c is None:
            raise Unsupported("quadrature weights of unknown nodes")
        CTX.oblige("customized nodes present", c.has(tag, k))
        nodes = c.get(tag, k)
        n = lib.length(I, nodes)
        CTX.oblige("one segment's points", and_(le(0, k), lt(k, NS), eq(n, NT(k))))
        e, e2 = fresh("e", "I"), fresh("e", "I")
        with CTX.under(le(0, e), lt(e, n)):
            CTX.oblige("nodes are the points of the segment", eq(term(lib.getitem(I, nodes, e)), TN(k, e)))
            with CTX.under(lt(e, e2), lt(e2, n)):
                CTX.oblige("distinct nodes", ne(TN(k, e), TN(k, e2)))
        a = T0 if v["tau0"] is None else term(v["tau0"])
        b = T1 if v["tau1"] is None else term(v["tau1"])
        return Tensor("DM", (lib.DL(n), lib.DL(1)), lambda j, o: A("QWC", k, lib.flat_of(lib.DL(n), j), a, b))
    return Con(f)


def state_units(S):
    phases_unit(S, "state residuals", "get_states_residuals", "compute_states_from_solution_dynamics", [("states", 0), ("controls", 1), ("times", 2), ("residuals", 3)], ["sx_", "su_", "tim", "sres"], [NX, NU, None, NX], None)
    for nm, na in variants():
        for given in (True, False):
            def build(u, na=na, given=given):
                pr = Prob(u, na)
                z = Sol(u, pr)
                u.th.on_pair("TN", lambda a, b: [implies(and_(eq(a.args[0], b.args[0]), le(0, a.args[1]), lt(a.args[1], b.args[1]), lt(b.args[1], NT(a.args[0]))), lt(a, b))])
                u.satisfiable()
                z.given = z.nodes()
                u.I.contracts["mpopt.interpolate_single_phase"] = con_interpolate(z)
                u.I.contracts["Collocation.init_polynomials_with_customized_roots"] = Con(con_custom)
                u.I.contracts["Collocation.get_quadrature_weights"] = con_weights(z)
                u.I.guess_hints.append(lambda k: SUM(0, k, NT))
                if not given:
                    own_grid(u, z, z.given)

                def xint(k, e, i):
                    """start state of the segment plus the integral of the interpolated dynamics"""
                    h = div(mul(sub(z.tf(Q), z.t0(Q)), swp(Q, k)), sub(T1, T0))
                    f = lambda j: mul(A("sx", i), dynamics_at(z, k, TN(k, j), z.time(k, TN(k, j)))(i))
                    return add(z.X(Q, P(k), i), mul(h, SUMc(NT(k), lambda j: mul(A("QWC", k, j, T0, TN(k, e)), f(j)))))

                def post(r):
                    k = fresh("k", "I")
                    names = ("integrated states", "controls", "times", "state residuals")
                    for nm, lst in zip(names, r):
                        u.oblige("one entry per segment: " + nm, eq(lib.length(u.I, lst), NS))
                    with CTX.under(le(0, k), lt(k, NS), ge(NT(k), 1)):
                        xi, ui, ti, res = [lib.getitem(u.I, l, k) for l in r]
                        u.eq(names[0], xi, matrix("np", NT(k), NX, lambda e, i: xint(k, e, i)))
                        one = lib.DL(ONE)
                        u.eq(names[1], ui, Tensor("np", (lib.DL(NT(k)), one, lib.DL(NU)), lambda e, o, i: z.interp("u", k, TN(k, lib.flat_of(lib.DL(NT(k)), e)), lib.flat_of(lib.DL(NU), i))))
                        u.eq(names[2], ti, leafvec("np", NT(k), lambda e: z.time(k, TN(k, e))))
                        u.eq(names[3], res, PList(n=NT(k), fn=lambda e: leafvec("np", NX, lambda i: sub(z.interp("x", k, TN(k, e), i), xint(k, e, i)))))
                u.run(lambda: u.call(z.s, "compute_states_from_solution_dynamics", z.solution, Q, z.given if given else None), post)
            S.unit("state residual/%s%s" % (nm, "" if given else "/own grid"), "mpopt.compute_states_from_solution_dynamics", build, theory(), COLLOC)


def time_lemma(S):
    """with the node times of C05, times between the boundary nodes of a segment are affine"""
    def build(u):
        pr = Prob(u, 0)
        s = optimizer(u, pr)
        v = View(u, s)
        k, x = fresh("k", "I"), fresh("x", "R")
        u.hyp(le(0, k), lt(k, NS), eq(tau(pk(k), ZERO), T0), eq(tau(pk(k), pk(k)), T1))
        a, b = v.time(k, ZERO, Q), v.time(k, pk(k), Q)
        loc = div(sub(x, T0), sub(T1, T0))
        u.eq("start of a segment", a, add(v.T0(Q), mul(v.dur(Q), v.W(k, Q))))
        u.eq("physical time of a local coordinate", add(a, mul(sub(b, a), loc)), add(v.T0(Q), mul(v.dur(Q), add(v.W(k, Q), mul(v.w(k, Q), loc)))))
    S.unit("physical time (lemma)", "lemma", build, theory(), COLLOC)


# ---------------------------------------------------------------- C18
MI = var("mi", "I")


def trajectory(z, q, widths):
    """the function made by init_trajectories(q), as proved in c18"""
    def f(I, a, kw):
        if len(a) != 2 or kw or I.force(a[0]) is not z.xs or I.force(a[1]) is not widths:
            CTX.oblige("evaluated at the solution and its widths", FALSE)
        return trajectory_values(z, q)
    return PyFn(f, "trajectory")


def trajectory_values(z, q):
    col = lambda n, f: Tensor("DM", (lib.DL(n), lib.DL(1)), lambda i, o: f(lib.flat_of(lib.DL(n), i)))
    return (matrix("DM", N(), NX, lambda k, i: z.X(q, k, i)), matrix("DM", N(), NU, lambda k, i: z.U(q, k, i)), col(N(), lambda k: z.T(q, k)),
            col(ONE, lambda i: z.t0(q)), col(ONE, lambda i: z.tf(q)), col(z.pr.na, lambda i: A("V.a", i, q)))


def post_object(u, z, scaling, options=None):
    I = u.I
    widths = Opaque("widths")
    o = dict(z.pr.o.d)
    d = {"nx": NX, "nu": NU, "na": z.pr.na, "nPh": NP, "ns": NS, "poly_orders": PList(n=NS, fn=pk), "N": N(), "phases_to_plot": Opaque("to plot"),
         "scale_x": o["scale_x"], "scale_u": o["scale_u"], "scale_a": o["scale_a"], "scale_t": ST, "scaling": scaling, "colloc_scheme": Opaque("scheme"),
         "tau0": T0, "tau1": T1, "interpolation_depth": num(3), "seg_widths": widths, "residuals": None}
    d["phases_to_plot"] = PList([PList(n=var("npp", "I"), fn=lambda k: app("pplot", (k,), "I"))])
    u.hyp(ge(var("npp", "I"), 1))
    u.th.on("pplot", lambda a, t: [le(0, t), lt(t, NP)])
    u.th.on("ph", lambda a, t: [le(0, t), lt(t, NP)])
    s = Inst("post_process")
    traj_ = PList(n=NP, fn=lambda q: trajectory(z, q, widths))
    I.run_func(I.getattr(s, "__init__").fn, [s, z.solution, traj_, PDict(d)], {})
    return s


def data(z, q, scaling):
    """rows of one phase"""
    sc = (lambda h, i: ONE) if scaling else (lambda h, i: A(h, i))
    at = lambda q, h, k, i: div((z.X if h == "x" else z.U)(q, k, i), sc("s" + h, i))
    return at, lambda q, i: div(A("V.a", i, q), sc("sa", i))


def c18(S):
    for nm, na, cls in [(a, b, "mpopt") for a, b in variants()] + [("width-optimising", None, "mpopt_adaptive")]:
        def build(u, na=na, cls=cls):
            pr = Prob(u, na)
            z = Sol(u, pr, cls)
            u.satisfiable()

            def post(f):
                r = u.I.call(f, [z.xs, u.I.getattr(z.s, "_nlp_sw_params")], {})
                for nm, got, want in zip(("states", "controls", "times", "start time", "end time", "parameters"), r, trajectory_values(z, Q)):
                    u.eq(nm, got, want)
            u.run(lambda: u.call(z.s, "init_trajectories", Q), post)
        S.unit("trajectory function/%s" % nm, cls + ".init_trajectories", build, theory(), COLLOC)
    for nm, na in variants():
        for scaling in (False, True):
            def build(u, na=na, scaling=scaling):
                pr = Prob(u, na)
                z = Sol(u, pr)
                s = post_object(u, z, scaling)
                u.satisfiable()

                def post(r):
                    x, uu, t, a = r
                    at, par = data(z, Q, scaling)
                    u.eq("states", x, matrix("np", N(), NX, lambda k, i: at(Q, "x", k, i)))
                    u.eq("controls", uu, matrix("np", N(), NU, lambda k, i: at(Q, "u", k, i)))
                    u.eq("times", t, matrix("np", N(), ONE, lambda k, i: z.T(Q, k)))
                    u.eq("parameters", a, matrix("np", pr.na, ONE, lambda i, o: par(Q, i)))
                u.run(lambda: u.call(s, "get_trajectories", Q), post)
            S.unit("trajectories/%s%s" % (nm, "/scaled" if scaling else ""), "post_process.get_trajectories", build, theory(), COLLOC)
    stacked_units(S)
    interpolated_units(S)
    results_units(S)


def results_units(S):
    """what the data object is made of"""
    for cls in ("mpopt", "mpopt_adaptive"):
        for scaling in (False, True):
            for rx in (False, True):
                for rdx in (False, True):
                    def build(u, cls=cls, scaling=scaling, rx=rx, rdx=rdx):
                        pr = Prob(u, None)
                        z = Sol(u, pr, cls)
                        I = u.I
                        npp = var("npp", "I")
                        u.hyp(ge(npp, 1))
                        first = PList(n=npp, fn=lambda k: app("pplot", (k,), "I"))
                        CTX.set(I.getattr(z.s, "_ocp"), "phases_to_plot", PList([first]))
                        widths = I.getattr(z.s, "_nlp_sw_params")
                        orders = I.getattr(z.s, "poly_orders")
                        calls = []
                        ts = lambda q: app("TRAJ", (num(q),), "R")
                        I.contracts[cls + ".init_trajectories"] = Con(lambda I, v: ts(term(v["phase"])))
                        out = [Opaque("r%d" % i) for i in range(6)]
                        I.contracts["mpopt.get_states_residuals"] = Con(lambda I, v: (calls.append(("x", v["solution"])), tuple(out[:4]))[1])
                        I.contracts[cls + ".get_dynamics_residuals"] = Con(lambda I, v: (calls.append(("dx", v["solution"])), tuple(out[4:]))[1])
                        I.contracts["mpopt.get_dynamics_residuals"] = I.contracts[cls + ".get_dynamics_residuals"]
                        u.satisfiable()

                        def post(p):
                            c = list(calls)
                            del calls[:]
                            g = lambda n: I.getattr(p, n)
                            u.record("residuals of the given solution", "solution", all(s is z.solution for n, s in c))
                            u.record("the data object holds the given solution", "solution", g("solution") is z.solution)
                            u.eq("one trajectory function per phase", g("trajectories"), PList(n=NP, fn=ts))
                            for n, v in (("nx", NX), ("nu", NU), ("na", pr.na), ("tau0", T0), ("tau1", T1)):
                                u.eq(n, g(n), v)
                            u.record("scaling as requested", "scaling", g("scaling") is scaling)
                            u.eq("default phases", g("phases"), first)
                            o = g("options")
                            item = lambda n: lib.getitem(I, o, n)
                            for n, v in (("scale_x", NX), ("scale_u", NU), ("scale_a", pr.na)):
                                u.eq(n, item(n), leafvec("np", v, lambda i, n=n: A("s" + n[-1], i)))
                            u.eq("segment widths of the optimizer", item("seg_widths"), widths)
                            u.eq("degrees of the optimizer", item("poly_orders"), orders)
                            u.record("grid type of the optimizer", "colloc_scheme", item("colloc_scheme") is I.getattr(z.s, "colloc_scheme"))
                            u.record("scaling option", "scaling", item("scaling") is scaling)
                            res = item("residuals")
                            if not rx and not rdx:
                                u.record("no residuals", "residuals", res is None)
                                return
                            u.record("requested residuals", "residuals", isinstance(res, PDict) and set(res.v) == ({"t_x"} if rx else set()) | ({"t_dx"} if rdx else set()))
                            if rx:
                                x = res.v["t_x"].items()
                                u.record("state residuals and their times", "t_x", len(x) == 2 and x[0] is out[2] and x[1] is out[3])
                            if rdx:
                                x = res.v["t_dx"].items()
                                u.record("dynamics residuals and their times", "t_dx", len(x) == 2 and x[0] is out[4] and x[1] is out[5])
                        args = (False, scaling, rx, rdx) if (scaling, rx, rdx) != (False, False, True) else (False,)
                        u.run(lambda: u.call(z.s, "process_results", z.solution, *args), post)
                    S.unit("results/%s%s%s%s" % (cls, "/scaled" if scaling else "", "/state residuals" if rx else "", "/dynamics residuals" if rdx else ""),
                           cls + ".process_results", build, theory(), COLLOC)


def con_traj(z, scaling):
    def f(I, v):
        q = term(v["phase"])
        CTX.oblige("one of the phases", and_(le(0, q), lt(q, NP)))
        at, par = data(z, q, scaling)
        return (matrix("np", N(), NX, lambda k, i: at(q, "x", k, i)), matrix("np", N(), NU, lambda k, i: at(q, "u", k, i)),
                matrix("np", N(), ONE, lambda k, i: z.T(q, k)), matrix("np", z.pr.na, ONE, lambda i, o: par(q, i)))
    return Con(f)


def phase_lists():
    """requested phases: one, or any number of at least two, or the default ones"""
    ph = lambda k: app("ph", (num(k),), "I")
    m = var("nphreq", "I")
    yield "one phase", None, ph, ONE, lambda u: PList([ph(0)])
    yield "several phases", ge(m, 2), ph, m, lambda u: PList(n=m, fn=ph)
    yield "default phases", None, lambda k: app("pplot", (num(k),), "I"), var("npp", "I"), lambda u: None


def stack_of(size, ph, m, f):
    """rows of several phases in the requested order: f(phase, row)"""
    from pyvc.lib import DB
    return DB(m, lambda k: size), lambda r: f(ph(r[1]), r[2])


def stacked(ph, m, d, cols, f):
    """rows of the requested phases, one after another; f(q, row, column)"""
    if is_num(m, 1):
        return Tensor("np", (d,) + cols, lambda r, *c: f(ph(0), r, *c))
    dims = lib.DB(m, lambda k: d)
    return Tensor("np", (dims,) + cols, lambda r, *c: f(ph(r[1]), r[2], *c))


def stacked_units(S):
    for nm, req, ph, m, arg in phase_lists():
        for vn, na in variants():
            def build(u, na=na, req=req, ph=ph, m=m, arg=arg):
                pr = Prob(u, na)
                z = Sol(u, pr)
                s = post_object(u, z, False)
                if req is not None:
                    u.hyp(req)
                u.I.contracts["post_process.get_trajectories"] = con_traj(z, False)
                u.satisfiable()

                def post(r):
                    x, uu, t, a = r
                    at, par = data(z, None, False)
                    rows, arows = lib.DL(N()), lib.DL(pr.na)
                    fl = lib.flat_of
                    for c, n, got in (("x", NX, x), ("u", NU, uu)):
                        d = lib.DL(n)
                        u.eq("states" if c == "x" else "controls", got, stacked(ph, m, rows, (d,), lambda q, r, i, c=c, d=d: at(q, c, fl(rows, r), fl(d, i))))
                    u.eq("times", t, stacked(ph, m, rows, (lib.DL(ONE),), lambda q, r, o: z.T(q, fl(rows, r))))
                    u.eq("parameters", a, stacked(ph, m, arows, (lib.DL(ONE),), lambda q, r, o: par(q, fl(arows, r))))
                u.run(lambda: u.call(s, "get_original_data", *([arg(u)] if arg(u) is not None else [])), post)
            S.unit("original data/%s/%s" % (nm, vn), "post_process.get_original_data", build, theory(), COLLOC)


NPT = lambda s: ite(eq(num(s), 0), MI, sub(MI, 1))


def PTX(s, e):
    """interpolation points: uniform on the segment; the start belongs to the first segment only"""
    return add(T0, mul(sub(T1, T0), div(ite(eq(num(s), 0), num(e), add(num(e), 1)), sub(MI, 1))))


def con_original(z, scaling):
    t = con_traj(z, scaling)

    def f(I, v):
        p = I.force(v["phases"])
        if not (isinstance(p, PList) and p.concrete() and len(p.items()) == 1):
            raise Unsupported("data of several phases")
        return t.fn(I, {"self": v["self"], "phase": p.items()[0]})
    return Con(f)


def interpolant(z, q, h, s, x, i, scaling=False):
    at, par = data(z, q, scaling)
    return SUMc(N(), lambda c: mul(seg_cols(c, s, lambda j: A("LV", pk(s), j, x)), at(q, h, c, i)))


def interpolated_units(S):
    for nm, req, ph, m, arg in phase_lists():
        if arg(None) is None:
            continue
        for vn, na, scaling in [(a, b, False) for a, b in variants()] + [("scaled", None, True)]:
            def build(u, na=na, req=req, ph=ph, m=m, arg=arg, scaling=scaling):
                pr = Prob(u, na)
                z = Sol(u, pr)
                u.I.set_class_attr("post_process", "_INTERPOLATION_NODES_PER_SEG", MI)
                u.hyp(ge(MI, 2))
                s = post_object(u, z, scaling)
                if req is not None:
                    u.hyp(req)
                u.I.contracts["post_process.get_original_data"] = con_original(z, scaling)
                u.satisfiable()

                def post(r):
                    x, uu, t, a = r
                    at, par = data(z, None, scaling)
                    fl = lib.flat_of
                    rows = lib.DB(NS, lambda s: lib.DL(NPT(s)))
                    loc = lambda r: (r[1], fl(lib.DL(NPT(r[1])), r[2]))
                    for c, n, got in (("x", NX, x), ("u", NU, uu)):
                        d = lib.DL(n)
                        u.eq("states" if c == "x" else "controls", got, stacked(ph, m, rows, (d,), lambda q, r, i, c=c, d=d: interpolant(z, q, c, loc(r)[0], PTX(*loc(r)), fl(d, i), scaling)))
                    u.eq("times", t, stacked(ph, m, rows, (), lambda q, r: z.time(loc(r)[0], PTX(*loc(r)), q)))
                    al = lib.DL(pr.na)
                    u.eq("parameters", a, matrix("np", pr.na, m, lambda i, k: par(ph(k), i)))
                u.run(lambda: u.call(s, "get_interpolated_data", arg(u)), post)
            S.unit("interpolated data/%s/%s" % (nm, vn), "post_process.get_interpolated_data", build, theory(), COLLOC)

    def taus(u):
        pr = Prob(u, 0)
        z = Sol(u, pr)
        s = post_object(u, z, False)
        n = var("n", "I")
        u.hyp(ge(n, 2))
        u.satisfiable()
        u.run(lambda: u.call(s, "get_interpolation_taus", n, leafvec("np", var("nto", "I"), lambda i: A("TO", i)), "uniform"),
              lambda r: u.eq("uniform points", r, leafvec("np", n, lambda i: add(T0, mul(sub(T1, T0), div(i, sub(n, 1)))))))
    S.unit("interpolation points", "post_process.get_interpolation_taus", taus, theory(), COLLOC)

    def order(u):
        pr = Prob(u, 0)
        z = Sol(u, pr)
        u.th.on_pair("V.t", lambda a, b: [implies(and_(eq(a.args[0], b.args[0]), le(0, a.args[1]), lt(a.args[1], b.args[1]), le(b.args[1], P(NS))), lt(a, b))])
        s, e = fresh("s", "I"), fresh("e", "I")
        u.hyp(ge(MI, 2), le(0, s), lt(s, NS), le(0, e), lt(add(e, 1), NPT(s)))
        u.satisfiable()
        rel = lambda s, e: div(ite(eq(s, 0), e, add(e, 1)), sub(MI, 1))
        a, b = z.T(Q, P(s)), z.T(Q, P(add(s, 1)))
        u.oblige("segments have positive duration", lt(a, b))
        u.oblige("relative positions increase", lt(rel(s, e), rel(s, add(e, 1))))
        t = lambda s, r: add(z.T(Q, P(s)), mul(sub(z.T(Q, P(add(s, 1))), z.T(Q, P(s))), r))
        u.eq("interpolation times", z.time(s, PTX(s, e)), t(s, rel(s, e)))
        r1, r2 = fresh("r", "R"), fresh("r", "R")
        with CTX.under(lt(r1, r2)):
            u.oblige("times increase inside a segment", lt(t(s, r1), t(s, r2)))
        u.oblige("last point of a segment is its end", eq(rel(s, sub(NPT(s), 1)), 1))
        u.oblige("the last time of a segment is the next segment's start", eq(t(s, ONE), b))
        with CTX.under(lt(add(s, 1), NS)):
            u.oblige("the next segment continues after it", lt(0, rel(add(s, 1), ZERO)))
        u.oblige("the first point is the phase start", eq(z.time(ZERO, PTX(ZERO, ZERO)), z.T(Q, ZERO)))
    S.unit("interpolated times increase (lemma)", "lemma", order, theory(), COLLOC)

    for interp in (False, True):
        for given in (True, False):
            def pick(u, interp=interp, given=given):
                pr = Prob(u, None)
                z = Sol(u, pr)
                s = post_object(u, z, False)
                calls = []
                out = {n: tuple(Opaque("%s %d" % (n, i)) for i in range(4)) for n in ("orig", "interp")}
                mk = lambda n: Con(lambda I, v: (calls.append((n, v["phases"])), out[n])[1])
                u.I.contracts["post_process.get_original_data"] = mk("orig")
                u.I.contracts["post_process.get_interpolated_data"] = mk("interp")
                ph = PList(n=var("nphreq", "I"), fn=lambda k: app("ph", (k,), "I")) if given else PList([])
                u.hyp(ge(var("nphreq", "I"), 1))
                u.satisfiable()

                def post(r):
                    c = list(calls)
                    del calls[:]
                    n = "interp" if interp else "orig"
                    u.record("data of the requested kind", n, isinstance(r, tuple) and len(r) == 4 and all(a is b for a, b in zip(r, out[n])))
                    u.record("one evaluation", "calls", len(c) == 1 and c[0][0] == n)
                    if given:
                        u.record("requested phases", "phases", c[0][1] is ph)
                    else:
                        u.eq("default phases", c[0][1], PList(n=var("npp", "I"), fn=lambda k: app("pplot", (k,), "I")))
                u.run(lambda: u.call(s, "get_data", ph, interp), post)
            S.unit("data/%s%s" % ("interpolated" if interp else "original", "" if given else "/default phases"), "post_process.get_data", pick, theory(), COLLOC)
