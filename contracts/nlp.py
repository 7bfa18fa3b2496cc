"""Contracts of class mpopt up to the NLP (properties C05-C12).

Specification vocabulary (user data are uninterpreted)
  p(s)            polynomial degree of segment s;  P(s) = p(0)+..+p(s-1)
  sx,su,sa(i), st scalings;  lbx(q,i), ... bounds;  dyn(q,i,x,u,t[,a]), path, run, term, tcon
  CD1(r,c), CW(c), CI/CD composite matrices: the values specified by C03 / C04
"""
from fractions import Fraction
from pyvc.verify import *
from pyvc.solve import Theory
from pyvc import lib
from .colloc import P, pk, T0, T1, Con, tau, QW, taus_fn, NS, theory as cth

NX, NU, NA, NP = var("nx", "I"), var("nu", "I"), var("na", "I"), var("nph", "I")
ST = var("st", "R")
Q = var("q", "I")
FLOATS2 = {"x": ("lbx", "ubx", "x00", "xf0"), "u": ("lbu", "ubu", "u00", "uf0"), "a": ("lba", "uba", "a0"), "t": ("lbt0", "ubt0", "lbtf", "ubtf", "t00", "tf0")}


def A(name, *args):
    return app(name, args, "R")


def N():
    return add(P(NS), 1)


def theory():
    th = cth()
    def succ(s, t):
        """one more summand, any summand"""
        if s.args[2] is not t.args[2] or s.args[0] is not t.args[0]:
            return []
        a, b = s.args[1], t.args[1]
        return [implies(and_(eq(b, add(a, 1)), le(s.args[0], a)), eq(t, add(s, inst(s.args[2], a))))]
    th.on_pair("SUM", succ)
    for h in ("sx", "su", "sa"):
        th.on(h, lambda a, t: [gt(t, 0)])
    # bounds are finite or infinite numbers
    for h in ("lbx", "ubx", "lbu", "ubu"):
        th.on(h, lambda a, t: [le(neg(INF), t), le(t, INF)])
    # quadrature weights of the end points (documented schemes): nonnegative, the last one positive
    th.on("QW", lambda a, t: [implies(and_(eq(a[2], T0), eq(a[3], T1)), and_(implies(eq(a[1], a[0]), gt(t, 0)), implies(eq(a[1], 0), ge(t, 0))))])
    return th


def vx(v, n):
    v = lib.as_ca(None, v) if not isinstance(v, Tensor) else v
    if v.rank == 1:
        return vecc(n, lambda i: v.get(i))
    return vecc(n, lambda i: v.get(i, ZERO))


class Prob:
    """the symbolic optimal control problem"""

    def __init__(self, u, na=None, path=True, tcon=True, nlinks=None, nph=None):
        I = u.I
        self.u, self.I = u, I
        self.nx, self.nu = NX, NU
        self.na = NA if na is None else num(na)
        self.np = NP if nph is None else num(nph)
        u.hyp(ge(NX, 1), ge(NU, 1), ge(NP, 1), gt(ST, 0), ge(NS, 1), lt(T0, T1), le(0, Q), lt(Q, NP))
        if na is None:
            u.hyp(ge(NA, 1))
        u.th.on("npc", lambda a, t: [ge(t, 1)])
        u.th.on("ntc", lambda a, t: [ge(t, 1)])
        o = Inst("OCP")
        self.o = o
        d = o.d
        d["nx"], d["nu"], d["na"], d["n_phases"] = self.nx, self.nu, self.na, self.np
        for nm, n in (("scale_x", self.nx), ("scale_u", self.nu), ("scale_a", self.na)):
            h = "s" + nm[-1]
            d[nm] = leafvec("np", n, lambda i, h=h: A(h, i))
        d["scale_t"] = ST
        size = {"x": self.nx, "u": self.nu, "a": self.na, "t": ONE}
        for k, names in FLOATS2.items():
            for nm in names:
                d[nm] = matrix("np", self.np, size[k], lambda q, i, nm=nm: A(nm, q, i))
        for nm in ("lbe", "ube"):
            d[nm] = matrix("np", sub(self.np, 1), self.nx, lambda q, i, nm=nm: A(nm, q, i))
        for nm in ("lbdu", "ubdu"):
            d[nm] = leafvec("np", self.np, lambda q, nm=nm: A(nm, q))
        for nm in ("diff_u", "midu", "du_continuity"):
            d[nm] = leafvec("np", self.np, lambda q, nm=nm: app(nm, (q,), "I"))
        npl = var("nlinks", "I") if nlinks is None else nlinks
        u.hyp(ge(npl, 0))
        self.nlinks = npl

        def link(k):
            return (app("linki", (k,), "I"), app("linkj", (k,), "I"))
        d["phase_links"] = PList(n=npl, fn=link)
        for h in ("linki", "linkj"):
            u.th.on(h, lambda a, t: [implies(and_(le(0, a[0]), lt(a[0], npl)), and_(le(0, t), lt(t, NP)))])

        def vecfun(head, n, none):
            def at(q):
                def f(I, args, kw):
                    a = [I.force(x) for x in args]
                    return None if none else PList(n=n(q), fn=lambda i: A(head, q, i, *self.uargs(head, a)))
                return PyFn(f, head)
            return PList(n=self.np, fn=at)

        def scafun(head):
            def at(q):
                return PyFn(lambda I, args, kw: A(head, q, *self.uargs(head, [I.force(x) for x in args])), head)
            return PList(n=self.np, fn=at)
        d["dynamics"] = vecfun("dyn", lambda q: self.nx, False)
        d["path_constraints"] = vecfun("path", lambda q: app("npc", (q,), "I"), not path)
        d["terminal_constraints"] = vecfun("tcon", lambda q: app("ntc", (q,), "I"), not tcon)
        d["running_costs"] = scafun("run")
        d["terminal_costs"] = scafun("term")
        self.pristine = dict(d)

    def uargs(self, head, a):
        u = self.u
        terminal = head in ("tcon", "term")
        want = 5 if self.na is not ZERO and not is_num(self.na, 0) else 4
        if not terminal:
            want -= 1
        if len(a) != want:
            u.fail("call of the user's %s function" % head, "%d arguments instead of %d" % (len(a), want))
            raise Unsupported("user function arity")
        if terminal:
            out = [vx(a[0], self.nx), scalar(a[1]), vx(a[2], self.nx), scalar(a[3])]
            if len(a) > 4:
                out.append(vx(a[4], self.na))
        else:
            out = [vx(a[0], self.nx), vx(a[1], self.nu), scalar(a[2])]
            if len(a) > 3:
                out.append(vx(a[3], self.na))
        return tuple(out)


def scalar(v):
    return term(v)


# ---------------------------------------------------------------- collocation contracts at the optimizer level
def con_colloc_init(I, v):
    s = v["self"]
    orders = v["poly_orders"]
    CTX.set(s, "poly_orders", orders)
    CTX.set(s, "tau0", T0)
    CTX.set(s, "tau1", T1)
    CTX.set(s, "_taus_fn", taus_fn(lambda d: add(d, 1)))
    CTX.set(s, "unique_polys", SymSet(orders))
    CTX.set(s, "$scheme", v["scheme"])
    for nm in ("roots",):
        CTX.set(s, nm, nodes_dict())
    CTX.set(s, "polys", Opaque("polys"))
    cls = ClassVal("Collocation")
    CTX.set(s, "diff_matrix_fn", I.getattr(cls, "get_diff_matrix"))
    CTX.set(s, "quad_matrix_fn", I.getattr(cls, "get_quadrature_weights"))
    CTX.set(s, "poly_fn", I.getattr(cls, "get_lagrange_polynomials"))
    return None


def nodes_dict():
    from pyvc.loops import SymD
    d = PDict({})
    c = SymD(lambda tag, k: TRUE if tag == "int" else FALSE, lambda tag, k: leafvec("np", add(k, 1), lambda i: tau(k, i)))
    c.log = []
    d.d["v"] = c
    return d


def own_orders(I, v, name="poly_orders"):
    """the composite contracts are used with the object's own degrees only"""
    s, o = v["self"], v.get(name)
    if o is None:
        return
    n = lib.length(I, o)
    k = fresh("seg", "I")
    CTX.oblige("number of segments of the collocation object", eq(n, NS))
    with CTX.under(le(0, k), lt(k, NS)):
        CTX.oblige("degrees of the collocation object", eq(term(lib.getitem(I, o, k)), pk(k)))


def con_compD(I, v):
    own_orders(I, v)
    o = v["order"]
    return Tensor("DM", (lib.DL(N()), lib.DL(N())), lambda r, c: A("CD%d" % o, r, c))


def con_compW(I, v):
    own_orders(I, v)
    for nm in ("tau0", "tau1"):
        if v[nm] is not None:
            CTX.oblige("whole reference interval", eq(term(v[nm]), T0 if nm == "tau0" else T1))
    return Tensor("DM", (lib.DL(1), lib.DL(N())), lambda r, c: A("CW", c))


def con_quadmats(I, v):
    from pyvc.loops import SymD
    if v["keys"] is not None:
        raise Unsupported("quadrature matrices of other keys")
    d = PDict({})
    c = SymD(lambda tag, k: EXISTSc(NS, lambda s: eq(k, pk(s))) if False else TRUE,
             lambda tag, k: Tensor("DM", (lib.DL(add(k, 1)), lib.DL(1)), lambda i, j: QW(k, i, T0, T1)))
    c.log = []
    d.d["v"] = c
    return d


def pts(I, taus):
    """per segment point lists: (count function, point function)"""
    taus = I.force(taus)
    CTX.oblige("one point list per segment", eq(lib.length(I, taus), NS))
    sv, iv = fresh("ix", "I"), fresh("ix", "I")
    CTX.lazy += 1
    mark = len(CTX.trail)
    try:
        with CTX.under(le(0, sv), lt(sv, NS)):
            def fold(v, f):
                alts = v.alts if isinstance(v, Union) else [(TRUE, v)]
                r = None
                for c, y in reversed(alts):
                    with CTX.under(c):
                        z = fold(y, f) if isinstance(y, Union) else num(f(y))
                    r = z if r is None else ite(c, z, r)
                return r
            item = lib.getitem(I, taus, sv)
            n = fold(item, lambda y: lib.length(I, y))
            with CTX.under(le(0, iv), lt(iv, n)):
                x = fold(item, lambda y: term(lib.getitem(I, y, iv)))
    finally:
        CTX.lazy -= 1
        CTX.undo(mark)
    nt = lambda s: subst(n, {sv: num(s)})
    X = lambda s, i: subst(x, {sv: num(s), iv: num(i)})
    return nt, X


def seg_cols(c, s, val):
    return ite(and_(le(P(s), c), le(c, add(P(s), pk(s)))), val(sub(c, P(s))), ZERO)


def con_compI(kind):
    """rows: structured (segment, point); row (s,i) holds the segment's basis on the segment's columns"""
    def f(I, v):
        own_orders(I, v)
        nt, X = pts(I, v["taus"])
        if kind == "value":
            head, order = "LV", 0
        else:
            order = v["order"]
            head = "DL%d" % order
        rows = lib.DB(NS, lambda s: lib.DL(nt(s)))
        return Tensor("np", (rows, lib.DL(N())), lambda r, c: seg_cols(c, r[1], lambda j: A(head, pk(r[1]), j, X(r[1], r[2]))))
    return Con(f)


COLLOC = {"Collocation.__init__": Con(con_colloc_init),
          "Collocation.get_composite_differentiation_matrix": Con(con_compD),
          "Collocation.get_composite_quadrature_weights": Con(con_compW),
          "Collocation.get_quad_weight_matrices": Con(con_quadmats),
          "Collocation.get_composite_interpolation_matrix": con_compI("value"),
          "Collocation.get_composite_interpolation_Dmatrix_at": con_compI("der")}


# ---------------------------------------------------------------- optimizer scenario
def optimizer(u, pr, cls="mpopt", created=True, single=None):
    """an optimizer satisfying the class invariant, built by its own constructor and
    initialisation methods over an arbitrary problem"""
    I = u.I
    s = Inst(cls)
    orders = PList(n=NS, fn=pk)
    scheme = Opaque("scheme")
    I.run_func(I.getattr(s, "__init__").fn, [s, pr.o, NS, orders, scheme], {})
    if created:
        u.call(s, "compute_numerical_approximation")
        u.call(s, "create_variables")
    return s


class View:
    """the decision symbols of an optimizer"""

    def __init__(self, u, s):
        self.u, self.I, self.s = u, u.I, s
        g = lambda nm: u.I.getattr(s, nm)
        self.X = lambda q, k, i: self.item3(g("X"), q, k, i)
        self.U = lambda q, k, i: self.item3(g("U"), q, k, i)
        self.A = lambda i, q: g("A").get(num(i), q)
        self.t0 = lambda q: g("t0").get(q, ZERO)
        self.tf = lambda q: g("tf").get(q, ZERO)
        self.w = lambda k, q: g("seg_widths").get(num(k), q)

    def item3(self, lst, q, k, i):
        return lib.getitem(self.I, lst, q).get(num(k), num(i))

    def T0(self, q):
        return div(self.t0(q), ST)

    def TF(self, q):
        return div(self.tf(q), ST)

    def W(self, k, q):
        return SUM(0, k, lambda i: self.w(i, q))

    def dur(self, q):
        return sub(self.TF(q), self.T0(q))

    def time(self, s, j, q):
        """physical time of node j of segment s"""
        loc = div(sub(tau(pk(s), j), T0), sub(T1, T0))
        return add(self.T0(q), mul(self.dur(q), add(self.W(s, q), mul(self.w(s, q), loc))))

    def h(self, s, q):
        return div(mul(self.dur(q), self.w(s, q)), sub(T1, T0))

    def xs(self, q, k):
        return vecc(NX, lambda i: div(self.X(q, k, i), A("sx", i)))

    def us(self, q, k):
        return vecc(NU, lambda i: div(self.U(q, k, i), A("su", i)))

    def as_(self, q, pr):
        if is_num(pr.na, 0):
            return ()
        return (vecc(pr.na, lambda i: div(self.A(i, q), A("sa", i))),)


def cursor_hint(view, q):
    """node cursor: (segment, local node) with k = P(segment) + local"""
    def hint(I, phs, k):
        ints = [p for p, _ in phs if p.sort == "I"]
        reals = [p for p, _ in phs if p.sort == "R"]
        out = []
        for S in ints:
            for J in ints:
                if S is J:
                    continue
                core = [eq(k, add(P(S), J)), le(0, S), lt(S, NS), le(0, J), le(J, add(pk(S), 1)), or_(ge(J, 1), and_(eq(S, 0), eq(J, 0)))]
                vals = {}
                for x in reals:
                    vals[x] = [add(view.T0(q), mul(view.dur(q), view.W(S, q))), view.h(S, q), view.W(S, q), mul(view.dur(q), view.W(S, q)), view.w(S, q)]
                for x in ints:
                    if x is not S and x is not J:
                        vals[x] = [P(S), pk(S), add(P(S), pk(S))]
                out.append({"core": core, "values": vals})
        return out
    return hint


class Node:
    """arbitrary node: j-th collocation node of segment s, at index k"""

    def __init__(self, u):
        self.s, self.j = fresh("s", "I"), fresh("j", "I")
        self.k = add(P(self.s), self.j)
        self.hyps = [le(0, self.s), lt(self.s, NS), le(0, self.j), le(self.j, pk(self.s)), or_(ge(self.j, 1), eq(self.s, 0))]

    def cands(self):
        return [self.s, sub(self.s, 1), self.j]


def variants():
    for na in (0, None):
        yield ("no parameters" if na == 0 else "parameters"), na


def c05(S):
    for nm, na in variants():
        def build(u, na=na):
            pr = Prob(u, na, path=False)
            s = optimizer(u, pr)
            v = View(u, s)
            u.I.loop_hints.append(cursor_hint(v, Q))
            u.satisfiable()

            def post(r):
                n = Node(u)
                u.prover.cands = n.cands()
                with CTX.under(*n.hyps):
                    tg = lib.getitem(u.I, u.I.getattr(s, "time_grid"), Q)
                    u.eq("time of node j of segment s", lib.getitem(u.I, tg, n.k), v.time(n.s, n.j, Q))
                    u.oblige("index of the node", lt(n.k, N()))
            u.run(lambda: u.call(s, "get_discretized_dynamics_constraints_and_cost_matrices", Q), post)
        S.unit("time grid/" + nm, "mpopt.get_discretized_dynamics_constraints_and_cost_matrices", build, theory(), COLLOC)


def c06(S):
    for nm, na in variants():
        for path in (True, False):
            def build(u, na=na, path=path):
                pr = Prob(u, na, path=path)
                s = optimizer(u, pr)
                v = View(u, s)
                u.I.loop_hints.append(cursor_hint(v, Q))
                u.satisfiable()

                def post(r):
                    if not isinstance(r, tuple) or len(r) != 3:
                        u.fail("result", "not the triple (f, c, q)")
                        return
                    f, c, qq = r
                    n = Node(u)
                    u.prover.cands = n.cands()
                    s_, j = n.s, n.j
                    u.oblige("one dynamics sample per node", eq(lib.length(u.I, f), N()))
                    u.oblige("one cost sample per node", eq(lib.length(u.I, qq), N()))
                    if path:
                        u.oblige("one path sample per node", eq(lib.length(u.I, c), N()))
                    else:
                        u.oblige("no path samples", eq(lib.length(u.I, c), 0))
                    with CTX.under(*n.hyps):
                        args = (v.xs(Q, n.k), v.us(Q, n.k), v.time(s_, j, Q)) + v.as_(Q, pr)
                        u.eq("dynamics sample", lib.getitem(u.I, f, n.k), frow(NX, lambda i: mul(v.h(s_, Q), mul(A("sx", i), A("dyn", Q, i, *args)))))
                        if path:
                            u.eq("path constraint sample", lib.getitem(u.I, c, n.k), frow(app("npc", (Q,), "I"), lambda i: A("path", Q, i, *args)))
                        got = lib.getitem(u.I, qq, n.k)
                        we, ws = QW(pk(s_), pk(s_), T0, T1), QW(pk(add(s_, 1)), ZERO, T0, T1)
                        cost = A("run", Q, *args)
                        with CTX.under(eq(j, pk(s_)), lt(add(s_, 1), NS)):
                            hm = div(add(mul(we, v.h(s_, Q)), mul(ws, v.h(add(s_, 1), Q))), add(we, ws))
                            u.eq("running cost sample at a shared node", got, frow(ONE, lambda i: mul(hm, cost)))
                        with CTX.under(or_(lt(j, pk(s_)), eq(add(s_, 1), NS))):
                            u.eq("running cost sample", got, frow(ONE, lambda i: mul(v.h(s_, Q), cost)))
                u.run(lambda: u.call(s, "get_discretized_dynamics_constraints_and_cost_matrices", Q), post)
            S.unit("samples/%s%s" % (nm, "/path" if path else ""), "mpopt.get_discretized_dynamics_constraints_and_cost_matrices", build, theory(), COLLOC)


def frow(n, f):
    """1 x n row"""
    return Tensor("SX", (lib.DL(1), lib.DL(n)), lambda r, c: f(c))


# ---------------------------------------------------------------- C07
def blocks(n, m, f, kind="SX"):
    """column of n blocks of m(i) entries"""
    mm = m if callable(m) else (lambda i: m)
    return Tensor(kind, (lib.DB(num(n) if not isinstance(n, Term) else n, lambda i: lib.DL(mm(i))), lib.DL(1)), lambda r, c: f(r[1], r[2]))


def blocks1(n, m, f, kind="np"):
    mm = m if callable(m) else (lambda i: m)
    return Tensor(kind, (lib.DB(n, lambda i: lib.DL(mm(i))),), lambda r: f(r[1], r[2]))


def const_vec(name, u, got, n, val):
    u.eq(name, got, PList(n=n, fn=lambda k: val))


def empty(name, u, *vs):
    for v in vs:
        u.oblige(name, eq(lib.length(u.I, v), 0) if not isinstance(v, Tensor) else eq(v.dims[0].size(), 0))


def c07(S):
    for nm, na in variants():
        dyn_unit(S, nm, na)
        for tcon in (True, False):
            term_unit(S, nm, na, tcon)
    path_unit(S)


def cls_const(u, name, cls="OCP"):
    return u.I.getattr(ClassVal(cls), name)


def dyn_unit(S, nm, na):
    def build(u):
        pr = Prob(u, na)
        s = optimizer(u, pr)
        v = View(u, s)
        u.satisfiable()
        f = PList(n=N(), fn=lambda k: frow(NX, lambda i: A("FS", k, i)))

        def post(r):
            F, lo, hi = r
            want = blocks(NX, N(), lambda i, k: sub(SUMc(N(), lambda c: mul(A("CD1", k, c), v.X(Q, c, i))), A("FS", k, i)))
            u.eq("derivative of the interpolant equals the sampled dynamics", F, want)
            const_vec("lower bound zero", u, lo, mul(NX, N()), ZERO)
            const_vec("upper bound zero", u, hi, mul(NX, N()), ZERO)
        u.run(lambda: u.call(s, "get_nlp_constraints_for_dynamics", f, Q), post)
    S.unit("dynamics/" + nm, "mpopt.get_nlp_constraints_for_dynamics", build, theory(), COLLOC)


def path_unit(S):
    for present in (True, False):
        def build(u, present=present):
            pr = Prob(u, 0)
            s = optimizer(u, pr)
            u.satisfiable()
            m = app("npc", (Q,), "I")
            c = PList(n=N(), fn=lambda k: frow(m, lambda i: A("CS", k, i))) if present else PList([])

            def post(r):
                C, lo, hi = r
                if not present:
                    empty("no path constraints", u, C, lo, hi)
                    return
                u.eq("every component at every node", C, blocks(m, N(), lambda i, k: A("CS", k, i)))
                const_vec("no lower bound", u, lo, mul(m, N()), neg(INF))
                const_vec("upper bound zero", u, hi, mul(m, N()), ZERO)
            u.run(lambda: u.call(s, "get_nlp_constraints_for_path_contraints", c, Q), post)
        S.unit("path/%s" % ("defined" if present else "undefined"), "mpopt.get_nlp_constraints_for_path_contraints", build, theory(), COLLOC)


def term_unit(S, nm, na, tcon):
    def build(u):
        pr = Prob(u, na, tcon=tcon)
        s = optimizer(u, pr)
        v = View(u, s)
        u.satisfiable()
        args = (v.xs(Q, P(NS)), v.TF(Q), v.xs(Q, ZERO), v.T0(Q)) + v.as_(Q, pr)
        m = app("ntc", (Q,), "I")

        def post(r):
            T, lo, hi, J = r
            if tcon:
                u.eq("every component of the terminal constraints", T, blocks(ONE, m, lambda _, i: A("tcon", Q, i, *args)))
                const_vec("lower bound zero", u, lo, m, ZERO)
                const_vec("upper bound zero", u, hi, m, ZERO)
            else:
                empty("no terminal constraints", u, T, lo, hi)
            u.eq("terminal cost", J, frow(ONE, lambda i: A("term", Q, *args)))
        u.run(lambda: u.call(s, "get_nlp_constraints_for_terminal_contraints", Q), post)
    S.unit("terminal/%s/%s" % (nm, "defined" if tcon else "undefined"), "mpopt.get_nlp_constraints_for_terminal_contraints", build, theory(), COLLOC)


# ---------------------------------------------------------------- C08
def c08(S):
    def slope(u):
        pr = Prob(u, 0)
        s = optimizer(u, pr)
        v = View(u, s)
        u.satisfiable()
        on = ne(app("diff_u", (Q,), "I"), 0)

        def post(r):
            D, lo, hi = r
            if CTX.decide(on) is True:
                u.eq("slope of every control at every node", D, blocks(NU, N(), lambda i, k: SUMc(N(), lambda c: mul(A("CD1", k, c), v.U(Q, c, i)))))
                const_vec("lower slope limit of the phase", u, lo, mul(NU, N()), A("lbdu", Q))
                const_vec("upper slope limit of the phase", u, hi, mul(NU, N()), A("ubdu", Q))
            else:
                u.oblige("disabled", not_(on))
                empty("no slope constraints", u, D, lo, hi)
        u.run(lambda: u.call(s, "get_nlp_constraints_for_control_input_slope", Q), post)
    S.unit("slope limits", "mpopt.get_nlp_constraints_for_control_input_slope", slope, theory(), COLLOC)

    def mid(u):
        pr = Prob(u, 0)
        s = optimizer(u, pr)
        v = View(u, s)
        u.satisfiable()
        on = ne(app("midu", (Q,), "I"), 0)
        finite = or_(EXISTSc(NU, lambda i: lt(neg(INF), A("lbu", Q, i))), EXISTSc(NU, lambda i: lt(A("ubu", Q, i), INF)))

        def post(r):
            M, lo, hi = r
            with CTX.under(on, finite):
                live = not CTX.prover.quick(FALSE, CTX.hyps, 8)
            if live:
                u.oblige("imposed only when enabled and some bound is finite", and_(on, finite))
                pt = lambda g, i: mul(Fraction(1, 2), add(tau(pk(g), i), tau(pk(g), add(i, 1))))
                val = lambda i, g, m: SUMc(N(), lambda c: mul(seg_cols(c, g, lambda j: A("LV", pk(g), j, pt(g, m))), v.U(Q, c, i)))
                n = Tensor("SX", (lib.DB(NU, lambda i: lib.DB(NS, lambda g: lib.DL(pk(g)))), lib.DL(1)), lambda r, c: val(r[1], r[2][1], r[2][2]))
                u.eq("interpolated control at every midpoint", M, n)
                cnt = lambda h: Tensor("np", (lib.DB(NU, lambda i: lib.DB(NS, lambda g: lib.DL(pk(g)))),), lambda r: mul(A(h, Q, r[1]), A("su", r[1])))
                u.eq("lower bound of the control", lo, cnt("lbu"))
                u.eq("upper bound of the control", hi, cnt("ubu"))
            else:
                empty("no midpoint constraints", u, M, lo, hi)
        u.run(lambda: u.call(s, "get_nlp_constrains_for_control_input_at_mid_colloc_points", Q), post)
    S.unit("control at midpoints", "mpopt.get_nlp_constrains_for_control_input_at_mid_colloc_points", mid, theory(), COLLOC)

    def cont(u):
        pr = Prob(u, 0)
        s = optimizer(u, pr)
        v = View(u, s)
        u.satisfiable()
        on = and_(ne(app("du_continuity", (Q,), "I"), 0), ge(NS, 2))

        def post(r):
            D, lo, hi = r
            with CTX.under(on):
                live = not CTX.prover.quick(FALSE, CTX.hyps, 8)
            if live:
                u.oblige("imposed only when enabled and there are interior boundaries", on)
                end = lambda g, t, i: SUMc(N(), lambda c: mul(seg_cols(c, g, lambda j: A("DL1", pk(g), j, t)), v.U(Q, c, i)))
                u.eq("jump of every control slope at every interior boundary", D,
                     blocks(NU, sub(NS, 1), lambda i, b: sub(end(b, T1, i), end(add(b, 1), T0, i))))
                const_vec("lower bound zero", u, lo, mul(NU, sub(NS, 1)), ZERO)
                const_vec("upper bound zero", u, hi, mul(NU, sub(NS, 1)), ZERO)
            else:
                empty("no continuity constraints", u, D, lo, hi)
        u.run(lambda: u.call(s, "get_nlp_constrains_for_control_slope_continuity_across_segments", Q), post)
    S.unit("slope continuity", "mpopt.get_nlp_constrains_for_control_slope_continuity_across_segments", cont, theory(), COLLOC)


# ---------------------------------------------------------------- C09
def event_spec(u, v, nlinks):
    """expected linking constraints: state blocks, control blocks, times (link by link)"""
    li, lj = (lambda k: app("linki", (k,), "I")), (lambda k: app("linkj", (k,), "I"))
    last = P(NS)
    return (blocks(nlinks, NX, lambda k, i: sub(v.X(lj(k), ZERO, i), v.X(li(k), last, i))),
            blocks(nlinks, NU, lambda k, i: sub(v.U(lj(k), ZERO, i), v.U(li(k), last, i))),
            blocks(nlinks, ONE, lambda k, i: sub(v.t0(lj(k)), v.tf(li(k)))))


def c09(S):
    def build(u):
        # validated problems: lbe/ube have n_phases-1 rows
        pr = Prob(u, 0)
        u.hyp(le(pr.nlinks, sub(NP, 1)))
        s = optimizer(u, pr)
        v = View(u, s)
        u.satisfiable()

        def post(r):
            E, lo, hi = r
            with CTX.under(ge(pr.nlinks, 1)):
                live = not CTX.prover.quick(FALSE, CTX.hyps, 8)
            if not live:
                empty("single phase: no links", u, E, lo, hi)
                return
            u.oblige("links only when declared", ge(pr.nlinks, 1))
            n = pr.nlinks
            u.oblige("three groups", and_(eq(lib.length(u.I, E), 3), eq(lib.length(u.I, lo), 3), eq(lib.length(u.I, hi), 3)))
            want = event_spec(u, v, n)
            it = lambda l, i: lib.getitem(u.I, l, num(i))
            for i, nm in enumerate(("state jump", "control jump", "time jump")):
                u.eq(nm + " of every link", it(E, i), want[i])
            u.eq("scaled lower bound of every link", it(lo, 0), blocks1(n, NX, lambda k, i: mul(A("lbe", k, i), A("sx", i))))
            u.eq("scaled upper bound of every link", it(hi, 0), blocks1(n, NX, lambda k, i: mul(A("ube", k, i), A("sx", i))))
            for b in (lo, hi):
                u.eq("control continuity", it(b, 1), blocks1(n, NU, lambda k, i: ZERO))
                const_vec("time continuity", u, it(b, 2), n, ZERO)
        u.run(lambda: u.call(s, "get_event_constraints"), post)
    S.unit("phase links", "mpopt.get_event_constraints", build, theory(), COLLOC)


# ---------------------------------------------------------------- C10
def c10(S):
    for nm, na in variants():
        for first in (True, False):
            def build(u, na=na, first=first):
                pr = Prob(u, na)
                s = optimizer(u, pr)
                v = View(u, s)
                u.hyp(eq(Q, 0) if first else ge(Q, 1))
                u.satisfiable()
                q = ZERO if first else Q

                def post(r):
                    Z, lo, hi = r
                    u.eq("layout of the decision vector", Z, zlayout(pr, v, q))
                    u.eq("lower bounds", lo, zbounds(pr, q, first, "lb"))
                    u.eq("upper bounds", hi, zbounds(pr, q, first, "ub"))
                u.run(lambda: u.call(s, "get_nlp_variables", q), post)
            S.unit("variables/%s/%s" % (nm, "first phase" if first else "later phase"), "mpopt.get_nlp_variables", build, theory(), COLLOC)


def zdims(pr, extra=None):
    n = N()
    d = [lib.DB(NX, lambda i: lib.DL(n)), lib.DB(NU, lambda i: lib.DL(n)), lib.DL(1), lib.DL(1)]
    if not is_num(pr.na, 0):
        d.append(lib.DL(pr.na))
    if extra is not None:
        d.append(lib.DL(extra))
    return d


def zvec(pr, parts, kind, extra=None):
    """concatenation: states, controls, t0, tf, (parameters), (extra)"""
    d = zdims(pr, None if extra is None else NS)
    fs = list(parts)
    if is_num(pr.na, 0):
        fs = fs[:4] + fs[5:]
    if extra is not None:
        fs = fs[:len(d) - 1] + [extra]

    def at(s):
        _, p, x = s
        f = fs[p]
        if p < 2:
            return f(x[1], x[2])
        return f(x)
    if kind == "np":
        return Tensor("np", (lib.DC(d),), at)
    return Tensor("SX", (lib.DC(d), lib.DL(1)), lambda s, c: at(s))


def zlayout(pr, v, q, extra=None):
    return zvec(pr, [lambda i, k: v.X(q, k, i), lambda i, k: v.U(q, k, i), lambda x: v.t0(q), lambda x: v.tf(q), lambda i: v.A(i, q)], "SX", extra)


def zbounds(pr, q, first, b, extra=None):
    xb = lambda i, k: mul(A(b + "x", q, i), A("sx", i))
    if first:
        old = xb
        xb = lambda i, k: ite(eq(k, 0), mul(A("x00", q, i), A("sx", i)), old(i, k))
    return zvec(pr, [xb, lambda i, k: mul(A(b + "u", q, i), A("su", i)), lambda x: mul(A(b + "t0", q, x), ST), lambda x: mul(A(b + "tf", q, x), ST),
                     lambda i: mul(A(b + "a", q, i), A("sa", i))], "np", extra)


# ---------------------------------------------------------------- C11
def guess(pr, q, adaptive):
    frac = lambda k: div(k, P(NS))
    x = lambda h: (lambda i, k: mul(A("s" + h, i), add(A(h + "00", q, i), mul(frac(k), sub(A(h + "f0", q, i), A(h + "00", q, i))))))
    t0, tf = mul(A("t00", q, ZERO), ST), mul(A("tf0", q, ZERO), ST)
    return zvec(pr, [x("x"), x("u"), lambda y: t0, lambda y: tf, lambda i: mul(A("a0", q, i), A("sa", i))], "np",
                (lambda i: div(1, NS)) if adaptive else None)


CLS = {"mpopt": False, "mpopt_h_adaptive": False, "mpopt_adaptive": True}


def con_phase_guess(pr, adaptive):
    return Con(lambda I, v: guess(pr, term(v["phase"]), adaptive))


def c11(S):
    for cls, adaptive in (("mpopt", False), ("mpopt_adaptive", True)):
        for nm, na in variants():
            def build(u, na=na, cls=cls, adaptive=adaptive):
                pr = Prob(u, na)
                s = optimizer(u, pr, cls)
                # the guessed duration is not zero (the code divides by it)
                u.hyp(ne(A("t00", Q, ZERO), A("tf0", Q, ZERO)))
                u.satisfiable()

                def post(r):
                    u.eq("guess of a phase", r, guess(pr, Q, adaptive))
                u.run(lambda: u.call(s, "init_solution_per_phase", Q), post)
            S.unit("guess/%s/%s" % (cls, nm), cls + ".init_solution_per_phase", build, theory(), COLLOC)

            def whole(u, na=na, cls=cls, adaptive=adaptive):
                pr = Prob(u, na)
                s = optimizer(u, pr, cls)
                u.I.contracts[cls + ".init_solution_per_phase"] = con_phase_guess(pr, adaptive)
                u.satisfiable()

                def post(r):
                    want = Tensor("np", (lib.DB(NP, lambda q: guess(pr, q, adaptive).dims[0]),), lambda s: guess(pr, s[1], adaptive).f(s[2]))
                    u.eq("guess: phases in order", r, want)
                u.run(lambda: u.call(s, "initialize_solution"), post)
            S.unit("all phases/%s/%s" % (cls, nm), "mpopt.initialize_solution", whole, theory(), COLLOC)


# ---------------------------------------------------------------- C12
def col(n, f):
    return Tensor("SX", (lib.DL(n), lib.DL(1)), lambda r, c: f(r))


def npv(n, f):
    return Tensor("np", (lib.DL(n),), lambda r: f(r))


class Group:
    """an arbitrary constraint group of the phase: n(q) rows with values and bounds, or absent ([], [], [])"""

    def __init__(self, nm):
        self.nm = nm
        self.n = lambda q: app("n" + nm, (q,), "I")
        self.val = lambda q: col(self.n(q), lambda i: A("g" + nm, q, i))
        self.lo = lambda q: npv(self.n(q), lambda i: A("glo" + nm, q, i))
        self.hi = lambda q: npv(self.n(q), lambda i: A("ghi" + nm, q, i))

    def ret(self, q, present):
        if not present:
            return (PList([]), PList([]), PList([]))
        return (self.val(q), self.lo(q), self.hi(q))


GROUPS = {"mpopt": [("get_nlp_constraints_for_dynamics", "F", False), ("get_nlp_constraints_for_path_contraints", "C", True),
                    ("get_nlp_constraints_for_control_input_slope", "DU", True),
                    ("get_nlp_constrains_for_control_input_at_mid_colloc_points", "MU", True),
                    ("get_nlp_constrains_for_control_slope_continuity_across_segments", "CU", True),
                    ("get_nlp_constraints_for_terminal_contraints", "TC", True)],
          "mpopt_adaptive": [("get_nlp_constraints_for_dynamics", "F", False), ("get_nlp_constraints_for_path_contraints", "C", True),
                             ("get_nlp_constraints_for_control_input_slope", "DU", True),
                             ("get_nlp_constraints_for_terminal_contraints", "TC", True),
                             ("get_nlp_constrains_for_segment_widths", "SW", False)]}


def discretize_unit(S, cls, absent):
    groups = GROUPS[cls]

    def build(u):
        pr = Prob(u, None, path="C" not in absent)
        s = optimizer(u, pr, cls)
        fs = PList(n=N(), fn=lambda k: frow(NX, lambda i: A("FS", k, i)))
        cs = PList(n=N(), fn=lambda k: frow(app("npc", (Q,), "I"), lambda i: A("CS", k, i))) if "C" not in absent else PList([])
        qs = PList(n=N(), fn=lambda k: frow(ONE, lambda i: A("QS", k)))
        calls = []

        def samples(I, v):
            CTX.oblige("samples of this phase", eq(term(v["phase"]), Q))
            calls.append("samples")
            return (fs, cs, qs)
        C = u.I.contracts
        C["mpopt.get_discretized_dynamics_constraints_and_cost_matrices"] = Con(samples)
        for fn, nm, opt in groups:
            g = Group(nm)
            u.th.on("n" + nm, lambda a, t: [ge(t, 0)])

            def con(I, v, g=g, nm=nm, fn=fn):
                CTX.oblige("constraints of this phase", eq(term(v["phase"]), Q))
                if nm == "F":
                    u.record("dynamics constraints use the samples of this phase", "f is the sampled dynamics", v["f"] is fs)
                if nm == "C":
                    u.record("path constraints use the samples of this phase", "c is the sampled path constraints", v["c"] is cs)
                if nm == "SW":
                    u.record("width constraints are built after the time grid", "order of calls", "samples" in calls)
                r = g.ret(Q, nm not in absent)
                if nm == "TC":
                    r = r + (frow(ONE, lambda i: A("MAYER", Q)),)
                return r
            owner = "mpopt_adaptive" if nm == "SW" else "mpopt"
            C[owner + "." + fn] = Con(con)
        u.satisfiable()
        live = [Group(nm) for fn, nm, opt in groups if nm not in absent]

        def post(r):
            G, lo, hi, J = r
            dims = lib.DC([lib.DL(g.n(Q)) for g in live])
            u.eq("constraints of the phase are the groups in order", G, Tensor("SX", (dims, lib.DL(1)), lambda x, c: A("g" + live[x[1]].nm, Q, x[2])))
            for nm, b, got in (("lower", "glo", lo), ("upper", "ghi", hi)):
                u.eq("%s bound of every constraint" % nm, got, Tensor("np", (dims,), lambda x, b=b: A(b + live[x[1]].nm, Q, x[2])))
            u.eq("objective of the phase", J, frow(ONE, lambda i: add(A("MAYER", Q), SUMc(N(), lambda c: mul(A("CW", c), A("QS", c))))))
        u.run(lambda: u.call(s, "discretize_phase", Q), post)
    S.unit("phase assembly/%s/without %s" % (cls, ",".join(sorted(absent)) or "nothing"), cls + ".discretize_phase", build, theory(), COLLOC)


def nlp_unit(S, cls, events):
    """create_nlp over arbitrary per-phase pieces"""
    adaptive = CLS[cls]

    def build(u):
        pr = Prob(u, None, nph=None if events else 1)
        s = optimizer(u, pr, cls, created=False)
        u.hyp(ge(NP, 2) if events else eq(NP, 1))
        for h in ("nz", "ng"):
            u.th.on(h, lambda a, t: [ge(t, 0)])
        nz, ng = (lambda q: app("nz", (q,), "I")), (lambda q: app("ng", (q,), "I"))
        C = u.I.contracts
        state = []

        def vars_(I, v):
            q = term(v["phase"])
            return (col(nz(q), lambda i: A("Z", q, i)), npv(nz(q), lambda i: A("Zlo", q, i)), npv(nz(q), lambda i: A("Zhi", q, i)))

        def disc(I, v):
            q = term(v["phase"])
            return (col(ng(q), lambda i: A("G", q, i)), npv(ng(q), lambda i: A("Glo", q, i)), npv(ng(q), lambda i: A("Ghi", q, i)),
                    frow(ONE, lambda i: A("JP", q)))
        ne_ = [var("ne%d" % i, "I") for i in range(3)]
        u.hyp(*[ge(x, 0) for x in ne_])

        def ev(I, v):
            return tuple(PList([(npv if b else col)(ne_[i], lambda k, i=i, b=b: A("E%s%d" % (b, i), k)) for i in range(3)]) for b in ("", "lo", "hi"))
        C[("mpopt_adaptive" if adaptive else "mpopt") + ".get_nlp_variables"] = Con(vars_)
        C[("mpopt_adaptive" if adaptive else "mpopt") + ".discretize_phase"] = Con(disc)
        C["mpopt.get_event_constraints"] = Con(ev)
        u.satisfiable()

        def post(r):
            prob, bounds = r
            g = lambda d, k: lib.getitem(u.I, d, k)
            ph = lambda n: [lib.DB(NP, lambda q: lib.DL(n(q)))] if events else [lib.DL(n(ZERO))]
            at = lambda h: (lambda x: A(h, x[1], x[2]) if events else A(h, ZERO, x))
            zd = ph(nz)[0]
            gd = lib.DC(ph(ng) + ([lib.DL(x) for x in ne_] if events else []))

            def gat(h, e):
                def f(x):
                    if x[1] == 0:
                        return at(h)(x[2])
                    return A("E%s%d" % (e, x[1] - 1), x[2])
                return f
            u.eq("variables: phases in order", g(prob, "x"), Tensor("SX", (zd, lib.DL(1)), lambda x, c: at("Z")(x)))
            u.eq("constraints: phases in order, then links", g(prob, "g"), Tensor("SX", (gd, lib.DL(1)), lambda x, c: gat("G", "")(x)))
            u.eq("objective: sum over the phases", g(prob, "f"), frow(ONE, lambda i: SUMc(NP, lambda q: A("JP", q)) if events else A("JP", ZERO)))
            u.eq("lower bounds of the variables", g(bounds, "lbx"), Tensor("np", (zd,), at("Zlo")))
            u.eq("upper bounds of the variables", g(bounds, "ubx"), Tensor("np", (zd,), at("Zhi")))
            u.eq("lower bounds of the constraints", g(bounds, "lbg"), Tensor("np", (gd,), gat("Glo", "lo")))
            u.eq("upper bounds of the constraints", g(bounds, "ubg"), Tensor("np", (gd,), gat("Ghi", "hi")))
            w = u.I.getattr(s, "seg_widths")
            pv = g(prob, "p")
            if isinstance(pv, Tensor) and is_num(pv.dims[0].size(), 1):
                # a row of parameters: casadi transposes vectors of the other orientation
                pt = pv
                pv = Tensor(pt.kind, (pt.dims[1], pt.dims[0]), lambda i, j: pt.at(j, i))
            u.eq("parameters: segment widths phase by phase", pv, blocks(NP, NS, lambda q, k: w.get(k, q)))
        u.run(lambda: u.call(s, "create_nlp"), post)
    S.unit("nlp/%s/%s" % (cls, "several phases" if events else "one phase"), "mpopt.create_nlp", build, theory(), COLLOC)


IPOPT_DEFAULTS = ("ipopt.max_iter", "ipopt.acceptable_tol", "ipopt.print_level", "ipopt.sb", "print_time")


def create_solver_unit(S, cls):
    adaptive = CLS[cls]
    for solver in ("ipopt", "sqpmethod", "any other"):
        for nm, keys in (("no options", ()), ("a new option", ("user.option",)), ("a default overridden", ("ipopt.max_iter",)),
                         ("all defaults overridden and a new one", IPOPT_DEFAULTS + ("zzz",))):
            def build(u, solver=solver, keys=keys):
                s = Inst(cls)
                user = {k: Opaque("value of " + k) for k in keys}
                opts = PDict(dict(user))
                orig = {"f": Opaque("f"), "x": Opaque("x"), "g": Opaque("g"), "p": Opaque("p")}
                made, built = [], []

                def create(I, v):
                    built[:] = [PDict({"lbg": Opaque("lbg"), "ubg": Opaque("ubg"), "lbx": Opaque("lbx"), "ubx": Opaque("ubx")})]
                    return PDict(dict(orig)), built[0]
                u.I.contracts["mpopt.create_nlp"] = Con(create)
                sol = Opaque("solver object")

                def nlpsol(I, a, k):
                    made.append((list(a), dict(k)))
                    return sol
                u.I.hooks["nlpsol"] = nlpsol

                def post(r):
                    made_ = list(made)
                    del made[:]
                    if len(made_) != 1 or len(made_[0][0]) != 4 or made_[0][1]:
                        u.record("one solver is built", "nlpsol(name, solver, nlp, options)", False, detail=str(made_))
                        return
                    a = [u.I.force(x) for x in made_[0][0]]
                    u.record("chosen solver", "nlpsol receives %s" % solver, a[1] == solver)
                    got = a[2].v if isinstance(a[2], PDict) else None
                    want = dict(orig)
                    if adaptive:
                        del want["p"]
                    u.record("the assembled NLP", "f, x, g%s of create_nlp" % ("" if adaptive else " and p"), isinstance(got, dict) and got == want)
                    o = a[3].v if isinstance(a[3], PDict) and isinstance(a[3].v, dict) else None
                    u.record("user options", "every user option reaches the solver unchanged", o is not None and all(k in o and o[k] is x for k, x in user.items()))
                    allowed = set(user) | (set(IPOPT_DEFAULTS) if solver == "ipopt" else set())
                    u.record("only default options are added", "keys within the defaults of the solver", o is not None and set(o) <= allowed)
                    u.record("caller's options unchanged", "frame", opts.v == user)
                    u.record("bounds stored", "nlp_bounds", bool(built) and u.I.getattr(s, "nlp_bounds") is built[0])
                    u.record("solver stored", "nlp_solver", u.I.getattr(s, "nlp_solver") is sol)
                    u.eq("initialised", u.I.getattr(s, "_nlpsolver_initialized"), True)
                u.run(lambda: u.call(s, "create_solver", solver, opts), post)
            S.unit("create solver/%s/%s/%s" % (cls, solver, nm), cls + ".create_solver", build, theory(), {})


WARM = {"x": "x0", "x0": "x0", "lam_x": "lam_x0", "lam_x0": "lam_x0", "lam_g": "lam_g0", "lam_g0": "lam_g0"}


def warm_start_unit(S):
    keys = ["x", "lam_x", "lam_g", "x0", "lam_x0", "lam_g0"]
    sets = [None]
    for m in range(8):
        for extra in ((), ("f", "g", "lam_p", "p")):
            sets.append([k for i, k in enumerate(keys[:3]) if m >> i & 1] + list(extra))
            if m:
                sets.append([k for i, k in enumerate(keys[3:]) if m >> i & 1] + list(extra))
    for ks in sets:
        def build(u, ks=ks):
            s = Inst("mpopt")
            d0 = Opaque("default guess")
            u.I.contracts["mpopt.initialize_solution"] = Con(lambda I, v: d0)
            src = None if ks is None else {k: Opaque("value of " + k) for k in ks}
            sol = None if ks is None else PDict(dict(src))

            def post(r):
                want = {"x0": d0}
                for k in ks or ():
                    if k in WARM:
                        want[WARM[k]] = src[k]
                u.record("warm start", "primal and multipliers of the given solution, default guess otherwise",
                         isinstance(r, PDict) and isinstance(r.v, dict) and set(r.v) == set(want) and all(r.v[k] is x for k, x in want.items()))
                if sol is not None:
                    u.record("the given solution is unchanged", "frame", sol.v == src)
            u.run(lambda: u.call(s, "get_solver_warm_start_input_parameters", sol), post)
        S.unit("warm start/%s" % ("none" if ks is None else ",".join(ks) or "empty"), "mpopt.get_solver_warm_start_input_parameters", build, theory(), {})


def widths_unit(S):
    def build(u):
        pr = Prob(u, 0)
        s = optimizer(u, pr, created=False)
        u.satisfiable()

        def post(r):
            u.eq("equal width fractions for every segment of every phase", r, PList(n=mul(NS, NP), fn=lambda k: div(1, NS)))
        u.run(lambda: u.call(s, "get_segment_width_parameters", None), post)
    S.unit("default widths", "mpopt.get_segment_width_parameters", build, theory(), COLLOC)


def solve_unit(S, cls="mpopt"):
    for init in (False, True):
        for re in (False, True):
            for sw in (False, True):
                for mute in (False, True):
                    for warm in (False, True):
                        def build(u, init=init, re=re, sw=sw, mute=mute, warm=warm):
                            I = u.I
                            I.set_class_attr("mpopt", "_MUTE_", mute)
                            s = Inst(cls)
                            s.d["_nlpsolver_initialized"] = init
                            made, runs = [], []
                            result = PDict({"x": Opaque("x*"), "f": Opaque("f*"), "lam_x": Opaque("lx"), "lam_g": Opaque("lg")})

                            def solver(I, a, k):
                                runs.append((list(a), dict(k)))
                                return result
                            s.d["nlp_solver"] = PyFn(solver, "nlp_solver") if init else None
                            bounds = [{k: Opaque("%s of NLP %d" % (k, i)) for k in ("lbg", "ubg", "lbx", "ubx")} for i in (0, 1)]
                            if init:
                                s.d["nlp_bounds"] = PDict(dict(bounds[0]))

                            def create(I, v):
                                made.append((v["solver"], v["options"]))
                                CTX.set(s, "nlp_solver", PyFn(solver, "nlp_solver"))
                                CTX.set(s, "nlp_bounds", PDict(dict(bounds[1])))
                                CTX.set(s, "_nlpsolver_initialized", True)
                            I.contracts[cls + ".create_solver"] = Con(create)
                            ini = PDict({"x": Opaque("given x")}) if warm else None
                            ws = {"x0": Opaque("x0"), "lam_x0": Opaque("lx0")} if warm else {"x0": Opaque("default")}
                            wcalls = []

                            def warmf(I, v):
                                wcalls.append(v["solution"])
                                return PDict(dict(ws))
                            I.contracts["mpopt.get_solver_warm_start_input_parameters"] = Con(warmf)
                            eqw = Opaque("equal widths")
                            I.contracts["mpopt.get_segment_width_parameters"] = Con(lambda I, v: eqw)
                            mine = Opaque("user widths")
                            mo = PDict({"nlp_sw_params": mine} if sw else {})
                            opts = PDict({"k": Opaque("v")})
                            before = dict(mo.v), dict(opts.v)

                            def post(r):
                                n_made, n_runs, wc = list(made), list(runs), list(wcalls)
                                del made[:], runs[:], wcalls[:]
                                build_ = (not init) or re
                                u.record("the NLP is rebuilt on the first solve or when asked, only", "number of builds", len(n_made) == (1 if build_ else 0))
                                if build_ and n_made:
                                    u.record("solver and options are passed on", "create_solver arguments", n_made[0][0] == "SOLVER" and n_made[0][1] is opts)
                                u.record("one NLP solve", "number of solver calls", len(n_runs) == 1)
                                if len(n_runs) != 1:
                                    return
                                k = {a: I.force(b) for a, b in n_runs[0][1].items()}
                                w = mine if sw else eqw
                                want = dict(ws)
                                want.update(bounds[1 if build_ else 0])
                                if cls == "mpopt":
                                    want["p"] = w
                                u.record("the solver receives the warm start, the widths and the bounds of the assembled NLP", "solver inputs",
                                         not n_runs[0][0] and set(k) == set(want) and all(k[a] is b for a, b in want.items()))
                                u.record("warm start from the given solution", "argument", len(wc) == 1 and wc[0] is ini)
                                u.record("the solver's result is returned", "result", r is result)
                                u.record("widths of the solve are stored", "_nlp_sw_params", I.getattr(s, "_nlp_sw_params") is w)
                                u.record("caller's dictionaries unchanged", "frame", (mo.v, opts.v) == before)
                            u.run(lambda: u.call(s, "solve", ini, re, "SOLVER", opts, mo), post)
                        S.unit("solve/%s%s%s%s%s" % ("initialised" if init else "fresh", "/reinitialise" if re else "", "/user widths" if sw else "",
                                                    "/muted" if mute else "", "/initial solution" if warm else ""), cls + ".solve", build, theory(), {})


def one_call_unit(S):
    """the module's solve(): an optimizer of the given problem and discretisation, solved as requested"""
    keys = ("initial_solution", "solver", "nlp_solver_options", "mpopt_options", "reinitialize_nlp")
    for given in (True, False):
        def build(u, given=given):
            I = u.I
            made, solves, posts = [], [], []
            res, data = Opaque("solution"), Opaque("data")
            I.contracts["mpopt.__init__"] = Con(lambda I, v: (made.append((v["self"], v["problem"], v["n_segments"], v["poly_orders"], v["scheme"])), None)[1])
            I.contracts["mpopt.solve"] = Con(lambda I, v: (solves.append((v["self"], {k: v[k] for k in keys})), res)[1])
            I.contracts["mpopt.process_results"] = Con(lambda I, v: (posts.append((v["self"], v["solution"], v["scaling"])), data)[1])
            ocp, orders, scheme = Opaque("problem"), Opaque("orders"), Opaque("scheme")
            req = {k: Opaque("requested " + k) for k in keys} if given else {}

            def post(r):
                m, s, p = list(made), list(solves), list(posts)
                del made[:], solves[:], posts[:]
                u.record("one optimizer of the given problem and discretisation", "arguments",
                         len(m) == 1 and m[0][1] is ocp and same(m[0][2], NS) and m[0][3] is orders and m[0][4] is scheme)
                u.record("one solve, as requested", "arguments", len(s) == 1 and len(m) == 1 and s[0][0] is m[0][0] and all(s[0][1][k] is x for k, x in req.items())
                         and (given or s[0][1]["initial_solution"] is None and s[0][1]["solver"] == "ipopt"))
                u.record("its solution is post-processed without scaling", "arguments", len(p) == 1 and len(m) == 1 and p[0][0] is m[0][0] and p[0][1] is res and p[0][2] is False)
                r = tuple(r.items()) if isinstance(r, PList) and r.concrete() else r
                u.record("the optimizer and the data are returned", "result", isinstance(r, tuple) and len(r) == 2 and len(m) == 1 and r[0] is m[0][0] and r[1] is data)
            f = I.glob.d["solve"]
            u.run(lambda: I.run_func(f, [ocp], dict(n_segments=NS, poly_orders=orders, scheme=scheme, plot=False, **({"solve_dict": PDict(dict(req))} if given else {}))), post)
        S.unit("one-call solve%s" % ("/requests" if given else ""), "solve", build, theory(), {})


def c12(S):
    create_solver_unit(S, "mpopt")
    warm_start_unit(S)
    widths_unit(S)
    solve_unit(S)
    one_call_unit(S)
    opts = [nm for fn, nm, opt in GROUPS["mpopt"] if opt]
    for m in range(2 ** len(opts)):
        discretize_unit(S, "mpopt", {o for i, o in enumerate(opts) if m >> i & 1})
    for ev in (False, True):
        nlp_unit(S, "mpopt", ev)
