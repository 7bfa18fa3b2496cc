"""Contracts of class Collocation and CollocationRoots (properties C01-C04).

Specification vocabulary
  TAU(d,k)        k-th collocation node of degree d (k=0..d), the value of _taus_fn(d)[k]
  LAGP(j,vec,t)   value at t of Lagrange polynomial j of the node vector
  DL1/DL2(d,j,t)  first / second derivative of basis j of degree d at t
  QW(d,j,a,b)     integral over [a,b] of basis j of degree d
"""
from pyvc.verify import *
from pyvc.solve import Theory
from pyvc import lib
from pyvc.loops import SymD

T0, T1 = var("T0", "R"), var("T1", "R")      # reference interval


def tau(d, k):
    return app("TAU", (d, k), "R")


def nn_std(d):
    return add(d, 1)


def nn_any(d):
    return app("NN", (d,), "I")


def nodes(d, nn):
    return vecc(nn(d), lambda i: tau(d, i))


def lagp(j, nv, t):
    return app("LAGP", (j, nv, t), "R")


def lag_def(j, n, R, t):
    """definition of the Lagrange polynomial of nodes R(0..n-1)"""
    return PROD(0, n, lambda i: ite(eq(i, j), ONE, div(sub(t, R(i)), sub(R(j), R(i)))))


def basis(d, j, nn):
    nv = nodes(d, nn)
    return lambda t: lagp(j, nv, t)


def der1(d, j, nn, t):
    b = basis(d, j, nn)
    v = fresh("t", "R")
    return lib.DER(v, b(v), t)


def der2(d, j, nn, t):
    b = basis(d, j, nn)
    v, w = fresh("t", "R"), fresh("t", "R")
    return lib.DER(v, lib.DER(w, b(w), v), t)


def integral(d, j, nn, a, b):
    v = fresh("t", "R")
    return lib.ANTI(v, basis(d, j, nn)(v), a, b)


def DL(order, d, j, t):
    return app("DL%d" % order, (d, j, t), "R")


def QW(d, j, a, b):
    return app("QW", (d, j, a, b), "R")


def LV(d, j, t):
    return app("LV", (d, j, t), "R")


# ---------------------------------------------------------------- call-site contracts
class Con:
    def __init__(self, fn):
        self.fn = fn

    def apply(self, I, vals):
        return self.fn(I, vals)


def con_lagrange(I, v):
    roots = I.force(v["roots"])
    n = lib.length(I, roots)
    R = lambda i: term(lib.getitem(I, roots, i))
    sym = I.force(I.getattr(v["self"], "D_MATRIX_METHOD")) == "symbolic"
    with CTX.under():
        nv = vecc(n, R)
    if sym:
        return PList(n=n, fn=lambda j: lagp(j, nv, lib.TV), fresh=False)
    return PList(n=n, fn=lambda j: PolyV(lambda t: lagp(j, nv, t)))


def points(I, v):
    v = I.force(v)
    n = lib.length(I, v)
    return n, (lambda i: term(lib.getitem(I, v, i)))


def con_diff(nn):
    def f(I, v):
        d = term(v["key"])
        order = v["order"]
        if order not in (1, 2):
            CTX.oblige("derivative order is 1 or 2", FALSE)
        taus = v["taus"]
        if taus is None:
            n, t = nn(d), (lambda i: tau(d, i))
        else:
            n, t = points(I, taus)
        return Tensor("DM", (lib.DL(n), lib.DL(nn(d))), lambda i, j: DL(order, d, j, t(i)))
    return Con(f)


def con_interp(nn):
    def f(I, v):
        d = term(v["degree"])
        n, t = points(I, v["taus"])
        return Tensor("DM", (lib.DL(n), lib.DL(nn(d))), lambda i, j: LV(d, j, t(i)))
    return Con(f)


def con_quad(nn):
    def f(I, v):
        d = term(v["key"])
        s = v["self"]
        a = term(v["tau0"]) if v["tau0"] is not None else term(I.getattr(s, "tau0"))
        b = term(v["tau1"]) if v["tau1"] is not None else term(I.getattr(s, "tau1"))
        return Tensor("DM", (lib.DL(nn(d)), lib.DL(1)), lambda i, j: QW(d, i, a, b))
    return Con(f)


BASE = {"Collocation.get_lagrange_polynomials": Con(con_lagrange)}


def mats(nn):
    return dict(BASE, **{"Collocation.get_diff_matrix": con_diff(nn),
                         "Collocation.get_interpolation_matrix": con_interp(nn),
                         "Collocation.get_quadrature_weights": con_quad(nn)})


# ---------------------------------------------------------------- theory
def theory(nn=nn_std, custom=False):
    th = Theory()

    def distinct(a, b):
        d, i, j = a.args[0], a.args[1], b.args[1]
        if a.args[0] is not b.args[0]:
            return []
        return [implies(and_(le(0, i), lt(i, j), lt(j, nn(d))), lt(a, b) if not custom else ne(a, b))]
    th.on_pair("TAU", distinct)
    th.on("p", lambda a, t: [ge(t, 1)])
    th.on("NN", lambda a, t: [ge(t, 1)])

    def psum(a, t):
        """prefix sums of the polynomial orders: positive summands"""
        lo, hi, l = a
        out = [implies(le(hi, lo), eq(t, 0))]
        body = l.args[0]
        if body.op == "app" and body.data in ("p", "nt") and body.args[0].op == "bvar":
            out += [implies(le(lo, hi), ge(t, 0 if body.data == "nt" else sub(hi, lo)))]
            out += [implies(lt(lo, hi), ge(t, add(inst(l, lo), 0 if body.data == "nt" else sub(sub(hi, lo), 1))))]
        return out
    th.on("SUM", psum)

    def psum2(s, t):
        if s.args[2] is not t.args[2] or s.args[0] is not t.args[0]:
            return []
        l = s.args[2]
        body = l.args[0]
        if not (body.op == "app" and body.data in ("p", "nt") and body.args[0].op == "bvar"):
            return []
        a, b = s.args[1], t.args[1]
        inc = 1 if body.data == "p" else 0
        # a<b  =>  S(a)+f(a) <= S(b) - (b-a-1)*inc
        return [implies(eq(a, b), eq(s, t)), implies(and_(le(s.args[0], a), lt(a, b)), le(add(s, inst(l, a), mul(inc, sub(b, add(a, 1)))), t)),
                implies(eq(b, add(a, 1)), or_(lt(a, s.args[0]), eq(t, add(s, inst(l, a)))))]
    th.on_pair("SUM", psum2)
    return th


# ---------------------------------------------------------------- scenario
def colloc(u, method, nn=nn_std, cache=True):
    """an arbitrary Collocation object satisfying the class invariant"""
    I = u.I
    I.set_class_attr("Collocation", "D_MATRIX_METHOD", method)
    s = Inst("Collocation")
    ns = var("ns", "I")
    u.hyp(ge(ns, 1), lt(T0, T1))
    orders = PList(n=ns, fn=lambda k: app("p", (k,), "I"))
    s.d["poly_orders"] = orders
    s.d["unique_polys"] = SymSet(orders)
    s.d["tau0"], s.d["tau1"] = T0, T1
    s.d["_taus_fn"] = taus_fn(nn)
    cls = ClassVal("Collocation")
    s.d["poly_fn"] = I.getattr(cls, "get_lagrange_polynomials")
    s.d["diff_matrix_fn"] = I.getattr(cls, "get_diff_matrix")
    s.d["quad_matrix_fn"] = I.getattr(cls, "get_quadrature_weights")
    has = lambda tag, d: app("CACHED", (d,), "B") if tag == "int" else FALSE
    s.d["roots"] = symdict(has, lambda tag, d: node_vec(d, nn))
    s.d["polys"] = symdict(has, lambda tag, d: poly_list(d, nn, method))
    return s


def symdict(has, get):
    d = PDict({})
    d.d["v"] = SymD(has, get)
    d.d["v"].log = []
    return d


def taus_fn(nn):
    def f(I, args, kw):
        d = term(args[0] if args else list(kw.values())[0])
        CTX.oblige("degree is a valid key of the node generator", TRUE)
        return node_vec(d, nn)
    return PyFn(f, "_taus_fn")


def node_vec(d, nn):
    return leafvec("np", nn(d), lambda k: tau(d, k))


def poly_list(d, nn, method):
    if method == "symbolic":
        return PList(n=nn(d), fn=lambda j: basis(d, j, nn)(lib.TV))
    return PList(n=nn(d), fn=lambda j: PolyV(basis(d, j, nn)))


def invariant(u, s, method, nn, present=None):
    """class invariant after the call: every cached key holds its nodes and basis"""
    r, q = s.d["roots"], s.d["polys"]
    d2 = fresh("key", "I")
    for nm, dct, want in (("roots", r, lambda: node_vec(d2, nn)), ("polys", q, lambda: poly_list(d2, nn, method))):
        if not isinstance(dct, PDict):
            u.fail("cache " + nm, "not a dictionary")
            continue
        c = lib.symd_of(dct.v)
        h = c.has("int", d2)
        u.oblige("cache %s keeps its keys" % nm, implies(app("CACHED", (d2,), "B"), h))
        if present is not None:
            u.oblige("cache %s holds the requested key" % nm, c.has("int", present))
        with CTX.under(h):
            u.eq("invariant: cached " + nm, c.get("int", d2), want())


# ---------------------------------------------------------------- units
METHODS = ("numerical", "symbolic")


def c02(S):
    for method in METHODS:
        u_lagrange(S, method)
        u_init(S, method)
        u_init_polys(S, method)
        u_custom(S, method)
        for order in (1, 2):
            for given in (False, True):
                u_diff(S, method, order, given)
        u_interp(S, method)
        for lims in (0, 1, 2, 3):
            u_quad(S, method, lims)
    u_lemma(S)


def u_lagrange(S, method):
    def build(u):
        I = u.I
        I.set_class_attr("Collocation", "D_MATRIX_METHOD", method)
        n = var("n", "I")
        u.hyp(ge(n, 1))
        R = lambda i: app("R", (i,), "R")
        u.th.on_pair("R", lambda a, b: [implies(and_(le(0, a.args[0]), lt(a.args[0], b.args[0]), lt(b.args[0], n)), ne(a, b))])
        u.satisfiable()

        def post(r):
            u.eq("basis polynomials", r, PList(n=n, fn=lambda j: PolyV(lambda t: lag_def(j, n, R, t))))
        u.run(lambda: u.call(ClassVal("Collocation"), "get_lagrange_polynomials", leafvec("np", n, R)), post)
    S.unit("lagrange/" + method, "Collocation.get_lagrange_polynomials", build)


def u_lemma(S):
    """cardinality: basis j is one at node j and zero at every other node"""
    def build(u):
        n, j, m = var("n", "I"), var("j", "I"), var("m", "I")
        R = lambda i: app("R", (i,), "R")
        u.th.on_pair("R", lambda a, b: [implies(and_(le(0, a.args[0]), lt(a.args[0], b.args[0]), lt(b.args[0], n)), ne(a, b))])
        u.hyp(ge(n, 1), le(0, j), lt(j, n), le(0, m), lt(m, n))
        u.satisfiable()
        P = lag_def(j, n, R, R(m))
        # products with a zero factor are zero; products of ones are one
        u.th.on("PROD", prod_facts)
        u.th.on("EXPROD", lambda a, t: [])
        with CTX.under(eq(m, j)):
            u.oblige("basis j is 1 at node j", eq(lag_def(j, n, R, R(j)), 1))
        with CTX.under(ne(m, j)):
            u.prod_wit = [m]
            u.oblige("basis j is 0 at node m != j", eq(P, 0))
    S.unit("cardinality", "lemma", build)


def prod_facts(a, t):
    lo, hi, l = a
    out = []
    v = fresh("w", "I")
    # all factors one -> product one (skolem witness v of a factor different from one)
    out.append(or_(eq(t, 1), and_(le(lo, v), lt(v, hi), ne(inst(l, v), 1))))
    # a zero factor at any integer variable in sight
    for x in _ints(t):
        out.append(implies(and_(le(lo, x), lt(x, hi), eq(inst(l, x), 0)), eq(t, 0)))
    return out


def _ints(t):
    return sorted((x for x in fv(t) if x.sort == "I"), key=lambda x: x.id)


def u_init(S, method):
    def build(u):
        I = u.I
        I.set_class_attr("Collocation", "D_MATRIX_METHOD", method)
        ns = var("ns", "I")
        u.hyp(ge(ns, 1), lt(T0, T1))
        orders = PList(n=ns, fn=lambda k: app("p", (k,), "I"))
        scheme = Opaque("scheme")
        I.contracts["CollocationRoots.__init__"] = Con(lambda I, v: con_roots_init(I, v, scheme))
        u.satisfiable()

        def go():
            s = Inst("Collocation")
            I.run_func(I.getattr(s, "__init__").fn, [s, orders, scheme], {})
            return s

        def post(s):
            u.eq("tau0", s.d.get("tau0"), T0)
            u.eq("tau1", s.d.get("tau1"), T1)
            u.eq("poly_orders", s.d.get("poly_orders"), orders)
            for f, w in (("poly_fn", "get_lagrange_polynomials"), ("diff_matrix_fn", "get_diff_matrix"), ("quad_matrix_fn", "get_quadrature_weights")):
                g = s.d.get(f)
                g = g.fn if isinstance(g, Bound) else g
                u.record(f, "is Collocation." + w, isinstance(g, FuncVal) and g.name == "Collocation." + w, detail="got %r" % (g,))
            k = fresh("seg", "I")
            with CTX.under(le(0, k), lt(k, ns)):
                d = app("p", (k,), "I")
                for nm in ("roots", "polys"):
                    c = lib.symd_of(s.d[nm].v)
                    u.oblige("%s holds every requested degree" % nm, c.has("int", d))
            d2 = fresh("key", "I")
            for nm, want in (("roots", node_vec(d2, nn_std)), ("polys", poly_list(d2, nn_std, method))):
                c = lib.symd_of(s.d[nm].v)
                with CTX.under(c.has("int", d2)):
                    u.eq("invariant established: " + nm, c.get("int", d2), want)
        u.run(go, post)
    S.unit("constructor/" + method, "Collocation.__init__", build, theory(), BASE)


def con_roots_init(I, v, scheme):
    s = v["self"]
    if v["scheme"] is not scheme:
        CTX.oblige("the requested scheme is passed on", FALSE)
    CTX.set(s, "scheme", v["scheme"])
    CTX.set(s, "_taus_fn", taus_fn(nn_std))
    I.set_class_attr("CollocationRoots", "_TAU_MIN", T0)
    I.set_class_attr("CollocationRoots", "_TAU_MAX", T1)
    return None


def u_init_polys(S, method):
    def build(u):
        s = colloc(u, method)
        n = var("m", "I")
        u.hyp(ge(n, 0))
        u.satisfiable()
        lst = PList(n=n, fn=lambda k: app("q", (k,), "I"))

        def post(r):
            invariant(u, s, method, nn_std)
            k = fresh("seg", "I")
            with CTX.under(le(0, k), lt(k, n)):
                for nm in ("roots", "polys"):
                    u.oblige("%s holds every requested degree" % nm, lib.symd_of(s.d[nm].v).has("int", app("q", (k,), "I")))
        u.run(lambda: u.call(s, "init_polynomials", lst), post)
    S.unit("init_polynomials/" + method, "Collocation.init_polynomials", build, theory(), BASE)


def u_custom(S, method):
    def build(u):
        s = colloc(u, method, nn_any)
        ds = [3, 7]
        u.satisfiable()
        CR = lambda d: leafvec("np", app("NC", (num(d),), "I"), lambda k: app("CR", (num(d), k), "R"))
        rd = PDict({d: CR(d) for d in ds})

        def post(r):
            for d in ds:
                c = lib.symd_of(s.d["roots"].v)
                u.oblige("custom key stored", c.has("int", num(d)))
                u.eq("custom nodes", c.get("int", num(d)), CR(d))
                nv = vecc(app("NC", (num(d),), "I"), lambda k: app("CR", (num(d), k), "R"))
                w = (lambda j: lagp(j, nv, lib.TV)) if method == "symbolic" else (lambda j: PolyV(lambda t: lagp(j, nv, t)))
                c = lib.symd_of(s.d["polys"].v)
                u.oblige("custom key stored", c.has("int", num(d)))
                u.eq("custom basis", c.get("int", num(d)), PList(n=app("NC", (num(d),), "I"), fn=w))
        u.run(lambda: u.call(s, "init_polynomials_with_customized_roots", rd), post)
    S.unit("custom roots/" + method, "Collocation.init_polynomials_with_customized_roots", build, theory(nn_any, True), BASE)


def u_diff(S, method, order, given):
    def build(u):
        nn = nn_any
        s = colloc(u, method, nn)
        d, m = var("d", "I"), var("m", "I")
        u.hyp(ge(m, 0))
        u.satisfiable()
        X = lambda i: app("X", (i,), "R")
        args = {"order": order}
        if given:
            args["taus"] = leafvec("np", m, X)
        n, pt = (m, X) if given else (nn(d), lambda i: tau(d, i))
        D = der1 if order == 1 else der2

        def post(r):
            u.eq("differentiation matrix", r, Tensor("DM", (lib.DL(n), lib.DL(nn(d))), lambda i, j: D(d, j, nn, pt(i))))
            invariant(u, s, method, nn)
        u.run(lambda: u.call(s, "get_diff_matrix", d, **args), post)
    S.unit("diff/%s/order %d/%s" % (method, order, "given points" if given else "nodes"), "Collocation.get_diff_matrix", build, theory(nn_any, True), BASE)


def u_interp(S, method):
    def build(u):
        nn = nn_any
        s = colloc(u, method, nn)
        d, m = var("d", "I"), var("m", "I")
        u.hyp(ge(m, 0))
        u.satisfiable()
        X = lambda i: app("X", (i,), "R")

        def post(r):
            u.eq("interpolation matrix", r, Tensor("DM", (lib.DL(m), lib.DL(nn(d))), lambda i, j: basis(d, j, nn)(X(i))))
            invariant(u, s, method, nn)
        u.run(lambda: u.call(s, "get_interpolation_matrix", leafvec("np", m, X), d), post)
    S.unit("interpolation/" + method, "Collocation.get_interpolation_matrix", build, theory(nn_any, True), BASE)


def u_quad(S, method, lims):
    def build(u):
        nn = nn_any
        s = colloc(u, method, nn)
        d = var("d", "I")
        u.satisfiable()
        kw = {}
        a, b = T0, T1
        if lims & 1:
            a = kw["tau0"] = var("a", "R")
        if lims & 2:
            b = kw["tau1"] = var("b", "R")

        def post(r):
            u.eq("quadrature weights", r, Tensor("DM", (lib.DL(nn(d)), lib.DL(1)), lambda j, z: integral(d, j, nn, a, b)))
            invariant(u, s, method, nn)
        u.run(lambda: u.call(s, "get_quadrature_weights", d, **kw), post)
    S.unit("quadrature/%s/limits %d" % (method, lims), "Collocation.get_quadrature_weights", build, theory(nn_any, True), BASE)


# ---------------------------------------------------------------- C03 / C04
def P(k):
    """first node of segment k: prefix sum of the polynomial orders"""
    return SUM(0, k, lambda i: app("p", (i,), "I"))


def pk(k):
    return app("p", (k,), "I")


def orders_arg(s, given, kind="list"):
    ns = var("ns", "I")
    if not given:
        return None
    if kind == "array":
        return leafvec("np", ns, pk)
    return PList(n=ns, fn=pk)


def in_seg(c, s):
    return and_(le(P(s), c), le(c, add(P(s), pk(s))))


def matrix_dict_checks(u, r, has_keys, want, name):
    k = fresh("seg", "I")
    if isinstance(r, PList) and has_keys(k) is k:
        # one matrix per segment, in order
        u.oblige(name + ": key present", eq(lib.length(u.I, r), var("ns", "I")))
        with CTX.under(le(0, k), lt(k, var("ns", "I"))):
            u.eq(name, lib.getitem(u.I, r, k), want(k))
        return
    c = lib.symd_of(r.v)
    with CTX.under(le(0, k), lt(k, var("ns", "I"))):
        key = has_keys(k)
        u.oblige(name + ": key present", c.has("int", key))
        with CTX.under(c.has("int", key)):
            u.eq(name, c.get("int", key), want(k))


NS = var("ns", "I")


def c03(S):
    nn = nn_std
    for given in (False, True):
        g = "given" if given else "own"
        for order in (1, 2):
            def build(u, order=order, given=given):
                s = colloc(u, "numerical")
                u.satisfiable()

                def post(r):
                    matrix_dict_checks(u, r, pk, lambda k: Tensor("DM", (lib.DL(nn(pk(k))), lib.DL(nn(pk(k)))),
                                       lambda i, j: DL(order, pk(k), j, tau(pk(k), i))), "matrix of degree p_k")
                u.run(lambda: u.call(s, "get_diff_matrices", orders_arg(s, given), order=order), post)
            S.unit("diff matrices/order %d/%s" % (order, g), "Collocation.get_diff_matrices", build, theory(), mats(nn))

            def build(u, order=order, given=given):
                s = colloc(u, "numerical")
                mt = var("mt", "I")
                u.satisfiable()
                nt = lambda k: app("nt", (k,), "I")
                X = lambda k, i: app("X", (k, i), "R")
                u.th.on("nt", lambda a, t: [ge(t, 0)])
                taus = PList(n=NS, fn=lambda k: leafvec("np", nt(k), lambda i: X(k, i)))

                def post(r):
                    matrix_dict_checks(u, r, lambda k: k, lambda k: Tensor("DM", (lib.DL(nt(k)), lib.DL(nn(pk(k)))),
                                       lambda i, j: DL(order, pk(k), j, X(k, i))), "matrix of segment k")
                u.run(lambda: u.call(s, "get_interpolation_Dmatrices_at", taus, keys=orders_arg(s, given), order=order), post)
            S.unit("point derivative matrices/order %d/%s" % (order, g), "Collocation.get_interpolation_Dmatrices_at", build, theory(), mats(nn))

            def build(u, order=order, given=given):
                s = colloc(u, "numerical")
                u.satisfiable()

                def post(r):
                    N = add(P(NS), 1)
                    u.record("matrix", "is a matrix", isinstance(r, Tensor) and r.rank == 2)
                    u.oblige("rows: one per mesh node", eq(r.dims[0].size(), N))
                    u.oblige("columns: one per mesh node", eq(r.dims[1].size(), N))
                    c, k, j = fresh("c", "I"), fresh("s", "I"), fresh("j", "I")
                    with CTX.under(le(0, c), lt(c, N)):
                        u.eq("first row is the first row of segment 0", r.get(ZERO, c),
                             ite(le(c, pk(ZERO)), DL(order, pk(ZERO), c, tau(pk(ZERO), ZERO)), ZERO))
                        with CTX.under(le(0, k), lt(k, NS), le(1, j), le(j, pk(k))):
                            u.eq("row of node j of segment s", r.get(add(P(k), j), c),
                                 ite(in_seg(c, k), DL(order, pk(k), sub(c, P(k)), tau(pk(k), j)), ZERO))
                u.run(lambda: u.call(s, "get_composite_differentiation_matrix", orders_arg(s, given), order=order), post)
            S.unit("composite D/order %d/%s" % (order, g), "Collocation.get_composite_differentiation_matrix", build, theory(), comp_base(nn))
        for what in ("value", 1, 2):
            def build(u, what=what, given=given):
                s = colloc(u, "numerical")
                u.satisfiable()
                nt = lambda k: app("nt", (k,), "I")
                X = lambda k, i: app("X", (k, i), "R")
                u.th.on("nt", lambda a, t: [ge(t, 0)])
                taus = PList(n=NS, fn=lambda k: leafvec("np", nt(k), lambda i: X(k, i)))
                NT = lambda k: SUM(0, k, nt)

                def post(r):
                    N = add(P(NS), 1)
                    u.record("matrix", "is a matrix", isinstance(r, Tensor) and r.rank == 2)
                    u.oblige("rows: one per requested point", eq(r.dims[0].size(), NT(NS)))
                    u.oblige("columns: one per mesh node", eq(r.dims[1].size(), N))
                    c, k, j = fresh("c", "I"), fresh("s", "I"), fresh("j", "I")
                    with CTX.under(le(0, c), lt(c, N), le(0, k), lt(k, NS), le(0, j), lt(j, nt(k))):
                        v = LV(pk(k), sub(c, P(k)), X(k, j)) if what == "value" else DL(what, pk(k), sub(c, P(k)), X(k, j))
                        u.eq("row of point j of segment s", r.get(add(NT(k), j), c), ite(in_seg(c, k), v, ZERO))
                if what == "value":
                    u.run(lambda: u.call(s, "get_composite_interpolation_matrix", taus, orders_arg(s, given)), post)
                else:
                    u.run(lambda: u.call(s, "get_composite_interpolation_Dmatrix_at", taus, orders_arg(s, given), order=what), post)
            S.unit("composite %s/%s" % (what, g), "Collocation.get_composite_interpolation_" + ("matrix" if what == "value" else "Dmatrix_at"),
                   build, theory(), comp_base(nn))

        def build(u, given=given):
            s = colloc(u, "numerical")
            u.satisfiable()
            nt = lambda k: app("nt", (k,), "I")
            X = lambda k, i: app("X", (k, i), "R")
            u.th.on("nt", lambda a, t: [ge(t, 0)])
            taus = PList(n=NS, fn=lambda k: leafvec("np", nt(k), lambda i: X(k, i)))

            def post(r):
                matrix_dict_checks(u, r, lambda k: k, lambda k: Tensor("DM", (lib.DL(nt(k)), lib.DL(nn(pk(k)))),
                                   lambda i, j: LV(pk(k), j, X(k, i))), "matrix of segment k")
            u.run(lambda: u.call(s, "get_interpolation_matrices", taus, orders_arg(s, given)), post)
        S.unit("interpolation matrices/%s" % g, "Collocation.get_interpolation_matrices", build, theory(), mats(nn))
    u_partition(S)


def u_partition(S):
    """every node index 1..P(ns) belongs to exactly one (segment, local index 1..p): induction on the number of segments"""
    def build(u):
        n, r, a, b = var("n", "I"), var("r", "I"), var("a", "I"), var("b", "I")
        E = lambda m: EXISTSc(m, lambda s: and_(lt(P(s), r), le(r, P(add(s, 1)))))
        u.hyp(ge(n, 0))
        with CTX.under(le(1, r), le(r, P(ZERO))):
            u.oblige("base", FALSE)
        with CTX.under(le(1, r), le(r, P(add(n, 1))), or_(gt(r, P(n)), E(n))):
            u.oblige("step", E(add(n, 1)))
        with CTX.under(le(0, a), lt(a, b), lt(b, n), lt(P(a), r), le(r, P(add(a, 1))), lt(P(b), r), le(r, P(add(b, 1)))):
            u.oblige("uniqueness", FALSE)
    S.unit("node partition", "lemma", build, theory())


def con_dictmats(nn, key, val):
    """contract of the matrix dictionaries: an arbitrary dictionary of the right blocks"""
    return None


def comp_base(nn):
    """callers of the dictionary builders see their contracts"""
    b = mats(nn)

    def diffm(I, v):
        po = v["poly_orders"]
        order = v["order"]
        n, f = orders_of(I, v["self"], po)
        return symdict(lambda tag, d: EXISTSc(n, lambda k: eq(f(k), d)) if tag == "int" else FALSE,
                       lambda tag, d: Tensor("DM", (lib.DL(nn(d)), lib.DL(nn(d))), lambda i, j: DL(order, d, j, tau(d, i))))

    def dat(I, v):
        n, f = orders_of(I, v["self"], v["keys"])
        taus = I.force(v["taus"])
        order = v["order"]

        def get(tag, k):
            m, t = points(I, lib.getitem(I, taus, k))
            return Tensor("DM", (lib.DL(m), lib.DL(nn(f(k)))), lambda i, j: DL(order, f(k), j, t(i)))
        return symdict(lambda tag, k: and_(le(0, k), lt(k, n)) if tag == "int" else FALSE, get)

    def im(I, v):
        n, f = orders_of(I, v["self"], v["poly_orders"])
        taus = I.force(v["taus"])

        def get(tag, k):
            m, t = points(I, lib.getitem(I, taus, k))
            return Tensor("DM", (lib.DL(m), lib.DL(nn(f(k)))), lambda i, j: LV(f(k), j, t(i)))
        return symdict(lambda tag, k: and_(le(0, k), lt(k, n)) if tag == "int" else FALSE, get)

    def qm(I, v):
        n, f = orders_of(I, v["self"], v["keys"])
        s = v["self"]
        a = term(v["tau0"]) if v["tau0"] is not None else term(I.getattr(s, "tau0"))
        c = term(v["tau1"]) if v["tau1"] is not None else term(I.getattr(s, "tau1"))
        return symdict(lambda tag, d: EXISTSc(n, lambda k: eq(f(k), d)) if tag == "int" else FALSE,
                       lambda tag, d: Tensor("DM", (lib.DL(nn(d)), lib.DL(1)), lambda i, j: QW(d, i, a, c)))
    b["Collocation.get_diff_matrices"] = Con(diffm)
    b["Collocation.get_interpolation_Dmatrices_at"] = Con(dat)
    b["Collocation.get_interpolation_matrices"] = Con(im)
    b["Collocation.get_quad_weight_matrices"] = Con(qm)
    return b


def orders_of(I, s, po):
    if po is None:
        po = I.getattr(s, "poly_orders")
    po = I.force(po)
    if isinstance(po, SymSet):
        po = po.lst
    n = lib.length(I, po)
    return n, (lambda k: term(lib.getitem(I, po, k)))


def c04(S):
    nn = nn_std
    for given in (False, True):
        g = "given" if given else "own"
        for lims in (0, 1, 2, 3):
            def mk(u, lims=lims):
                kw, a, b = {}, T0, T1
                if lims & 1:
                    a = kw["tau0"] = var("a", "R")
                if lims & 2:
                    b = kw["tau1"] = var("b", "R")
                return kw, a, b

            def build(u, given=given, mk=mk):
                s = colloc(u, "numerical")
                kw, a, b = mk(u)
                u.satisfiable()

                def post(r):
                    matrix_dict_checks(u, r, pk, lambda k: Tensor("DM", (lib.DL(nn(pk(k))), lib.DL(1)),
                                       lambda i, j: QW(pk(k), i, a, b)), "weights of degree p_k")
                u.run(lambda: u.call(s, "get_quad_weight_matrices", orders_arg(s, given), **kw), post)
            S.unit("quadrature matrices/limits %d/%s" % (lims, g), "Collocation.get_quad_weight_matrices", build, theory(), mats(nn))

            def build(u, given=given, mk=mk):
                s = colloc(u, "numerical")
                kw, a, b = mk(u)
                u.satisfiable()

                def post(r):
                    N = add(P(NS), 1)
                    u.record("matrix", "is a matrix", isinstance(r, Tensor) and r.rank == 2)
                    u.oblige("one row", eq(r.dims[0].size(), 1))
                    u.oblige("one weight per mesh node", eq(r.dims[1].size(), N))
                    c, k, j = fresh("c", "I"), fresh("s", "I"), fresh("j", "I")
                    q = lambda s_, i: QW(pk(s_), i, a, b)
                    u.eq("first node", u.sparse(r.get(ZERO, ZERO), [ZERO]), q(ZERO, ZERO))
                    with CTX.under(le(0, k), lt(k, NS), le(1, j), le(j, pk(k))):
                        u.eq("node j of segment s", u.sparse(r.get(ZERO, add(P(k), j)), [k, add(k, 1)]),
                             ite(lt(j, pk(k)), q(k, j), add(q(k, pk(k)), ite(lt(add(k, 1), NS), q(add(k, 1), ZERO), ZERO))))
                u.run(lambda: u.call(s, "get_composite_quadrature_weights", orders_arg(s, given), **kw), post)
            S.unit("composite weights/limits %d/%s" % (lims, g), "Collocation.get_composite_quadrature_weights", build, theory(), comp_base(nn))
    u_partition(S)


# ---------------------------------------------------------------- C01
def roots_theory():
    th = Theory()
    th.on("JROOT", lambda a, t: [implies(and_(le(0, a[3]), lt(a[3], a[0])), and_(lt(-1, t), lt(t, 1)))])

    def inc(x, y):
        a, b = x.args, y.args
        if a[:3] != b[:3] and not all(i is j for i, j in zip(a[:3], b[:3])):
            return []
        return [implies(and_(le(0, a[3]), lt(a[3], b[3]), lt(b[3], a[0])), lt(x, y))]
    th.on_pair("JROOT", inc)
    PI = lib.PI
    th.on("cos", lambda a, t: [implies(eq(a[0], 0), eq(t, 1)), implies(eq(a[0], PI), eq(t, -1)), le(-1, t), le(t, 1), lt(3, PI)])
    th.on_pair("cos", lambda x, y: [implies(and_(le(0, x.args[0]), lt(x.args[0], y.args[0]), le(y.args[0], PI)), gt(x, y))])
    return th


SCHEMES = {"LGR": "roots_legendre_gauss_radau", "LGL": "roots_legendre_gauss_lobatto", "CGL": "roots_chebyshev_gauss_lobatto"}


def node_spec(scheme, d, k, a, b):
    """point k of degree d in [a,b]"""
    if scheme == "CGL":
        x = app("cos", (div(mul(lib.PI, sub(d, k)), d),), "R")
        return add(a, mul(div(sub(b, a), 2), add(x, 1)))
    al, be = (1, 0) if scheme == "LGR" else (1, 1)
    x = app("JROOT", (sub(d, 1), num(al), num(be), sub(k, 1)), "R")
    inner = add(a, mul(div(sub(b, a), 2), add(x, 1)))
    return ite(eq(k, 0), a, ite(eq(k, d), b, inner))


def c01(S):
    for scheme, meth in SCHEMES.items():
        for how in ("generator", "constructor", "default interval"):
            def build(u, scheme=scheme, meth=meth, how=how):
                I = u.I
                d = var("d", "I")
                a, b = (var("a", "R"), var("b", "R")) if how != "default interval" else (num(-1), num(1))
                u.hyp(ge(d, 1), lt(a, b))
                u.satisfiable()
                cls = ClassVal("CollocationRoots")

                def go():
                    if how == "generator":
                        return I.call(u.call(cls, meth, a, b), [d], {})
                    if how == "default interval":
                        return I.call(u.call(cls, meth), [d], {})
                    I.set_class_attr("CollocationRoots", "_TAU_MIN", a)
                    I.set_class_attr("CollocationRoots", "_TAU_MAX", b)
                    o = I.construct("CollocationRoots", [scheme], {})
                    return I.call(I.getattr(o, "_taus_fn"), [d], {})

                def post(r):
                    u.record("vector", "one-dimensional array", isinstance(r, Tensor) and r.rank == 1, detail="got %r" % (r,))
                    u.oblige("p+1 points", eq(r.dims[0].size(), add(d, 1)))
                    i = fresh("i", "I")
                    at = lambda j: term(r.get(j))
                    u.oblige("first point is the left end", eq(at(ZERO), a))
                    u.oblige("last point is the right end", eq(at(d), b))
                    with CTX.under(le(1, i), lt(i, d)):
                        u.oblige("interior points are the scheme's", eq(at(i), node_spec(scheme, d, i, a, b)))
                    with CTX.under(le(0, i), lt(i, d)):
                        u.oblige("strictly increasing", lt(at(i), at(add(i, 1))))
                u.run(go, post)
            S.unit("%s/%s" % (scheme, how), "CollocationRoots." + (meth if how != "constructor" else "__init__"), build, roots_theory())
