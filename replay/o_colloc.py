"""Concrete references for C01-C04."""
import numpy as np
import casadi as ca
from mpopt import mp

POLY = np.polynomial.polynomial


def jacobi_zeros(n, a, b):
    """zeros of P_n^(a,b) from the Golub-Welsch matrix (own implementation)"""
    if n == 0:
        return np.zeros(0)
    k = np.arange(n, dtype=float)
    al = np.zeros(n)
    for i in range(n):
        if i == 0:
            al[i] = (b - a) / (a + b + 2.0)
        else:
            al[i] = (b * b - a * a) / ((2.0 * i + a + b) * (2.0 * i + a + b + 2))
    be = np.zeros(max(n - 1, 0))
    for i in range(1, n):
        if i == 1:
            be[0] = 4.0 * (1 + a) * (1 + b) / ((2 + a + b) ** 2 * (3 + a + b))
        else:
            be[i - 1] = 4.0 * i * (i + a) * (i + b) * (i + a + b) / ((2.0 * i + a + b) ** 2 * (2 * i + a + b + 1) * (2 * i + a + b - 1))
    M = np.diag(al) + np.diag(np.sqrt(be), 1) + np.diag(np.sqrt(be), -1)
    return np.sort(np.linalg.eigvalsh(M))


def ref_nodes(scheme, p, a=-1.0, b=1.0):
    if scheme == "CGL":
        x = -np.cos(np.pi * np.arange(p + 1) / p)
    else:
        x = np.concatenate([[-1.0], jacobi_zeros(p - 1, 1.0, 0.0 if scheme == "LGR" else 1.0), [1.0]])
    return a + (b - a) / 2 * (x + 1)


GEN = {"LGR": "roots_legendre_gauss_radau", "LGL": "roots_legendre_gauss_lobatto", "CGL": "roots_chebyshev_gauss_lobatto"}
SCHEMES = ("LGR", "LGL", "CGL")


def c01(r):
    r.rule = "scheme x degree x interval; distinct tuples; every documented scheme, degrees 1..%d" % (60 if r.thorough else 30)

    def check(scheme, p, a, b, x, how):
        inp = {"scheme": scheme, "degree": int(p), "interval": [a, b], "through": how}
        r.case(inp)
        x = np.array(x, dtype=float)
        sc = abs(b - a) + abs(a) + abs(b)
        if x.shape != (p + 1,):
            r.fail("count", "node generator does not return p+1 points", inp, p + 1, list(x.shape))
            return
        if abs(x[0] - a) > 1e-12 * sc or abs(x[-1] - b) > 1e-12 * sc:
            r.fail("ends", "first/last node is not the end of the interval", inp, [a, b], [x[0], x[-1]])
        if not (np.diff(x) > 0).all():
            r.fail("order", "nodes are not strictly increasing", inp, None, x)
        r.close("points", "nodes are not the Gauss-type points of the scheme", inp, x, ref_nodes(scheme, int(p), a, b), 0, 1e-9 * sc)

    top = 60 if r.thorough else 30
    for scheme in SCHEMES:
        ivs = [(-1, 1), (0, 1), (-3.5, 2.25), (1e-3, 2e-3), (-1e4, 5.0)]
        for a, b in ivs:
            gen = getattr(mp.CollocationRoots, GEN[scheme])(a, b)
            ps = list(range(1, top + 1)) if (a, b) == (-1, 1) else [1, 2, 3, 4, 5, 8, 13]
            for p in ps:
                r.run("gen", {"scheme": scheme, "degree": p, "iv": [a, b]}, lambda: check(scheme, p, a, b, gen(p), "generator"))
        obj = mp.CollocationRoots(scheme)
        col = mp.Collocation([2, 3], scheme)
        for p in [5, 1, 2, np.int64(4), 5, 3]:
            r.run("obj", {"scheme": scheme, "degree": int(p)}, lambda: check(scheme, p, -1.0, 1.0, obj._taus_fn(p), "CollocationRoots"))
            r.run("col", {"scheme": scheme, "degree": int(p)}, lambda: check(scheme, p, -1.0, 1.0, col._taus_fn(p), "Collocation"))
        try:
            mp.CollocationRoots._TAU_MIN, mp.CollocationRoots._TAU_MAX = 0.0, 2.0
            o2 = mp.CollocationRoots(scheme)
            for p in (1, 2, 5):
                r.run("attr", {"scheme": scheme, "degree": p, "iv": [0, 2]}, lambda: check(scheme, p, 0.0, 2.0, o2._taus_fn(p), "class interval"))
        finally:
            mp.CollocationRoots._TAU_MIN, mp.CollocationRoots._TAU_MAX = -1, 1
    n = 0
    while n < (400 if r.thorough else 60) and r.more():
        n += 1
        scheme = SCHEMES[r.rng.randint(3)]
        a = float(np.round(r.rng.uniform(-10, 10), 3))
        b = a + float(np.round(r.rng.uniform(0.01, 20), 3))
        p = int(r.rng.randint(1, top))
        r.run("rnd", {"scheme": scheme, "degree": p, "iv": [a, b]}, lambda: check(scheme, p, a, b, getattr(mp.CollocationRoots, GEN[scheme])(a, b)(p), "generator"))


# ---------------------------------------------------------------- bases
def basis(nodes):
    """coefficient arrays (increasing powers) of the Lagrange basis"""
    nodes = np.asarray(nodes, dtype=float)
    out = []
    for j in range(len(nodes)):
        c = np.array([1.0])
        for i in range(len(nodes)):
            if i != j:
                c = POLY.polymul(c, np.array([-nodes[i], 1.0]) / (nodes[j] - nodes[i]))
        out.append(c)
    return out


def Dref(nodes, pts, order):
    return np.array([[POLY.polyval(t, POLY.polyder(c, order)) if len(c) > order else 0.0 for c in basis(nodes)] for t in pts]).reshape(len(pts), len(nodes))


def Cref(nodes, pts):
    return np.array([[POLY.polyval(t, c) for c in basis(nodes)] for t in pts]).reshape(len(pts), len(nodes))


def Qref(nodes, a, b):
    return np.array([POLY.polyval(b, POLY.polyint(c)) - POLY.polyval(a, POLY.polyint(c)) for c in basis(nodes)])


class Method:
    def __init__(self, m):
        self.m = m

    def __enter__(self):
        self.old = mp.Collocation.D_MATRIX_METHOD
        mp.Collocation.D_MATRIX_METHOD = self.m

    def __exit__(self, *a):
        mp.Collocation.D_MATRIX_METHOD = self.old


def c02(r):
    r.rule = "(computation method, scheme or custom nodes, cache history, degree, points, order/limits); distinct tuples"

    def one(method, scheme, orders, custom, reqs):
        with Method(method):
            c = mp.Collocation(list(orders), scheme)
            nodes = lambda k: ref_nodes(scheme, k)
            if custom:
                c.init_polynomials_with_customized_roots({k: np.array(v) for k, v in custom.items()})
                nodes = lambda k: np.array(custom[k]) if k in custom else ref_nodes(scheme, k)
            hist = []
            for q in reqs:
                kind, k = q[0], q[1]
                inp = {"method": method, "scheme": scheme, "orders": list(orders), "custom": custom, "history": list(hist), "request": q}
                hist.append(q)
                r.case(inp)
                x = nodes(k)
                tol = 1e-6 if len(x) < 14 else 1e-4
                if kind == "D":
                    o = q[2]
                    pts = x if q[3] is None else q[3]
                    kw = {} if q[3] is None else {"taus": np.array(q[3], dtype=float)}
                    if o != 1 or q[3] is not None:
                        kw["order"] = o
                    ref = Dref(x, pts, o)
                    r.close("diff", "differentiation matrix entry is not the derivative of the basis polynomial", inp, np.array(c.get_diff_matrix(k, **kw)).reshape(ref.shape), ref, tol, tol * (1 + abs(ref).max() if ref.size else 1))
                elif kind == "C":
                    ref = Cref(x, q[2])
                    r.close("interp", "interpolation matrix entry is not the basis polynomial's value", inp, np.array(c.get_interpolation_matrix(np.array(q[2]), k)).reshape(ref.shape), ref, tol, tol * (1 + abs(ref).max() if ref.size else 1))
                elif kind == "Q":
                    a, b = q[2], q[3]
                    kw = {}
                    if a is not None:
                        kw["tau0"] = a
                    if b is not None:
                        kw["tau1"] = b
                    ref = Qref(x, -1.0 if a is None else a, 1.0 if b is None else b)
                    t2 = 1e-5 if method == "symbolic" else tol
                    r.close("quad", "quadrature weight is not the integral of the basis polynomial", inp, np.array(c.get_quadrature_weights(k, **kw)).ravel(), ref, t2, t2 * (1 + abs(ref).max()))
                elif kind == "L":
                    P = c.polys[k] if k in c.polys else c.get_lagrange_polynomials(x)
                    if method == "numerical":
                        M = np.array([[p(t) for p in P] for t in x])
                        r.close("cardinal", "basis polynomial is not 1 at its node and 0 at the others", inp, M, np.eye(len(x)), 0, 1e-6)
                elif kind == "Ds":
                    d = c.get_diff_matrices(list(q[2]), order=q[3]) if q[2] is not None else c.get_diff_matrices(order=q[3])
                    for k2 in (q[2] if q[2] is not None else orders):
                        ref = Dref(nodes(k2), nodes(k2), q[3])
                        r.close("diffs", "get_diff_matrices entry", inp, np.array(d[k2]), ref, tol, tol * (1 + abs(ref).max()))

    rr = lambda n: [float(v) for v in np.round(r.rng.uniform(-1.3, 1.3, n), 4)]
    for method in ("numerical", "symbolic"):
        for scheme in SCHEMES:
            reqs = [("D", 3, 1, None), ("D", 3, 2, None), ("Q", 3, None, None), ("D", 5, 1, None), ("D", 5, 2, rr(4)), ("C", 5, rr(3)), ("Q", 5, -0.5, None),
                    ("Q", 3, None, 0.25), ("C", 2, rr(5)), ("D", 2, 1, rr(3)), ("D", 1, 1, None), ("D", 1, 2, None), ("Q", 1, None, None), ("C", 1, rr(2)),
                    ("L", 3), ("Ds", 3, [4, 2, 4], 1), ("Ds", 3, None, 2), ("Q", 4, -1.0, -0.2), ("D", 3, 1, None), ("C", 4, []), ("D", 4, 1, []), ("Q", 4, 0.0, 1.0)] + ([("Q", 4, 0, 0)] if method == "numerical" else [])
            r.run("c02", {"m": method, "s": scheme}, lambda: one(method, scheme, [3, 4, 3], None, reqs))
            r.run("c02", {"m": method, "s": scheme, "one": 1}, lambda: one(method, scheme, [2], None, [("D", 6, 2, None), ("D", 6, 1, None), ("Q", 6, None, None), ("C", 7, rr(2))]))
        cust = {7: [-1.0, -0.2, 0.3, 1.0], 2: [0.0, 0.5, 2.0], 9: [0.4]}
        r.run("c02", {"m": method, "custom": 1}, lambda: one(method, "LGR", [3], cust, [("D", 7, 1, None), ("D", 7, 2, rr(3)), ("C", 7, rr(4)), ("Q", 7, None, None), ("Q", 2, 0.1, 0.9), ("D", 2, 2, None),
                                                                                        ("C", 9, rr(2)), ("D", 3, 1, None), ("L", 7), ("Q", 9, None, None)]))
        # an unsorted custom node set
        r.run("c02", {"m": method, "custom": 2}, lambda: one(method, "CGL", [3], {3: [0.9, -0.7, 0.1, -0.1, 0.5]}, [("D", 3, 1, None), ("C", 3, rr(4)), ("Q", 3, None, None), ("L", 3)]))
    def again(method):
        # a key registered twice with other roots; a degree registered with custom roots after use
        with Method(method):
            c = mp.Collocation([3], "LGR")
            seqs = [("c0", [-1.0, 0.0, 1.0]), ("c0", [-0.5, 0.1, 0.7]), ("c0", [-0.5, 0.1, 0.7, 0.9]), (3, [-1.0, -0.3, 0.2, 0.8]), ("c0", [0.3, 0.9])]
            hist = []
            for key, x in seqs:
                hist.append([key, x])
                inp = {"method": method, "registered": list(hist), "key": key}
                r.case(inp)
                c.init_polynomials_with_customized_roots({key: np.array(x)})
                pts = rr(3)
                r.close("custom-again", "interpolation matrix of the registered roots", inp, np.array(c.get_interpolation_matrix(np.array(pts), key)), Cref(x, pts), 1e-7, 1e-7)
                r.close("custom-again", "differentiation matrix of the registered roots", inp, np.array(c.get_diff_matrix(key)), Dref(x, x, 1), 1e-6, 1e-6)
                r.close("custom-again", "quadrature weights of the registered roots", inp, np.array(c.get_quadrature_weights(key)).ravel(), Qref(x, -1, 1), 1e-5, 1e-5)
    for method in ("numerical", "symbolic"):
        r.run("again", {"m": method}, lambda: again(method))
    n = 0
    while n < (300 if r.thorough else 25) and r.more():
        n += 1
        method = "numerical" if r.rng.rand() < 0.8 else "symbolic"
        scheme = SCHEMES[r.rng.randint(3)]
        orders = [int(v) for v in r.rng.randint(1, 8, r.rng.randint(1, 4))]
        reqs = []
        for _ in range(6):
            k = int(r.rng.randint(1, 10 if method == "numerical" else 6))
            kind = "DCQD"[r.rng.randint(4)]
            if kind == "D":
                reqs.append(("D", k, int(r.rng.randint(1, 3)), None if r.rng.rand() < 0.5 else rr(r.rng.randint(1, 5))))
            elif kind == "C":
                reqs.append(("C", k, rr(r.rng.randint(1, 5))))
            else:
                ab = sorted(rr(2))
                reqs.append(("Q", k, None if r.rng.rand() < 0.4 else ab[0], None if r.rng.rand() < 0.4 else ab[1] if ab[1] > ab[0] else 2.0))
        reqs = [q for q in reqs if not (q[0] == "Q" and method == "symbolic" and (q[2] if q[2] is not None else -1) >= (q[3] if q[3] is not None else 1))]
        r.run("c02", {"m": method, "s": scheme, "o": orders, "q": reqs}, lambda: one(method, scheme, orders, None, reqs))


# ---------------------------------------------------------------- composite
def comp_rows(orders, blocks):
    """rows of blocks placed on the columns of their own segment"""
    N = sum(orders) + 1
    rows = []
    for s, p in enumerate(orders):
        o = sum(orders[:s])
        for row in blocks[s]:
            v = np.zeros(N)
            v[o:o + p + 1] = row
            rows.append(v)
    return np.array(rows).reshape(len(rows), N)


def compD(scheme, orders, order):
    bl = []
    for s, p in enumerate(orders):
        x = ref_nodes(scheme, p)
        D = Dref(x, x, order)
        bl.append(D if s == 0 else D[1:])
    return comp_rows(orders, bl)


def compQ(scheme, orders, a=-1.0, b=1.0):
    w = np.zeros(sum(orders) + 1)
    for s, p in enumerate(orders):
        o = sum(orders[:s])
        w[o:o + p + 1] += Qref(ref_nodes(scheme, p), a, b)
    return w


FIXED = [[1], [3], [1, 1], [2, 2], [3, 2], [2, 3, 1], [1, 4, 2, 2], [2, 2, 2, 2, 2], [5, 1, 3], [1, 1, 1, 4]]


def orders_stream(r, n):
    for o in FIXED:
        yield o
    k = 0
    while k < n and r.more():
        k += 1
        yield [int(v) for v in r.rng.randint(1, 7, r.rng.randint(1, 7))]


def calls(r, orders):
    """ways of passing the orders: own / list / tuple-array, with a different own list"""
    return [("own", list(orders), None), ("given", [2, 4], list(orders)), ("array", [3], np.array(orders)), ("ownarray", np.array(orders), None)]


def c03(r):
    r.rule = "(scheme, list of degrees, way of passing it, order, per-segment point lists); distinct tuples"
    with Method("numerical"):
        for orders in orders_stream(r, 200 if r.thorough else 25):
            scheme = SCHEMES[r.rng.randint(3)]
            for how, own, arg in calls(r, orders):
                def body():
                    c = mp.Collocation(own, scheme)
                    for order in (1, 2):
                        inp = {"scheme": scheme, "orders": orders, "how": how, "order": order}
                        r.case(inp)
                        ref = compD(scheme, orders, order)
                        r.close("D", "composite differentiation matrix", inp, np.array(c.get_composite_differentiation_matrix(arg, order)), ref, 1e-6, 1e-6 * abs(ref).max() + 1e-7)
                    for var in range(2):
                        taus = [np.round(r.rng.uniform(-1, 1, r.rng.randint(0, 4) if r.rng.rand() < 0.8 else 0), 3) for _ in orders]
                        if sum(len(t) for t in taus) == 0:
                            taus[r.rng.randint(len(taus))] = np.array([0.25])
                        inp = {"scheme": scheme, "orders": orders, "how": how, "taus": [t.tolist() for t in taus]}
                        r.case(inp)
                        ref = comp_rows(orders, [Cref(ref_nodes(scheme, p), t) for p, t in zip(orders, taus)])
                        r.close("C", "composite interpolation matrix", inp, np.array(c.get_composite_interpolation_matrix(taus, arg)), ref, 1e-7, 1e-7)
                        for order in (1, 2):
                            ref = comp_rows(orders, [Dref(ref_nodes(scheme, p), t, order) for p, t in zip(orders, taus)])
                            r.close("DC", "composite derivative-at-points matrix (order %d)" % order, inp, np.array(c.get_composite_interpolation_Dmatrix_at(taus, arg, order)), ref, 1e-6, 1e-6 * abs(ref).max() + 1e-7)
                r.run("c03", {"scheme": scheme, "orders": orders, "how": how}, body)


def c04(r):
    r.rule = "(scheme, list of degrees, way of passing it, integration limits); distinct tuples"
    with Method("numerical"):
        for orders in orders_stream(r, 300 if r.thorough else 40):
            for scheme in SCHEMES:
                for how, own, arg in calls(r, orders):
                    def body():
                        c = mp.Collocation(own, scheme)
                        lims = [(None, None), (-1, 0.5), (0, None), (None, 0.0), (-0.3, 0.9), (0, 0), (0, 1)]
                        for a, b in lims:
                            kw = {}
                            if a is not None:
                                kw["tau0"] = a
                            if b is not None:
                                kw["tau1"] = b
                            inp = {"scheme": scheme, "orders": orders, "how": how, "limits": [a, b]}
                            r.case(inp)
                            ref = compQ(scheme, orders, -1.0 if a is None else a, 1.0 if b is None else b)
                            got = np.array(c.get_composite_quadrature_weights(arg, **kw))
                            r.close("W", "composite quadrature weights", inp, got, ref.reshape(1, -1), 1e-8, 1e-8)
                    r.run("c04", {"scheme": scheme, "orders": orders, "how": how}, body)


ORACLES = {"C01": c01, "C02": c02, "C03": c03, "C04": c04}
