"""Contracts (models) of the Python built-ins, numpy and casadi operations used by the code.

Everything in this file is trusted: it states what the libraries compute over
mathematical reals.  tools/conform.py compares it with the installed libraries.
"""
from fractions import Fraction
import weakref
import math
from .terms import *
from . import terms as T
from .values import *
from .values import _MISSING
from .interp import IterV, Once, SuperV
from .loops import SymD
from .sel import *

CASADI = ("DM", "SX")


# ------------------------------------------------------------------ helpers
def sizes(v):
    return tuple(d.size() for d in v.dims)


def const(kind, dims, c):
    return Tensor(kind, dims, lambda *s: c)


def simp_dim(d):
    """DB/DC whose pieces all have size one become plain dimensions (with index map)"""
    if isinstance(d, DB):
        k = fresh("u", "I")
        with CTX.under(le(0, k), lt(k, d.n)):
            sz = d.g(k).size()
        if is_num(sz, 1):
            return DL(d.n), (lambda s: ("b", s, locate(d.g(s), ZERO)))
        if is_num(d.n, 1):
            return d.g(ZERO), (lambda s: ("b", ZERO, s))
    if isinstance(d, DC):
        if all(is_num(p.size(), 1) for p in d.parts):
            n = len(d.parts)
            if n == 1:
                return d.parts[0], (lambda s: ("c", 0, s))
            return DL(n), (lambda s: _pick(d, s))
        if len(d.parts) == 1:
            return d.parts[0], (lambda s: ("c", 0, s))
    return d, (lambda s: s)


def _pick(d, s):
    return locate(d, s)


def norm(kind, dims, f, **kw):
    """tensor with simplified dimensions"""
    ds, ms = [], []
    for d in dims:
        x, m = simp_dim(d)
        ds.append(x)
        ms.append(m)
    t = Tensor(kind, tuple(ds), None, **kw)
    probe = Tensor(kind, dims, f)
    t.d["f"] = lambda *s: probe.at(*[m(x) for m, x in zip(ms, s)])
    return t


def is_tensor(v):
    return isinstance(v, Tensor)


def scalar(v):
    return is_scalar(v) or is_bool(v)


def shape_eq(d1, d2, what="shape"):
    """obligation: equal sizes"""
    if d1 is d2:
        return
    a, b = d1.size(), d2.size()
    if a is b:
        return
    CTX.oblige(what, eq(a, b))


def one(d):
    s = d.size()
    return is_num(s, 1) or CTX.holds(eq(s, 1))


def remap(src, dst):
    """index map from dimension dst to dimension src of equal size"""
    if src is dst or same_dim(src, dst):
        return lambda s: s
    p = peeled(src, dst)
    if p is not None:
        return p
    return lambda s: locate(src, flat_of(dst, s))


def peeled(src, dst):
    """src is the first piece of dst followed by its other pieces"""
    if not (isinstance(dst, DB) and isinstance(src, DC) and len(src.parts) == 2 and isinstance(src.parts[1], DB)):
        return None
    a, b = src.parts
    if isinstance(dst.g(ZERO), DL) or not CTX.holds(eq(add(b.n, 1), dst.n)) or not same_dim(a, dst.g(ZERO)):
        return None
    v, r = CTX.bound(b.n, lambda k: same_dim(b.g(k), dst.g(add(k, 1))))
    if not r:
        return None
    return lambda s: ("c", 0, s[2]) if is_num(s[1], 0) else ("alt", eq(s[1], 0), ("c", 0, s[2]), ("c", 1, ("b", sub(s[1], 1), s[2])))


def nparray(I, v):
    """np.array(v)"""
    if isinstance(v, Tensor):
        r = Tensor("np", v.dims, v.f, elem=v.elem if v.kind == "np" else None)
        r.whole = v.whole
        return r
    if scalar(v):
        t = term(v)
        return Tensor("np", (), lambda: t)
    if isinstance(v, tuple):
        v = PList(list(v))
    if isinstance(v, PList):
        if not v.v:
            return Tensor("np", (DL(0),), lambda i: ZERO)
        return stack_list(I, v)
    if isinstance(v, Union):
        return nparray(I, I.force(v))
    if v is None:
        raise PyRaise("TypeError: array of None")
    raise Unsupported("np.array of %r" % (v,))


def probe_item(v):
    """generic elements of each piece: [(n, index var, value)]"""
    out = []
    for p in v.v:
        if p[0] == "i":
            out.append((None, None, p[1]))
        else:
            k = fresh("pi", "I")
            with CTX.under(le(0, k), lt(k, p[1])):
                out.append((p[1], k, p[2](k)))
    return out


def stack_list(I, v):
    pr = probe_item(v)
    vals = [x for n, k, x in pr]
    vals = [I.force(x) if isinstance(x, Union) and not CTX.lazy and not any(scalar(y) for c, y in x.alts) else x for x in vals]
    n = v.length()
    content = v.v

    def elem(k):
        return pitem(None, content, k)
    if all(scalar(x) or isinstance(x, Union) for x in vals):
        isb = all(is_bool(x) for x in vals)
        return Tensor("np", (DL(n),), lambda k: term(elem(k)), elem="B" if isb else None)
    if any(x is None for x in vals):
        raise Unsupported("array containing None")
    if any(scalar(x) for x in vals):
        raise Unsupported("ragged array")
    if not all(isinstance(x, (Tensor, PList, tuple)) for x in vals):
        return Tensor("np", (DL(n),), elem, elem="O")
    ts = [nparray(I, x) for x in vals]
    r = ts[0].rank
    # ragged: inner dimension depends on the index -> object array, kept as a list of rows
    for (pn, k, x), t in zip(pr, ts):
        if k is not None and any(k in fv(s) for s in sizes(t)):
            return PList(pieces=content)
    if any(t.rank != r for t in ts):
        raise Unsupported("ragged array")
    for t in ts[1:]:
        for a, b in zip(ts[0].dims, t.dims):
            if not same_dim(a, b):
                if CTX.decide(eq(a.size(), b.size())) is not True:
                    return PList(pieces=content)
    inner = ts[0].dims
    hy = None

    def f(k, *s):
        x = nparray(I, elem(k))
        return x.at(*[remap(d, e)(y) for d, e, y in zip(x.dims, inner, s)])
    return Tensor("np", (DL(n),) + tuple(inner), f)


def as_tensor(I, v, like=None):
    if isinstance(v, Tensor):
        return v
    return nparray(I, v)


def as_ca(I, v):
    """2-d casadi matrix"""
    if isinstance(v, Tensor):
        if v.kind in CASADI:
            return v
        if v.rank == 0:
            t = v.f()
            return Tensor("DM", (DL(1), DL(1)), lambda i, j: t)
        if v.rank == 1:
            f = v.f
            return Tensor("DM", (v.dims[0], DL(1)), lambda i, j: f(i), diag=None)
        if v.rank == 2:
            return Tensor("DM", v.dims, v.f)
        # drop unit dimensions
        keep = [i for i, d in enumerate(v.dims) if not is_num(d.size(), 1)]
        if len(keep) <= 1:
            w = reshape_to(I, v, [v.dims[i] for i in keep] or [DL(1)])
            return as_ca(I, w)
        raise Unsupported("casadi conversion of a 3-d array")
    if scalar(v):
        t = term(v)
        return Tensor("DM", (DL(1), DL(1)), lambda i, j: t)
    if isinstance(v, (PList, tuple)):
        if isinstance(v, tuple):
            v = PList(list(v))
        pr = probe_item(v)
        if not v.v:
            return Tensor("DM", (DL(0), DL(1)), lambda i, j: ZERO)
        if all(scalar(x) or isinstance(x, (Union,)) or (isinstance(x, Tensor) and all(is_num(d.size(), 1) for d in x.dims)) for n, k, x in pr):
            content = v.v
            return Tensor("DM", (DL(v.length()), DL(1)), lambda i, j: term(pitem(None, content, i)))
        return as_ca(I, nparray(I, v))
    raise Unsupported("casadi matrix from %r" % (v,))


# ------------------------------------------------------------------ elementwise
def tmap(f, *vs):
    """pointwise application with numpy / casadi broadcasting; result kind is derived"""
    ts = vs
    kind = "np"
    for v in ts:
        if isinstance(v, Tensor) and v.kind in CASADI:
            kind = "SX" if v.kind == "SX" or kind == "SX" else "DM"
    if kind in CASADI:
        ms = []
        for v in ts:
            if isinstance(v, Tensor) and v.kind not in CASADI:
                v = as_ca(None, v)
            ms.append(v)
        big = None
        for v in ms:
            if isinstance(v, Tensor) and not (is_num(v.dims[0].size(), 1) and is_num(v.dims[1].size(), 1)):
                big = v
                break
        if big is None:
            for v in ms:
                if isinstance(v, Tensor):
                    big = v
                    break
        dims = big.dims
        accs = []
        for v in ms:
            if not isinstance(v, Tensor):
                t = term(v)
                accs.append(lambda s, t=t: t)
            elif is_num(v.dims[0].size(), 1) and is_num(v.dims[1].size(), 1) and v is not big:
                g = v.get
                accs.append(lambda s, g=g: g(ZERO, ZERO))
            else:
                ok = True
                for a, b in zip(v.dims, dims):
                    shape_eq(a, b, "casadi shape match")
                mp = [remap(a, b) for a, b in zip(v.dims, dims)]
                at = Tensor(v.kind, v.dims, v.f).at
                accs.append(lambda s, at=at, mp=mp: at(*[m(x) for m, x in zip(mp, s)]))
        return Tensor(kind, dims, lambda *s: f(*[a(s) for a in accs]))
    rank = max([v.rank for v in ts if isinstance(v, Tensor)] + [0])
    dims = []
    for q in range(rank):
        d = None
        for v in ts:
            if not isinstance(v, Tensor):
                continue
            p = q - (rank - v.rank)
            if p < 0:
                continue
            x = v.dims[p]
            if d is None:
                d = x
            elif is_num(d.size(), 1) and not is_num(x.size(), 1):
                d = x
        dims.append(d)
    accs = []
    for v in ts:
        if not isinstance(v, Tensor):
            t = term(v)
            accs.append(lambda s, t=t: t)
            continue
        mp = []
        for p in range(v.rank):
            q = p + rank - v.rank
            x, d = v.dims[p], dims[q]
            if x is d:
                mp.append((q, lambda y: y))
            elif is_num(x.size(), 1) and not is_num(d.size(), 1):
                mp.append((q, lambda y, x=x: locate(x, ZERO)))
            else:
                shape_eq(x, d, "array shape match")
                mp.append((q, remap(x, d)))
        at = Tensor(v.kind, v.dims, v.f).at
        accs.append(lambda s, at=at, mp=mp: at(*[m(s[q]) for q, m in mp]))
    return Tensor("np", tuple(dims), lambda *s: f(*[a(s) for a in accs]))


def generic_index(dims):
    """fresh structured index with hypotheses (first alternative only for DC: see each)"""
    raise NotImplementedError


def each_index(dims):
    """list of (structured index tuple, hyps) covering all of dims"""
    per = [dim_cases(d) for d in dims]
    out = [((), ())]
    for cs in per:
        out = [(s + (i,), h + tuple(hy)) for s, h in out for i, hy in cs]
    return out


def dim_cases(d, pre="ix"):
    if isinstance(d, DL):
        if isnum(d.n) and d.n.data <= 1:
            if d.n.data <= 0:
                return []
            return [(ZERO, [])]
        v = fresh(pre, "I")
        return [(v, [le(0, v), lt(v, d.n)])]
    if isinstance(d, DC):
        out = []
        for p, x in enumerate(d.parts):
            for s, h in dim_cases(x, pre):
                out.append((("c", p, s), h))
        return out
    k = fresh(pre, "I")
    hk = [le(0, k), lt(k, d.n)]
    with CTX.under(*hk):
        return [(("b", k, s), hk + h) for s, h in dim_cases(d.g(k), pre)]


def check_nonzero(v, what="division by zero"):
    if CTX.suppress:
        return
    if isinstance(v, Tensor):
        for s, h in each_index(v.dims):
            with CTX.under(*h):
                CTX.oblige(what, ne(term(v.at(*s)), 0))
    else:
        t = term(v)
        if not isnum(t) or t.data == 0:
            CTX.oblige(what, ne(t, 0))


def arith(op, a, b):
    if op == "Add":
        return add(a, b)
    if op == "Sub":
        return sub(a, b)
    if op == "Mult":
        return mul(a, b)
    if op == "Div":
        return div(a, b)
    if op == "Pow":
        if isnum(b) and b.data.denominator == 1 and 0 <= b.data <= 16:
            return power(a, int(b.data))
        if isnum(b) and b.data == Fraction(1, 2):
            return app("sqrt", (a,), "R")
        return app("pow", (a, b), "R")
    if op == "FloorDiv":
        if a.sort == "I" and b.sort == "I":
            if isnum(a) and isnum(b):
                return num(int(a.data) // int(b.data))
            return app("floordiv", (a, b), "I")
        return app("floor", (div(a, b),), "I")
    if op == "Mod":
        if a.sort == "I" and b.sort == "I":
            if isnum(a) and isnum(b):
                return num(int(a.data) % int(b.data))
            return app("mod", (a, b), "I")
    if op == "BitAnd":
        return and_(a, b)
    if op == "BitOr":
        return or_(a, b)
    raise Unsupported("operator " + op)


def py(v):
    """python number for concrete terms"""
    if isinstance(v, Term) and v.op == "num":
        return int(v.data) if v.data.denominator == 1 else v.data
    if v is TRUE:
        return True
    if v is FALSE:
        return False
    return v


def binop(I, op, a, b):
    a, b = I.force(a), I.force(b)
    r = binop1(I, op, a, b)
    if isinstance(r, int) and (isinstance(a, Fraction) or isinstance(b, Fraction) or op == "Div"):
        return Fraction(r)            # a float
    return r


def binop1(I, op, a, b):
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        if (isinstance(a, Opaque) and a.name == "time") or (isinstance(b, Opaque) and b.name == "time"):
            return Opaque("time")
        raise Unsupported("arithmetic on %r, %r" % (a, b))
    if isinstance(a, PList) or isinstance(b, PList) or isinstance(a, tuple) or isinstance(b, tuple):
        la = isinstance(a, (PList, tuple))
        lb = isinstance(b, (PList, tuple))
        if op == "Add" and la and lb:
            pa = a.v if isinstance(a, PList) else tuple(("i", x) for x in a)
            pb = b.v if isinstance(b, PList) else tuple(("i", x) for x in b)
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            return PList(pieces=pa + pb)
        if op == "Mult" and (la and scalar(b) or lb and scalar(a)):
            lst, m = (a, b) if la else (b, a)
            return list_repeat(lst, m)
        if la and not isinstance(b, Tensor) or lb and not isinstance(a, Tensor):
            raise PyRaise("TypeError: list arithmetic")
        a = nparray(I, a) if la else a
        b = nparray(I, b) if lb else b
    if isinstance(a, str) or isinstance(b, str):
        if op == "Add" and isinstance(a, str) and isinstance(b, str):
            return a + b
        if op == "Mod":
            return Opaque("fstring")
        raise Unsupported("string operation")
    if isinstance(a, PolyV) or isinstance(b, PolyV):
        return poly_op(op, a, b)
    if isinstance(a, IterV) or isinstance(b, IterV):
        raise Unsupported("range arithmetic")
    if op == "MatMult":
        return np_dot(I, a, b)
    if scalar(a) and scalar(b):
        x, y = numterm(a), numterm(b)
        if op in ("BitAnd", "BitOr") and (x.sort != "B" or y.sort != "B"):
            raise Unsupported("bit operation")
        if op in ("Div", "FloorDiv", "Mod"):
            if isnum(y) and y.data == 0:
                raise PyRaise("ZeroDivisionError")
            check_nonzero(y)
        return py(arith(op, x, y))
    if isinstance(a, Tensor) and a.diag is not None and op == "Mult" and scalar(b) or isinstance(b, Tensor) and b.diag is not None and op == "Mult" and scalar(a):
        M, c = (a, term(b)) if isinstance(a, Tensor) else (b, term(a))
        dg = M.diag
        r = tmap(lambda x, y: mul(x, y), M, c)
        r.diag = lambda i: mul(dg(i), c)
        return r
    if isinstance(a, Tensor) or isinstance(b, Tensor):
        if op in ("Div", "FloorDiv", "Mod"):
            check_nonzero(b)
        return tmap(lambda x, y: arith(op, numterm(x), numterm(y)) if op not in ("BitAnd", "BitOr") else arith(op, boolterm(x), boolterm(y)), a, b)
    raise Unsupported("operator %s on %r, %r" % (op, a, b))


def numterm(v):
    t = term(v)
    if t.sort == "B":
        return ite(t, ONE, ZERO)
    return t


def poly_op(op, a, b):
    fa = a.fn if isinstance(a, PolyV) else (lambda t, c=term(a): c)
    fb = b.fn if isinstance(b, PolyV) else (lambda t, c=term(b): c)
    if op in ("Add", "Sub", "Mult"):
        return PolyV(lambda t: arith(op, fa(t), fb(t)))
    if op == "Div" and not isinstance(b, PolyV):
        check_nonzero(b)
        return PolyV(lambda t: div(fa(t), fb(t)))
    raise Unsupported("polynomial operator " + op)


def unop(I, op, v):
    if op == "USub":
        if isinstance(v, Fraction):
            return -v
        if scalar(v):
            return py(neg(numterm(v)))
        if isinstance(v, Tensor):
            return tmap(lambda x: neg(numterm(x)), v)
        if isinstance(v, PolyV):
            return PolyV(lambda t: neg(v.fn(t)))
    if op == "UAdd":
        return v
    if op == "Invert" and isinstance(v, Tensor):
        return tmap(lambda x: not_(x), v)
    if op == "Invert" and is_bool(v):
        return not_(term(v))
    raise Unsupported("unary " + op)


CMP = {"Lt": lt, "LtE": le, "Gt": gt, "GtE": ge, "Eq": eq, "NotEq": ne}


def compare(I, op, a, b):
    if op in ("Is", "IsNot"):
        r = is_same(I, a, b)
        if op == "IsNot":
            r = not_(r) if isinstance(r, Term) else (not r)
        return r
    if op in ("In", "NotIn"):
        r = contains(I, I.force(b), I.force(a))
        if op == "NotIn":
            r = not_(r) if isinstance(r, Term) else (not r)
        return r
    if op in ("Eq", "NotEq") and (a is None or b is None):
        r = is_same(I, a, b)
        return r if op == "Eq" else (not_(r) if isinstance(r, Term) else not r)
    if isinstance(a, Union) and all(scalar(x) for c, x in a.alts):
        a = term(a)
    if isinstance(b, Union) and all(scalar(x) for c, x in b.alts):
        b = term(b)
    a, b = I.force(a), I.force(b)
    if scalar(a) and scalar(b):
        r = CMP[op](numterm(a) if op not in ("Eq", "NotEq") or not (is_bool(a) and is_bool(b)) else term(a),
                    numterm(b) if op not in ("Eq", "NotEq") or not (is_bool(a) and is_bool(b)) else term(b))
        return py(r)
    if isinstance(a, str) or isinstance(b, str):
        if isinstance(a, str) and isinstance(b, str):
            r = a == b
        else:
            if isinstance(a, Opaque) or isinstance(b, Opaque):
                raise Unsupported("comparison with a symbolic string")
            r = False
        return r if op == "Eq" else (not r)
    if op in ("Eq", "NotEq"):
        r = py_eq(I, a, b)
        if r is not None:
            if op == "NotEq":
                r = not_(r) if isinstance(r, Term) else (not r)
            return py(r) if isinstance(r, Term) else r
    if isinstance(a, Tensor) or isinstance(b, Tensor):
        a = a if isinstance(a, Tensor) or scalar(a) else nparray(I, a)
        b = b if isinstance(b, Tensor) or scalar(b) else nparray(I, b)
        r = tmap(lambda x, y: CMP[op](numterm(x), numterm(y)), a, b)
        r.elem = "B"
        if r.rank == 0:
            return r.f()
        return r
    raise Unsupported("comparison %s of %r, %r" % (op, a, b))


def py_eq(I, a, b):
    """== on tuples / lists / dicts; None when not applicable"""
    if isinstance(a, PDict) and isinstance(b, PDict):
        if not isinstance(a.v, dict) or not isinstance(b.v, dict):
            return None
        if set(a.v) != set(b.v):
            return False
        if not a.v:
            return True
        return None
    if isinstance(a, (tuple, PList)) and isinstance(b, (tuple, PList)):
        la = PList(list(a)) if isinstance(a, tuple) else a
        lb = PList(list(b)) if isinstance(b, tuple) else b
        if isinstance(a, PList) and not a.tup and isinstance(b, tuple) or isinstance(b, PList) and not b.tup and isinstance(a, tuple):
            return False
        n, m = la.length(), lb.length()
        c = eq(n, m)
        if CTX.decide(c) is False:
            return False
        if is_num(n, 0) or is_num(m, 0):
            return c
        items = FORALLc(n, lambda k: term(compare(I, "Eq", la.item(k), lb.item(k))) if True else None)
        return and_(c, items)
    if type(a) != type(b) and not isinstance(a, Tensor) and not isinstance(b, Tensor):
        return False
    return None


def is_same(I, a, b):
    if b is None or a is None:
        x = a if b is None else b
        if x is None:
            return True
        if isinstance(x, Union):
            cs = [c for c, v in x.alts if v is None]
            # alternatives are exclusive and exhaustive
            out = []
            prev = TRUE
            for c, v in x.alts:
                if v is None:
                    out.append(and_(prev, c))
                prev = and_(prev, not_(c))
            return or_(*out) if out else False
        if isinstance(x, Poison):
            return is_same(I, I.force(x), None)
        nn = getattr(x, "none_if", None)
        if nn is not None:
            return nn
        return False
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, Obj) or isinstance(b, Obj):
        return a is b
    if same(a, b):
        return True
    raise Unsupported("identity comparison")


def contains(I, c, x):
    if isinstance(c, PDict):
        if isinstance(c.v, dict):
            k = dkey(x)
            if not isinstance(k, Term) and not isinstance(k, FmtKey):
                return k in c.v
            c2 = symd_of(c.v)
        else:
            c2 = c.v
        tag, t = skey(x)
        return py(c2.has(tag, t))
    if isinstance(c, tuple):
        c = PList(list(c))
    if isinstance(c, PList):
        n, fn = c.snapshot()
        if isinstance(x, str):
            return any(x == y for y in c.items())
        return py(EXISTSc(n, lambda k: eq(term(fn(k)), term(x))))
    if isinstance(c, SymSet):
        return contains(I, c.lst, x)
    if isinstance(c, str) and isinstance(x, str):
        return x in c
    if isinstance(c, IterV):
        return py(EXISTSc(c.n, lambda k: eq(term(c.fn(k)), term(x))))
    raise Unsupported("membership in %r" % (c,))


# ------------------------------------------------------------------ dictionaries
def dkey(k):
    if isinstance(k, Term) and k.op == "num":
        return int(k.data) if k.data.denominator == 1 else k.data
    return k


def skey(k):
    k = dkey(k)
    if isinstance(k, FmtKey):
        return k.fmt, k.t
    if isinstance(k, str):
        return "str:" + k, ZERO
    if scalar(k):
        return "int", term(k)
    raise Unsupported("dictionary key %r" % (k,))


def symd_of(v):
    if isinstance(v, SymD):
        return v
    items = [(skey(k), x) for k, x in v.items()]

    def has(tag, t):
        return or_(*[eq(t, kt) for (tg, kt), x in items if tg == tag])

    def get(tag, t):
        r = None
        for (tg, kt), x in items:
            if tg == tag:
                r = x if r is None else vite(eq(t, kt), x, r)
        if r is None:
            raise Unsupported("missing dictionary key")
        return r
    d = SymD(has, get)
    d.log = []
    return d


def or_absent(c, d, tg, t):
    if c is TRUE:
        return TRUE
    with CTX.under(not_(c)):
        h = d.has(tg, t)
    return or_(c, h)


def symd_store(d, tag, key, val):
    d = symd_of(d)

    def has(tg, t):
        return or_absent(eq(t, key), d, tg, t) if tg == tag else d.has(tg, t)

    def get(tg, t):
        if tg != tag:
            return d.get(tg, t)
        c = eq(t, key)
        r = CTX.decide(c)
        if r is True:
            return val
        if r is False:
            return d.get(tg, t)
        if CTX.decide(d.has(tg, t)) is False:
            return val
        with CTX.under(not_(c)):
            x = d.get(tg, t)
        return vite(c, val, x)
    n = SymD(has, get)
    n.log = getattr(d, "log", []) + [(tag, key, val)]
    if getattr(d, "seq", None) is not None and CTX.decide(d.has(tag, key)) is False:
        # a new key: last in insertion order
        m, f = d.seq
        n.seq = (add(m, 1), lambda e: vite(eq(e, m), val, f(e)))
    return n


def ordered_symd(n, tag, key, value):
    """dictionary with n entries key(e) -> value(e) in insertion order; key(e) = e + constant"""
    n = num(n)
    off = key(ZERO)
    inn = lambda t: and_(le(0, sub(t, off)), lt(sub(t, off), n))
    d = SymD(lambda tg, t: inn(t) if tg == tag else FALSE, lambda tg, t: value(sub(t, off)))
    d.log = []
    d.seq = (n, value)
    return d


def symd_add(d, tag, inn, value):
    def has(tg, t):
        return or_absent(inn(t), d, tg, t) if tg == tag else d.has(tg, t)

    def get(tg, t):
        if tg != tag:
            return d.get(tg, t)
        c = inn(t)
        r = CTX.decide(c)
        if r is True:
            return value(t)
        if r is False:
            return d.get(tg, t)
        if CTX.decide(d.has(tg, t)) is False:
            return value(t)
        with CTX.under(not_(c)):
            x = d.get(tg, t)
        return vite(c, value(t), x)
    n = SymD(has, get)
    n.log = []
    return n


# ------------------------------------------------------------------ indexing
def norm_index(i, n, bound=True):
    """non-negative index term with bounds obligation"""
    t = term(i)
    if t.sort != "I":
        raise Unsupported("non-integer index %s" % show(t)[:80])
    if isnum(t):
        if t.data < 0:
            t = add(t, n)
    else:
        d = CTX.decide(lt(t, 0))
        if d is True:
            t = add(t, n)
    if bound and not CTX.suppress:
        CTX.oblige("index in bounds", and_(le(0, t), lt(t, n)))
    return t


def norm_slice(s, n):
    """(lo, length, step) of a slice of a sequence of length n"""
    step = 1 if s.step is None else s.step
    step = py(step) if not isinstance(step, int) else step
    if not isinstance(step, int):
        raise Unsupported("symbolic slice step")

    def b(x, default):
        if x is None:
            return default
        t = term(x)
        if isnum(t) and t.data < 0 or (not isnum(t) and CTX.decide(lt(t, 0)) is True):
            t = add(t, n)
            if CTX.decide(ge(t, 0)) is not True:
                t = ite(ge(t, 0), t, ZERO)
            return t
        if t is n:
            return t
        d = CTX.decide(le(t, n))
        if d is True:
            return t
        if d is False:
            return n
        return ite(le(t, n), t, n)
    if step > 0:
        lo, hi = b(s.lo, ZERO), b(s.hi, n)
        d = CTX.decide(le(lo, hi))
        ln = sub(hi, lo)
        if d is False:
            ln = ZERO
        elif d is None:
            ln = ite(le(lo, hi), ln, ZERO)
        if step > 1:
            ln = app("floordiv", (add(ln, step - 1), num(step)), "I")
        return lo, ln, step
    if step == -1 and s.lo is None and s.hi is None:
        return sub(n, 1), n, -1
    raise Unsupported("slice with negative step")


def full_slice(s):
    return isinstance(s, Slice) and s.lo is None and s.hi is None and s.step is None


def sub_dim(d, s):
    """(new dim, map new index -> index of d) for a slice"""
    if full_slice(s):
        return d, (lambda x: x)
    n = d.size()
    lo, ln, step = norm_slice(s, n)
    if isinstance(d, DL):
        return DL(ln), (lambda x: add(lo, mul(step, x)))
    return DL(ln), (lambda x: locate(d, add(lo, mul(step, x))))


def materialised(I, o, i):
    """element i of o if it does not depend on the current path or scope"""
    if len(CTX.hyps) == len(I.root_hyps):
        r = o.item(i)
    else:
        hy, CTX.hyps = CTX.hyps, list(I.root_hyps)
        CTX.suppress += 1
        try:
            r = o.item(i)
        except (Unsupported, PyRaise):
            return None
        finally:
            CTX.suppress -= 1
            CTX.hyps = hy
    return r if isinstance(r, (PList, Tensor, PDict)) else None


def getitem(I, o, idx):
    o = I.force(o)
    if isinstance(o, Tensor):
        return tensor_get(I, o, idx)
    if isinstance(o, PList):
        if isinstance(idx, Slice):
            if full_slice(idx):
                return PList(pieces=o.v)
            if idx.step is not None and py(idx.step) == -1 and idx.lo is None and idx.hi is None:
                n = o.length()
                v = o.v
                return PList(n=n, fn=lambda k: pitem(None, v, sub(sub(n, 1), k)))
            n = o.length()
            lo, ln, step = norm_slice(idx, n)
            if step != 1:
                v = o.v
                if isnum(ln):
                    return PList([pitem(None, v, add(lo, step * i)) for i in range(int(ln.data))])
                return PList(n=ln, fn=lambda k: pitem(None, v, add(lo, mul(step, k))))
            if o.concrete() and isnum(lo) and isnum(ln):
                return PList(o.items()[int(lo.data):int(lo.data) + int(ln.data)])
            return PList(pieces=pslice(o.v, lo, add(lo, ln)))
        if isinstance(idx, tuple):
            raise PyRaise("TypeError: list index")
        if o.concrete():
            t = term(idx)
            if isnum(t):
                i = int(t.data)
                items = o.items()
                if not -len(items) <= i < len(items):
                    raise PyRaise("IndexError")
                return items[i]
        i = norm_index(idx, o.length())
        r = o.item(i)
        if isinstance(r, Obj) and "stale" in r.d and not isinstance(r, Inst):
            raise Unsupported("a view of an array that was changed since")
        if isinstance(r, (PList, Tensor, PDict)) and r.serial > o.serial and any(p[0] == "r" and p[3] and p[3].owner is o and not p[3].shared for p in o.v):
            m = None
            if not (fv(i) & CTX.loopvars) and not any("@" in x.data or x.data.startswith(("ix!", "u!", "c!", "e!", "seg!")) for x in fv(i)):
                m = materialised(I, o, i)
            if m is not None and (m is r or m.serial <= o.serial):
                return r
            if m is not None:
                # the same object on every access
                o.d["v"] = pstore(o.v, i, m)
                m.origin = None
                m.d.pop("seen", None)
                m.serial, m.part_of = o.serial, o
                return m
            if getattr(r, "origin", None) is None:
                r.borrowed = True
        return r
    if isinstance(o, tuple):
        if isinstance(idx, Slice):
            f = lambda x: None if x is None else int(term(x).data)
            return o[slice(f(idx.lo), f(idx.hi), f(idx.step))]
        t = term(idx)
        if isnum(t):
            if not -len(o) <= int(t.data) < len(o):
                raise PyRaise("IndexError")
            return o[int(t.data)]
        return PList(list(o)).item(t)
    if isinstance(o, PDict):
        return dict_get(I, o, idx)
    if isinstance(o, Inst):
        raise Unsupported("subscript of an object")
    if isinstance(o, IterV):
        if isinstance(idx, Slice):
            lo, ln, step = norm_slice(idx, o.n)
            return IterV(ln, lambda k: o.fn(add(lo, mul(step, k))))
        i = norm_index(idx, o.n)
        return o.fn(i)
    if isinstance(o, str):
        return o[int(term(idx).data)]
    if isinstance(o, SymVal):
        return o.getitem(I, idx)
    if o is None:
        raise PyRaise("TypeError: None is not subscriptable")
    raise Unsupported("subscript of %r" % (o,))


class SymVal:
    """contract-supplied value with its own protocol"""

    def getitem(self, I, idx):
        raise Unsupported("subscript")


def dict_get(I, o, idx):
    k = dkey(idx)
    if isinstance(o.v, dict) and not isinstance(k, (Term, FmtKey)):
        if k not in o.v:
            raise PyRaise("KeyError %r" % (k,))
        return o.v[k]
    d = symd_of(o.v)
    tag, t = skey(idx)
    if not CTX.suppress:
        CTX.oblige("key present", d.has(tag, t))
    was = CTX.serial
    r = d.get(tag, t)
    borrow(r, was)
    return r


def tensor_get(I, o, idx):
    if isinstance(idx, Tensor):
        if idx.elem == "B":
            return mask_select(I, o, idx)
        if idx.rank == 0 or all(one(d) for d in idx.dims):
            idx = term(idx)
        else:
            return fancy(I, o, idx)
    if isinstance(idx, (PList,)):
        return fancy(I, o, nparray(I, idx))
    if o.kind in CASADI and not isinstance(idx, tuple):
        return ca_linear(I, o, idx)
    if not isinstance(idx, tuple):
        idx = (idx,)
    idx = list(idx)
    if any(isinstance(x, Opaque) for x in idx):
        raise Unsupported("ellipsis index")
    if len(idx) > o.rank:
        raise PyRaise("IndexError: too many indices")
    while len(idx) < o.rank:
        idx.append(Slice(None, None, None))
    dims, maps = [], []
    for d, x in zip(o.dims, idx):
        if isinstance(x, Slice):
            nd, m = sub_dim(d, x)
            maps.append((len(dims), m))
            dims.append(nd)
        elif x is None:
            raise Unsupported("newaxis")
        else:
            if isinstance(x, Tensor):
                x = term(x)
            i = norm_index(x, d.size())
            if o.kind in CASADI:
                maps.append((None, i, d))
                dims.append(DL(1))
                maps[-1] = (len(dims) - 1, (lambda s, d=d, i=i: locate(d, i)))
            else:
                maps.append((None, (lambda d=d, i=i: locate(d, i))))
    src = Tensor(o.kind, o.dims, o.f, elem=o.elem)

    def f(*s):
        return src.at(*[m[1](s[m[0]]) if m[0] is not None else m[1]() for m in maps])
    if not dims:
        return py(f())
    if o.kind in CASADI and all(not isinstance(x, Slice) for x in idx):
        return f(ZERO, ZERO)
    return view_of(o, Tensor(o.kind, tuple(dims), f, elem=o.elem, view=True))


def ca_linear(I, o, idx):
    n, m = o.dims
    if isinstance(idx, Slice):
        if not one(m) and (one(n) or (not n.size().op == "num" and I.choose(and_(eq(n.size(), num(1)), not_(eq(m.size(), num(1))))))):
            # all elements of a row vector: a row vector
            v = flatten(o)
            f = v.at
            return Tensor(o.kind, (DL(1), v.dims[0]), lambda i, j: f(j, ZERO), tag=o.tag)
        if full_slice(idx):
            return flatten(o)
        v = flatten(o)
        nd, mp = sub_dim(v.dims[0], idx)
        f = v.at
        if one(o.dims[0]) and not one(o.dims[1]):
            # slicing a row vector keeps a row? (casadi returns a column-major selection of the same orientation)
            return Tensor(o.kind, (DL(1), nd), lambda i, j: f(mp(j), ZERO))
        return Tensor(o.kind, (nd, DL(1)), lambda i, j: f(mp(i), ZERO))
    v = flatten(o)
    i = norm_index(idx, v.dims[0].size())
    return v.get(i, ZERO)


def flatten(o):
    """column-major vectorisation"""
    n, m = o.dims
    src = Tensor(o.kind, o.dims, o.f)
    if is_num(m.size(), 1):
        z = locate(m, ZERO)
        return Tensor(o.kind, (n, DL(1)), lambda i, j: src.at(i, z), tag=o.tag)
    if is_num(n.size(), 1):
        z = locate(n, ZERO)
        return Tensor(o.kind, (m, DL(1)), lambda i, j: src.at(z, i), tag=o.tag)
    if isinstance(m, DL):
        d = DB(m.n, lambda k: n)
        return Tensor(o.kind, (d, DL(1)), lambda i, j: src.at(i[2], i[1]), tag=o.tag)
    raise Unsupported("vectorisation of a structured matrix")


def mask_select(I, o, mask):
    """o[mask] for 1-d arrays: order preserving selection"""
    if o.rank != 1 or mask.rank != 1:
        raise Unsupported("boolean mask")
    shape_eq(o.dims[0], mask.dims[0], "mask shape")
    src = Tensor(o.kind, o.dims, o.f)
    n = o.dims[0].size()
    k = fresh("ms", "I")
    with CTX.under(le(0, k), lt(k, n)):
        c = boolterm(mask.get(k))
        inner = composed(src, n, k)
        if inner is not None:
            # selection from a selection: one selection with the conjunction
            n0, l0, sel = inner
            j = fresh("ms", "I")
            c0 = subst(c, {sel: j})
            x0 = subst(numterm(src.get(k)), {sel: j})
            if k not in fv(c0) and k not in fv(x0):
                l = lam(j, and_(inst(l0, j), c0))
                body = lam(j, x0)
                return Tensor("np", (DL(nsel(n0, l)),), lambda e: inst(body, fsel(n0, l, flat_of(DL(nsel(n0, l)), e))))
    l = lam(k, c)
    m = nsel(n, l)
    return Tensor("np", (DL(m),), lambda e: src.get(fsel(n, l, flat_of(DL(m), e))))


def composed(src, n, k):
    """(n0, predicate, FSEL term) when entry k of src is a function of one selected position"""
    if n.op != "app" or n.data != "NSEL":
        return None
    sel = fsel(n.args[0], n.args[1], k)
    x = src.get(k)
    if not is_scalar(x) or sel not in atoms_of(term(x), lambda t: t is sel):
        return None
    return n.args[0], n.args[1], sel


def fancy(I, o, idx):
    if idx.rank != 1 or o.rank != 1:
        raise Unsupported("array index")
    src = Tensor(o.kind, o.dims, o.f)
    f = Tensor("np", idx.dims, idx.f).at
    n = o.dims[0].size()
    for s, h in each_index(idx.dims):
        with CTX.under(*h):
            x = term(f(*s))
            if x.sort == "B":
                return mask_select(I, o, idx)
            norm_index(x, n)
    return Tensor("np", idx.dims, lambda s: src.get(norm_index(f(s), n, False)))


def cond_value(c, a, b):
    d = CTX.decide(c)
    if d is True:
        return a()
    if d is False:
        return b()
    with CTX.under(c):
        x = a()
    with CTX.under(not_(c)):
        y = b()
    return vite(c, x, y)


def setitem(I, o, idx, v):
    o = I.force(o)
    if isinstance(o, PDict):
        k = dkey(idx)
        if isinstance(o.v, dict) and not isinstance(k, (Term, FmtKey)):
            d = dict(o.v)
            d[k] = v
            CTX.set(o, "v", d)
        else:
            tag, t = skey(idx)
            CTX.set(o, "v", symd_store(o.v, tag, t, v))
        I.touch(o)
        return
    if isinstance(o, PList):
        if isinstance(idx, Slice):
            raise Unsupported("slice assignment to a list")
        if o.concrete() and isnum(term(idx)):
            i = int(term(idx).data)
            items = o.items()
            if not -len(items) <= i < len(items):
                raise PyRaise("IndexError")
            items[i] = v
            CTX.set(o, "v", tuple(("i", x) for x in items))
        else:
            i = norm_index(idx, o.length())
            CTX.set(o, "v", pstore(o.v, i, v))
        I.touch(o)
        return
    if isinstance(o, Tensor):
        tensor_set(I, o, idx, v)
        I.touch(o)
        return
    if isinstance(o, tuple):
        raise PyRaise("TypeError: tuple assignment")
    raise Unsupported("item assignment to %r" % (o,))


def delitem(I, o, idx):
    o = I.force(o)
    if isinstance(o, PDict) and isinstance(o.v, dict):
        d = dict(o.v)
        k = dkey(idx)
        if k not in d:
            raise PyRaise("KeyError")
        del d[k]
        CTX.set(o, "v", d)
        I.touch(o)
        return
    raise Unsupported("del item")


def tensor_set(I, o, idx, v):
    if o.view:
        raise Unsupported("store into an array view")
    if o.whole:
        v = truncated(I, I.force(v))
    old = Tensor(o.kind, o.dims, o.f, elem=o.elem)
    if isinstance(idx, Tensor) and idx.elem == "B":
        m = idx
        if not scalar(v) or m.rank != o.rank:
            raise Unsupported("masked store")
        t = term(v)
        mp = [remap(a, b) for a, b in zip(m.dims, o.dims)]
        ms = Tensor("np", m.dims, m.f)
        CTX.set(o, "f", lambda *s: cond_value(ms.at(*[q(x) for q, x in zip(mp, s)]), lambda: t, lambda: old.f(*s)))
        return
    if o.kind in CASADI and not isinstance(idx, tuple):
        if one(o.dims[1]):
            idx = (idx, 0)
        elif one(o.dims[0]):
            idx = (0, idx)
        else:
            raise Unsupported("linear store into a matrix")
    if not isinstance(idx, tuple):
        idx = (idx,)
    idx = list(idx)
    while len(idx) < o.rank:
        idx.append(Slice(None, None, None))
    sel = []           # (kind, lo, length)
    rdims = []
    for d, x in zip(o.dims, idx):
        n = d.size()
        if isinstance(x, Slice):
            if full_slice(x):
                sel.append(("all", d))
                rdims.append(d)
                continue
            lo, ln, step = norm_slice(x, n)
            if step != 1:
                raise Unsupported("strided store")
            if o.kind in CASADI or True:
                hi = x.hi
                if hi is not None and not CTX.suppress and not (isnum(term(hi)) and term(hi).data < 0):
                    CTX.oblige("slice in bounds", and_(le(0, lo), le(term(hi), n)))
            sel.append(("rng", lo, ln))
            rdims.append(DL(ln))
        else:
            if isinstance(x, Tensor):
                x = term(x)
            i = norm_index(x, n)
            sel.append(("one", i))
            if o.kind in CASADI:
                rdims.append(DL(1))
    if not scalar(v):
        v = v if isinstance(v, Tensor) else nparray(I, v)
        if o.kind in CASADI:
            v = as_ca(I, v)
        vd = list(v.dims)
        if all(is_num(d.size(), 1) for d in vd):
            v = term(v)
        else:
            rd = list(rdims)
            vidx = []     # which region dimension feeds which value dimension
            # drop unit dimensions of the value that do not match
            q = len(rd) - 1
            p = len(vd) - 1
            vmap = [None] * len(vd)
            while p >= 0:
                if q >= 0:
                    if is_num(vd[p].size(), 1) and not is_num(rd[q].size(), 1):
                        vmap[p] = ("zero",)
                        if len(vd) > len(rd):
                            p -= 1
                            continue
                    else:
                        shape_eq(vd[p], rd[q], "stored shape matches")
                        vmap[p] = ("dim", q)
                    q -= 1
                    p -= 1
                else:
                    if not is_num(vd[p].size(), 1):
                        CTX.oblige("stored shape matches", eq(vd[p].size(), 1))
                    vmap[p] = ("zero",)
                    p -= 1
            vsrc = Tensor(v.kind, v.dims, v.f)
    CTXo = o

    def f(*s):
        conds = []
        pos = []
        for d, x, si in zip(o.dims, sel, s):
            if x[0] == "all":
                pos.append(si)
                continue
            e = flat_of(d, si)
            if x[0] == "one":
                conds.append(eq(e, x[1]))
                if o.kind in CASADI:
                    pos.append(ZERO)
            else:
                conds.append(le(x[1], e))
                conds.append(lt(e, add(x[1], x[2])))
                pos.append(sub(e, x[1]))
        c = and_(*conds)

        def val():
            if not isinstance(v, Tensor):
                return v if not isinstance(v, (int, float, Fraction)) else term(v)
            args = []
            for p, m in enumerate(vmap):
                if m[0] == "zero":
                    args.append(locate(v.dims[p], ZERO))
                else:
                    q = m[1]
                    args.append(remap(v.dims[p], rdims[q])(pos[q]))
            return vsrc.at(*args)
        return cond_value(c, val, lambda: old.f(*s))
    CTX.set(o, "f", f)
    if o.diag is not None:
        raise Unsupported("store into a diagonal matrix")


def broadcast_to(I, r, dims):
    if not isinstance(r, Tensor):
        t = term(r)
        return Tensor("np", dims, lambda *s: t)
    if r.rank != len(dims):
        raise Unsupported("in-place broadcast")
    for a, b in zip(r.dims, dims):
        shape_eq(a, b)
    mp = [remap(a, b) for a, b in zip(r.dims, dims)]
    src = Tensor(r.kind, r.dims, r.f)
    return Tensor(r.kind, dims, lambda *s: src.at(*[m(x) for m, x in zip(mp, s)]))


# ------------------------------------------------------------------ lists
def list_repeat(lst, m):
    items = list(lst) if isinstance(lst, tuple) else None
    v = tuple(("i", x) for x in items) if items is not None else lst.v
    t = term(m)
    if isnum(t):
        r = max(0, int(t.data))
        if isinstance(lst, tuple):
            return lst * r
        return PList(pieces=v * r)
    if not CTX.holds(le(0, t)):
        t = ite(le(0, t), t, ZERO)
    if len(v) == 1 and v[0][0] == "i":
        x = v[0][1]
        return PList(n=t, fn=lambda k: x)
    n = plen(v)
    if isnum(n) and n.data == 0:
        return PList([])
    return PList(n=mul(t, n), fn=lambda k: pitem(None, v, app("mod", (k, n), "I")))


def list_extend(I, lst, v):
    v = I.force(v)
    it = I.iter_of(v)
    if isinstance(it, IterV):
        new = lst.v + (frozen(I, v, it),)
    else:
        new = lst.v + tuple(("i", x) for x in it)
    CTX.set(lst, "v", new)
    I.touch(lst)


# ------------------------------------------------------------------ attributes
def getattr_(I, v, name):
    if isinstance(v, Module):
        q = v.name + "." + name
        if q == "np.inf" or q == "math.inf":
            return INF
        if q == "np.pi" or q == "math.pi":
            return PI
        if q in ("np.linalg", "np.polynomial", "np.polynomial.legendre", "scipy.special", "np.random", "ca.SX", "ca.DM", "ca.MX"):
            return Module(q)
        if q in ("np.ndarray", "np.float64", "ca.Function"):
            return LibFn(q)
        return LibFn(q)
    if isinstance(v, LibFn):
        return LibFn(v.name + "." + name)
    if isinstance(v, Tensor):
        if name == "T":
            return transpose(v)
        if name == "shape":
            return tuple(py(s) for s in sizes(v))
        if name == "size" and v.kind == "np":
            return py(mul(*sizes(v)) if v.rank else 1)
        if name == "ndim":
            return v.rank
        return PyFn(lambda I2, a, k: tensor_method(I2, v, name, a, k), "method." + name)
    if isinstance(v, PList):
        return PyFn(lambda I2, a, k: list_method(I2, v, name, a, k), "list." + name)
    if isinstance(v, tuple):
        raise Unsupported("tuple attribute " + name)
    if isinstance(v, PDict):
        return PyFn(lambda I2, a, k: dict_method(I2, v, name, a, k), "dict." + name)
    if isinstance(v, str):
        if name == "format":
            return PyFn(lambda I2, a, k: str_format(v, a), "str.format")
        raise Unsupported("string method " + name)
    if is_scalar(v) or is_bool(v):
        if name == "T":
            return v
        if name == "shape":
            return ()
        return PyFn(lambda I2, a, k: scalar_method(I2, v, name, a, k), "scalar." + name)
    if isinstance(v, FuncVal) and name in ("__name__", "__doc__"):
        return Opaque("fstring")
    if isinstance(v, SymVal):
        return v.getattr(I, name)
    if v is None:
        raise PyRaise("AttributeError: None.%s" % name)
    raise Unsupported("attribute %s of %r" % (name, v))


PI = var("PI", "R")


def str_format(fmt, args):
    if len(args) == 1 and scalar(args[0]):
        t = term(args[0])
        if isnum(t):
            return fmt.format(int(t.data))
        if fmt.count("{}") == 1:
            return FmtKey(fmt, t)
    return Opaque("fstring")


def view_of(o, r):
    """r shares the memory of the numpy array o: r is not written, and not read after o was"""
    if o.kind == "np" and r is not o:
        r.view = True
        r.base = o
        while o is not None:
            if o.views is None:
                o.views = weakref.WeakSet()
            o.views.add(r)
            o = o.base
    return r


def transpose(v):
    if v.rank < 2:
        return v
    if v.rank == 2:
        f = v.f
        return view_of(v, Tensor(v.kind, (v.dims[1], v.dims[0]), lambda i, j: f(j, i), elem=v.elem, diag=v.diag))
    f = v.f
    return view_of(v, Tensor(v.kind, tuple(reversed(v.dims)), lambda *s: f(*reversed(s)), elem=v.elem))


def scalar_method(I, v, name, a, k):
    t = term(v)
    if name in ("any", "all"):
        return t if t.sort == "B" else ne(t, 0)
    if name in ("max", "min", "item", "copy", "sum", "squeeze"):
        return v
    if name == "full":
        return Tensor("np", (DL(1), DL(1)), lambda i, j: t)
    if name in ("size1", "size2", "numel"):
        return 1
    if name == "size":
        return (1, 1)
    if name == "is_integer":
        return t.sort == "I"
    raise Unsupported("scalar method " + name)


def reduce_dims(kind, dims, f):
    """SUM / FORALL / EXISTS over structured dims"""
    if not dims:
        return f()
    d, rest = dims[0], dims[1:]
    return red1(kind, d, lambda s: reduce_dims(kind, rest, lambda *r: f(s, *r)))


def red1(kind, d, f):
    if isinstance(d, DL):
        if kind == "SUM":
            return SUMc(d.n, f)
        if kind == "FORALL":
            return FORALLc(d.n, f)
        if kind == "EXISTS":
            return EXISTSc(d.n, f)
    if isinstance(d, DC):
        parts = [red1(kind, x, (lambda s, p=p: f(("c", p, s)))) for p, x in enumerate(d.parts)]
        return {"SUM": add, "FORALL": and_, "EXISTS": or_}[kind](*parts)
    fn = {"SUM": SUMc, "FORALL": FORALLc, "EXISTS": EXISTSc}[kind]
    return fn(d.n, lambda k: red1(kind, d.g(k), lambda s: f(("b", k, s))))


def boolterm(x):
    t = term(x)
    return t if t.sort == "B" else ne(t, 0)


def maxv(v, sign=1):
    """maximum of a non-empty array"""
    ds = [d for d in v.dims if not is_num(d.size(), 1)]
    src = Tensor(v.kind, v.dims, v.f)
    if not ds:
        return src.get(*[ZERO for _ in v.dims])
    if not CTX.suppress:
        for d in ds:
            CTX.oblige("maximum of a non-empty array", gt(d.size(), 0))
    ns = [d.size() for d in v.dims]

    def lamn(i, acc):
        if i == len(ns):
            return numterm(src.get(*acc))
        k, b = CTX.bound(ns[i], lambda k: lamn(i + 1, acc + [k]))
        return app("MAXV" if sign > 0 else "MINV", (ns[i], lam(k, b)), "R")
    return lamn(0, [])


def tensor_method(I, v, name, a, kw):
    src = Tensor(v.kind, v.dims, v.f, elem=v.elem)
    if name == "full":
        return Tensor("np", v.dims, v.f)
    if name in METHOD_KW and (set(kw) - METHOD_KW[name][0] or len(a) > METHOD_KW[name][1]):
        raise Unsupported("option of the array method " + name)
    if name in ("any", "all", "sum"):
        kind = {"any": "EXISTS", "all": "FORALL", "sum": "SUM"}[name]
        conv = numterm if name == "sum" else boolterm
        ax = I.force(kw.get("axis", a[0] if a else None))
        if ax is None:
            return py(reduce_dims(kind, v.dims, lambda *s: conv(src.at(*s))))
        ax = int(term(ax).data)
        if not -v.rank <= ax < v.rank:
            raise PyRaise("AxisError")
        ax %= v.rank
        rest = [d for i, d in enumerate(v.dims) if i != ax]
        part = lambda *s: red1(kind, v.dims[ax], lambda q: conv(src.at(*(list(s[:ax]) + [q] + list(s[ax:])))))
        return Tensor("np", tuple(rest), part) if rest else py(part())
    if name in ("max", "min"):
        ax = kw.get("axis", a[0] if a else None)
        sg = 1 if name == "max" else -1
        if ax is None:
            return maxv(v, sg)
        ax = int(term(ax).data) % v.rank
        rest = [d for i, d in enumerate(v.dims) if i != ax]

        def f(*s):
            def g(k):
                full = list(s)
                full.insert(ax, locate(v.dims[ax], k))
                return numterm(src.at(*full))
            k, b = CTX.bound(v.dims[ax].size(), g)
            return app("MAXV" if sg > 0 else "MINV", (v.dims[ax].size(), lam(k, b)), "R")
        if not CTX.suppress:
            CTX.oblige("maximum of a non-empty array", gt(v.dims[ax].size(), 0))
        if not rest:
            return f()
        return Tensor("np", tuple(rest), f)
    if name == "argmax" and v.rank == 1 and not a and not kw:
        n = v.dims[0].size()
        k, b = CTX.bound(n, lambda k: term(src.get(k)))
        if not CTX.suppress:
            CTX.oblige("argmax of a non-empty array", gt(n, 0))
        return app("FIRST" if b.sort == "B" else "ARGMAX", (n, lam(k, b)), "I")
    if name == "reshape":
        shp = a[0] if len(a) == 1 and isinstance(a[0], (tuple, PList)) else a
        shp = list(shp.items() if isinstance(shp, PList) else shp)
        return view_of(v, reshape_to(I, v, [DL(term(x)) for x in shp]))
    if name in ("flatten", "ravel") and v.kind == "np":
        r = Tensor("np", v.dims, v.f) if v.rank == 1 else np_concat(I, v)
        return view_of(v, r) if name == "ravel" else r
    if name == "copy":
        return Tensor(v.kind, v.dims, v.f, elem=v.elem)
    if name == "size1":
        return py(v.dims[0].size())
    if name == "size2":
        return py(v.dims[1].size())
    if name == "numel":
        return py(mul(*sizes(v)))
    if name == "size" and v.kind in CASADI:
        if a:
            ax = term(I.force(a[0]))
            if not isnum(ax) or ax.data not in (1, 2):
                raise Unsupported("axis of a casadi matrix")
            return py(sizes(v)[int(ax.data) - 1])
        return tuple(py(x) for x in sizes(v))
    if name == "tolist":
        n = v.dims[0].size()
        return PList(n=n, fn=lambda k: tensor_get(I, src, k), fresh=True)
    if name == "astype":
        if dtype_of(I, a[0] if a else kw.get("dtype")):
            r = truncated(I, src)
            r.whole = True
            return r
        return Tensor(v.kind, v.dims, v.f)
    if name == "squeeze":
        return view_of(v, reshape_to(I, v, [d for d in v.dims if not one(d)]))
    if name == "sort" and v.rank == 1:
        if v.view:
            raise Unsupported("sorting an array view")
        r = call(I, "np.sort", [v], {})
        CTX.set(v, "f", r.f)
        I.touch(v)
        return None
    raise Unsupported("array method " + name)


# options of array methods: known keywords, most positional arguments
METHOD_KW = {"any": ({"axis"}, 1), "all": ({"axis"}, 1), "sum": ({"axis"}, 1), "max": ({"axis"}, 1), "min": ({"axis"}, 1), "argmax": (set(), 0),
             "flatten": (set(), 0), "ravel": (set(), 0), "copy": (set(), 0), "squeeze": (set(), 0), "sort": (set(), 0), "tolist": (set(), 0),
             "reshape": (set(), 9), "astype": ({"dtype"}, 1), "full": (set(), 0)}


def reshape_to(I, v, dims):
    if any(isnum(d.size()) and d.size().data == -1 for d in dims):
        if len(dims) == 1:
            return np_concat(I, v) if v.rank > 1 else v
        raise Unsupported("reshape with -1")
    src = [(i, d) for i, d in enumerate(v.dims) if not one(d)]
    dst = [(i, d) for i, d in enumerate(dims) if not one(d)]
    if len(src) != len(dst):
        # remaining dimensions must be provably one
        raise Unsupported("reshape %r -> %s" % (v, [show(d.size()) for d in dims]))
    nd = list(dims)
    pos = {}
    for (i, d), (j, e) in zip(src, dst):
        shape_eq(d, e, "reshape keeps the number of elements")
        nd[j] = d
        pos[i] = j
    at = Tensor(v.kind, v.dims, v.f).at

    def f(*s):
        return at(*[s[pos[i]] if i in pos else locate(d, ZERO) for i, d in enumerate(v.dims)])
    return Tensor("np" if v.kind == "np" else v.kind, tuple(nd), f, elem=v.elem)


def list_method(I, v, name, a, kw):
    if name == "append":
        CTX.set(v, "v", v.v + (("i", a[0]),))
        I.touch(v)
        return None
    if name == "extend":
        list_extend(I, v, a[0])
        return None
    if name == "pop" and v.concrete():
        items = v.items()
        i = int(term(a[0]).data) if a else -1
        r = items.pop(i)
        CTX.set(v, "v", tuple(("i", x) for x in items))
        I.touch(v)
        return r
    if name == "copy":
        return PList(pieces=v.v)
    if name == "insert" and v.concrete():
        items = v.items()
        items.insert(int(term(a[0]).data), a[1])
        CTX.set(v, "v", tuple(("i", x) for x in items))
        I.touch(v)
        return None
    if name == "index" and v.concrete():
        for i, x in enumerate(v.items()):
            if same(x, a[0]):
                return i
    if name == "sort":
        r = sorted_list(I, v, kw)
        CTX.set(v, "v", r.v)
        I.touch(v)
        return None
    raise Unsupported("list method " + name)


def sorted_list(I, v, kw):
    """rearrangement of a list by increasing key"""
    if kw.get("reverse") not in (None, False) or set(kw) - {"key", "reverse"}:
        raise Unsupported("sort options")
    content, n = v.v, num(v.length())
    item = lambda k: pitem(None, content, k)
    key = kw.get("key")
    k, b = CTX.bound(n, lambda k: numterm(I.call(key, [item(k)], {}) if key is not None else item(k)))
    l = lam(k, b)
    return PList(n=n, fn=lambda e: item(app("PERM", (n, l, num(e)), "I")))


def np_mean(I, a, k):
    if len(a) != 1 or k:
        raise Unsupported("mean along an axis")
    v = nparray(I, I.force(a[0]))
    if not isinstance(v, Tensor) or v.rank != 1:
        raise Unsupported("mean of %r" % (v,))
    n = v.dims[0].size()
    CTX.oblige("mean of no values", gt(n, 0))
    return div(SUMc(n, lambda i: v.get(i)), n)


def dict_method(I, v, name, a, kw):
    d = v.v
    if name == "get":
        c = contains(I, v, a[0])
        if I.choose(c):
            return dict_get(I, v, a[0])
        return a[1] if len(a) > 1 else None
    if isinstance(d, dict):
        if name == "items":
            return PList([(k, x) for k, x in d.items()])
        if name == "keys":
            return PList(list(d.keys()))
        if name == "values":
            return PList(list(d.values()))
        if name == "pop":
            k = dkey(a[0])
            if k not in d:
                if len(a) > 1:
                    return a[1]
                raise PyRaise("KeyError")
            n = dict(d)
            r = n.pop(k)
            CTX.set(v, "v", n)
            I.touch(v)
            return r
        if name == "update":
            n = dict(d)
            if a:
                n.update(a[0].v)
            n.update(kw)
            CTX.set(v, "v", n)
            I.touch(v)
            return None
        if name == "copy":
            return PDict(dict(d))
        if name == "setdefault":
            k = dkey(a[0])
            if k not in d:
                n = dict(d)
                n[k] = a[1] if len(a) > 1 else None
                CTX.set(v, "v", n)
                I.touch(v)
                return n[k]
            return d[k]
    if name == "values" and getattr(d, "seq", None) is not None:
        return PList(n=d.seq[0], fn=d.seq[1])
    raise Unsupported("dict method " + name)


# ------------------------------------------------------------------ calls
def call_poly(I, p, a):
    x = a[0]
    if isinstance(x, Tensor) and not all(is_num(d.size(), 1) for d in x.dims):
        return tmap(lambda t: p.fn(t), x)
    return p.fn(term(x))


def np_dot(I, a, b):
    if scalar(a) or scalar(b):
        return binop(I, "Mult", a, b)
    a = a if isinstance(a, Tensor) else nparray(I, a)
    b = b if isinstance(b, Tensor) else nparray(I, b)
    fa, fb = Tensor(a.kind, a.dims, a.f).at, Tensor(b.kind, b.dims, b.f).at
    da = a.dims[-1]
    db = b.dims[-2] if b.rank > 1 else b.dims[0]
    shape_eq(da, db, "matrix product shapes")
    mp = remap(da, db)

    kind = "DM" if (a.kind in CASADI or b.kind in CASADI) else "np"
    # np.dot on casadi operands returns a casadi matrix (object protocol)
    dims = tuple(a.dims[:-1]) + (tuple(b.dims[:-2]) + (b.dims[-1],) if b.rank > 1 else ())
    na = a.rank - 1

    def f(*s):
        sa, sb = s[:na], s[na:]
        return red1("SUM", db, lambda c: mul(numterm(fa(*sa, mp(c))), numterm(fb(c, *sb) if b.rank > 1 else fb(c))))
    if not dims:
        return f()
    return Tensor(kind, dims, f)


def mtimes(I, a, b):
    a, b = as_ca(I, a), as_ca(I, b)
    kind = "SX" if "SX" in (a.kind, b.kind) else "DM"
    if all(is_num(d.size(), 1) for d in a.dims) or all(is_num(d.size(), 1) for d in b.dims):
        return tmap(lambda x, y: mul(x, y), a, b)
    fa, fb = Tensor(a.kind, a.dims, a.f).at, Tensor(b.kind, b.dims, b.f).at
    shape_eq(a.dims[1], b.dims[0], "matrix product shapes")
    if a.diag is not None:
        dg = a.diag
        return Tensor(kind, b.dims, lambda i, j: mul(dg(flat_of(b.dims[0], i)), fb(i, j)))
    if a.keye is not None:
        m, D = a.keye
        fd = Tensor(D.kind, D.dims, D.f).at
        rows = DB(m, lambda k: D.dims[0])
        cols = DB(m, lambda k: D.dims[1])
        mp = remap(b.dims[0], cols)
        return Tensor(kind, (rows, b.dims[1]),
                      lambda i, j: red1("SUM", D.dims[1], lambda c: mul(fd(i[2], c), fb(mp(("b", i[1], c)), j))))
    mp = remap(b.dims[0], a.dims[1])
    return Tensor(kind, (a.dims[0], b.dims[1]),
                  lambda i, j: red1("SUM", a.dims[1], lambda c: mul(fa(i, c), fb(mp(c), j))))


def generic_item(I, fn, n, k, conv):
    """an element with a generic index; no path may be chosen on that index"""
    with CTX.under(le(0, k), lt(k, n)):
        I.generic.append((k, len(I.regions)))
        try:
            return fold_item(I, fn(k), conv)
        finally:
            I.generic.pop()


def fold_item(I, x, conv):
    """alternatives of the same rank as one value: sizes and entries selected by the conditions"""
    if not isinstance(x, Union):
        return conv(I, x)
    alts = []

    def walk(y, cs):
        if isinstance(y, Union):
            no = []
            for j, (c, z) in enumerate(y.alts):
                g = cs + no + [c]
                with CTX.under(*(cs + no)):
                    d = CTX.decide(c)
                if d is False:
                    continue
                walk(z, cs + no if d is True else g)
                if d is True:
                    return
                no.append(not_(c))
        else:
            with CTX.under(*cs):
                alts.append((cs, conv(I, y)))
    walk(x, [])
    if not alts:
        raise Unsupported("no feasible alternative")
    ts = [t for c, t in alts]
    if len(ts) == 1:
        return ts[0]
    if not all(isinstance(t, Tensor) for t in ts) or any(t.rank != ts[0].rank for t in ts):
        raise Unsupported("alternatives of different ranks")
    if ts[0].rank == 0:
        return conv(I, I.force(x))
    conds = [and_(*c) for c, t in alts]

    def select(vals):
        r = vals[-1]
        for c, v in zip(reversed(conds[:-1]), reversed(vals[:-1])):
            r = v if v is r else ite(c, v, r)
        return r
    keep = [all(same_dim(ts[0].dims[a], t.dims[a]) for t in ts[1:]) for a in range(ts[0].rank)]
    dims = tuple(ts[0].dims[a] if keep[a] else DL(select([t.dims[a].size() for t in ts])) for a in range(ts[0].rank))
    ats = [Tensor(t.kind, t.dims, t.f) for t in ts]

    def f(*s):
        vals = []
        for c, t in zip(conds, ats):
            with CTX.under(c):
                vals.append(t.get(*[flat_of(d, x) for d, x in zip(dims, s)]))
        return select(vals)
    kind = "SX" if any(t.kind == "SX" for t in ts) else ts[0].kind
    return Tensor(kind, dims, f)


def vertcat(I, args):
    """vertical concatenation of casadi-convertible pieces"""
    kind = "DM"
    pieces = []      # (dim of rows, f(row, col), ncols dim)
    ncols = None
    flat = []
    for x in args:
        if isinstance(x, Star):
            v = x.v
            v = PList(list(v)) if isinstance(v, tuple) else v
            if isinstance(v, Tensor):
                vv = v
                v = PList(n=vv.dims[0].size(), fn=lambda k, vv=vv: tensor_get(I, vv, k))
            flat += list(v.v)
        else:
            flat.append(("i", x))
    for p in flat:
        if p[0] == "i":
            x = I.force(p[1])
            if isinstance(x, PList) and not x.v or isinstance(x, tuple) and not x:
                continue
            m = as_ca(I, x)
            if m.kind == "SX":
                kind = "SX"
            if isinstance(x, Term) and any(v.data.startswith("$") or True for v in fv(x)):
                pass
            at = Tensor(m.kind, m.dims, m.f).at
            pieces.append((m.dims[0], m.dims[1], at))
        else:
            n, fn = p[1], p[2]
            k = fresh("pi", "I")
            m0 = generic_item(I, fn, n, k, as_ca)
            if m0.kind == "SX":
                kind = "SX"
            cache = {}

            def item(k, fn=fn):
                return fold_item(I, fn(k), as_ca)
            d = DB(n, lambda k, item=item: item(k).dims[0])
            if k not in fv(m0.dims[0].size()) and isinstance(m0.dims[0], DL):
                d0 = m0.dims[0]
                d = DB(n, lambda k, d0=d0: d0)
            at = (lambda s, j, item=item: (lambda m: Tensor(m.kind, m.dims, m.f).at(s[2], j))(item(s[1])))
            d2, mp = simp_dim(d)
            pieces.append((d2, m0.dims[1], (lambda s, j, at=at, mp=mp: at(mp(s), j))))
    if not pieces:
        return Tensor("DM", (DL(0), DL(1)), lambda i, j: ZERO)
    for q in pieces[1:]:
        shape_eq(q[1], pieces[0][1], "vertcat columns match")
    if len(pieces) == 1:
        d, c, at = pieces[0]
        return Tensor(kind, (d, c), lambda i, j: at(i, j))
    dim = DC([p[0] for p in pieces])
    return norm(kind, (dim, pieces[0][1]), lambda s, j: pieces[s[1]][2](s[2], j))


def np_concat(I, v, axis=0):
    if isinstance(v, Tensor):
        if v.rank == 1:
            raise PyRaise("ValueError: zero-dimensional arrays cannot be concatenated")
        src = Tensor("np", v.dims, v.f)
        if v.rank == 2:
            if isinstance(v.dims[0], DL):
                d = DB(v.dims[0].n, lambda k: v.dims[1])
                return norm("np", (d,), lambda s: src.at(s[1], s[2]))
            if one(v.dims[0]):
                z = locate(v.dims[0], ZERO)
                return Tensor("np", (v.dims[1],), lambda s: src.at(z, s))
            if one(v.dims[1]):
                z = locate(v.dims[1], ZERO)
                return Tensor("np", (v.dims[0],), lambda s: src.at(s, z))
        raise Unsupported("concatenate of a %d-d array" % v.rank)
    if isinstance(v, tuple):
        v = PList(list(v))
    if isinstance(v, PList):
        pieces = []
        for p in v.v:
            if p[0] == "i":
                x = nparray(I, I.force(p[1]))
                if isinstance(x, PList):
                    raise Unsupported("concatenate of ragged pieces")
                if x.rank == 0:
                    raise PyRaise("ValueError: zero-dimensional arrays cannot be concatenated")
                if is_num(x.dims[0].size(), 0) and len(v.v) > 1 and x.rank == 1:
                    continue
                pieces.append((x.dims, Tensor("np", x.dims, x.f).at))
            else:
                n, fn = p[1], p[2]
                k = fresh("pi", "I")
                m0 = generic_item(I, fn, n, k, nparray)
                if m0.rank == 0:
                    raise PyRaise("ValueError: zero-dimensional arrays cannot be concatenated")
                item = (lambda k, fn=fn: fold_item(I, fn(k), nparray))
                if k not in fv(m0.dims[0].size()) and isinstance(m0.dims[0], DL):
                    d0 = m0.dims[0]
                    d = DB(n, lambda k, d0=d0: d0)
                else:
                    d = DB(n, lambda k, item=item: item(k).dims[0])
                at = (lambda s, *r, item=item: (lambda m: Tensor("np", m.dims, m.f).at(s[2], *r))(item(s[1])))
                d2, mp = simp_dim(d)
                pieces.append(((d2,) + tuple(m0.dims[1:]), (lambda s, *r, at=at, mp=mp: at(mp(s), *r))))
        if not pieces:
            if not v.v:
                raise PyRaise("ValueError: need at least one array to concatenate")
            return Tensor("np", (DL(0),), lambda i: ZERO)
        rest = pieces[0][0][1:]
        for ds, at in pieces[1:]:
            if len(ds) != len(pieces[0][0]):
                raise PyRaise("ValueError: concatenate ranks")
            for a, b in zip(ds[1:], rest):
                shape_eq(a, b, "concatenate shapes")
        if len(pieces) == 1:
            return Tensor("np", pieces[0][0], lambda *s: pieces[0][1](*s))
        dim = DC([p[0][0] for p in pieces])
        maps = [[remap(a, b) for a, b in zip(ds[1:], rest)] for ds, at in pieces]
        return norm("np", (dim,) + tuple(rest), lambda s, *r: pieces[s[1]][1](s[2], *[m(x) for m, x in zip(maps[s[1]], r)]))
    raise Unsupported("concatenate of %r" % (v,))


def np_concatenate(I, a, k):
    ax = I.force(k.get("axis", a[1] if len(a) > 1 else 0))
    if ax in (1, -1):
        v = I.force(a[0])
        items = list(v) if isinstance(v, tuple) else v.items() if isinstance(v, PList) and v.concrete() else None
        items = items and [nparray(I, I.force(x)) for x in items]
        if items and all(x.rank == 2 for x in items):
            return transpose(np_concat(I, PList([transpose(x) for x in items])))
        if ax == -1 and items and all(x.rank == 1 for x in items):
            ax = 0
    if ax != 0:
        raise Unsupported("concatenate along an axis")
    return np_concat(I, I.force(a[0]))


def length(I, v):
    v = I.force(v)
    if isinstance(v, PList):
        return py(v.length())
    if isinstance(v, tuple):
        return len(v)
    if isinstance(v, Tensor):
        if v.rank == 0:
            raise PyRaise("TypeError: len() of unsized object")
        if v.kind in CASADI:
            return py(v.dims[0].size()) if not one(v.dims[0]) else py(mul(*sizes(v)))
        return py(v.dims[0].size())
    if isinstance(v, PDict):
        if isinstance(v.v, dict):
            return len(v.v)
    if isinstance(v, str):
        return len(v)
    if isinstance(v, IterV):
        return py(v.n)
    if isinstance(v, SymVal):
        return v.length(I)
    if v is None:
        raise PyRaise("TypeError: len of None")
    raise Unsupported("len of %r" % (v,))


def py_sum(I, v):
    v = I.force(v)
    it = I.iter_of(v)
    if isinstance(it, list):
        r = 0
        for x in it:
            r = binop(I, "Add", r, x)
        return r
    if isinstance(it, IterV):
        return py(SUMc(it.n, lambda k: numterm(it.fn(k))))
    raise Unsupported("sum")


def do_sum(I, a, kw):
    st = I.force(kw.get("start", a[1] if len(a) > 1 else None))
    if isinstance(st, PList):
        return binop(I, "Add", st, concat_all(I, a[0]))
    r = py_sum(I, a[0])
    return r if st is None else binop(I, "Add", st, r)


def concat_all(I, v):
    """the elements of the elements, in order"""
    it = I.iter_of(I.force(v))
    if isinstance(it, list):
        r = PList([])
        for x in it:
            r = binop(I, "Add", r, to_list(I, [x]))
        return r
    return I.snippet("[x for l in v for x in l]", v=v)


def accumulate(I, a, kw):
    """itertools.accumulate: running totals"""
    if len(a) > 1:
        raise Unsupported("accumulate with a function")
    it = I.iter_of(I.force(a[0]))
    st = I.force(kw["initial"]) if "initial" in kw else None
    if isinstance(it, list):
        r = [] if st is None else [st]
        for x in it:
            r.append(binop(I, "Add", r[-1], x) if r else x)
        return PList(r)
    if st is None:
        return I.snippet("[sum(v[:i + 1]) for i in range(len(v))]", v=to_list(I, a))
    return I.snippet("[s + sum(v[:i]) for i in range(len(v) + 1)]", v=to_list(I, a), s=st)


def chain(I, a, kw):
    r = PList([])
    for x in a:
        r = binop(I, "Add", r, to_list(I, [x]))
    return r


def py_max(I, vals, sign, default=_MISSING):
    if len(vals) == 1:
        v = I.force(vals[0])
        it = I.iter_of(v)
        if isinstance(it, list) and not it and default is not _MISSING:
            return default
        if isinstance(it, IterV):
            n, fn = it.n, it.fn
            if default is not _MISSING:
                if I.choose(le(n, 0)):
                    return default
            elif not CTX.suppress:
                CTX.oblige("max of a non-empty sequence", gt(n, 0))
            k, b = CTX.bound(n, lambda k: numterm(fn(k)))
            return app("MAXV" if sign > 0 else "MINV", (n, lam(k, b)), "I" if b.sort == "I" else "R")
        vals = it
    if not vals:
        raise PyRaise("ValueError: max of empty sequence")
    ts = [numterm(x) for x in vals]
    r = ts[0]
    for t in ts[1:]:
        r = ite(lt(r, t) if sign > 0 else lt(t, r), t, r)
    return py(r)


def do_range(I, a):
    a = [term(I.force(x)) for x in a]
    for t in a:
        if t.sort != "I":
            raise PyRaise("TypeError: range of a non-integer")
    lo, hi, st = ZERO, None, 1
    if len(a) == 1:
        hi = a[0]
    else:
        lo, hi = a[0], a[1]
        if len(a) == 3:
            if not isnum(a[2]):
                raise Unsupported("range step")
            st = int(a[2].data)
    if isnum(lo) and isnum(hi):
        return PList([i for i in range(int(lo.data), int(hi.data), st)])
    if st != 1:
        if st == -1:
            n = sub(lo, hi)
            if not CTX.holds(le(0, n)):
                n = ite(le(0, n), n, ZERO)
            return IterV(n, lambda k: sub(lo, k))
        raise Unsupported("range step")
    n = sub(hi, lo)
    if not isnum(n) and not CTX.holds(le(0, n)):
        n = ite(le(0, n), n, ZERO)
    return IterV(n, lambda k: add(lo, k))


def do_zip(I, a):
    if len(a) == 1 and isinstance(a[0], Star):
        return transposed(I, a[0].v)
    its = [I.iter_of(I.force(x)) for x in a]
    if any(isinstance(x, list) for x in its):
        m = min(len(x) for x in its if isinstance(x, list))
        out = []
        for x in its:
            if isinstance(x, list):
                out.append(x[:m])
            else:
                CTX.oblige("zip lengths", le(m, x.n))
                out.append([x.fn(num(i)) for i in range(m)])
        return PList([tuple(y) for y in zip(*out)])
    n = its[0].n
    for x in its[1:]:
        if x.n is n or CTX.holds(eq(x.n, n)):
            continue
        n = ite(le(n, x.n), n, x.n)
    return IterV(n, lambda k: tuple(x.fn(k) for x in its))


def transposed(I, v):
    """zip(*v) for a symbolic list of equally long tuples"""
    it = I.iter_of(v)
    n = it.n
    if not CTX.holds(lt(0, n)):
        raise Unsupported("zip of possibly no sequence")
    with_first = I.iter_of(I.force(it.fn(ZERO)))
    if not isinstance(with_first, list):
        raise Unsupported("zip of sequences of symbolic length")
    m = len(with_first)

    def part(j, k):
        x = I.iter_of(I.force(it.fn(k)))
        if not isinstance(x, list) or len(x) != m:
            raise Unsupported("zip of sequences of different lengths")
        return x[j]
    k = fresh("zip")
    with CTX.under(and_(le(0, k), lt(k, n))):
        part(0, k)
    return PList([PList(n=n, fn=lambda k, j=j: part(j, k), tup=True) for j in range(m)])


def boolterm(x):
    t = term(x)
    return t if t.sort == "B" else ne(t, 0)


def maxv(v, sign=1):
    """maximum of a non-empty array"""
    ds = [d for d in v.dims if not is_num(d.size(), 1)]
    src = Tensor(v.kind, v.dims, v.f)
    if not ds:
        return src.get(*[ZERO for _ in v.dims])
    if not CTX.suppress:
        for d in ds:
            CTX.oblige("maximum of a non-empty array", gt(d.size(), 0))
    ns = [d.size() for d in v.dims]

    def lamn(i, acc):
        if i == len(ns):
            return numterm(src.get(*acc))
        k, b = CTX.bound(ns[i], lambda k: lamn(i + 1, acc + [k]))
        return app("MAXV" if sign > 0 else "MINV", (ns[i], lam(k, b)), "R")
    return lamn(0, [])


def tensor_method(I, v, name, a, kw):
    src = Tensor(v.kind, v.dims, v.f, elem=v.elem)
    if name == "full":
        return Tensor("np", v.dims, v.f)
    if name in METHOD_KW and (set(kw) - METHOD_KW[name][0] or len(a) > METHOD_KW[name][1]):
        raise Unsupported("option of the array method " + name)
    if name in ("any", "all", "sum"):
        kind = {"any": "EXISTS", "all": "FORALL", "sum": "SUM"}[name]
        conv = numterm if name == "sum" else boolterm
        ax = I.force(kw.get("axis", a[0] if a else None))
        if ax is None:
            return py(reduce_dims(kind, v.dims, lambda *s: conv(src.at(*s))))
        ax = int(term(ax).data)
        if not -v.rank <= ax < v.rank:
            raise PyRaise("AxisError")
        ax %= v.rank
        rest = [d for i, d in enumerate(v.dims) if i != ax]
        part = lambda *s: red1(kind, v.dims[ax], lambda q: conv(src.at(*(list(s[:ax]) + [q] + list(s[ax:])))))
        return Tensor("np", tuple(rest), part) if rest else py(part())
    if name in ("max", "min"):
        ax = kw.get("axis", a[0] if a else None)
        sg = 1 if name == "max" else -1
        if ax is None:
            return maxv(v, sg)
        ax = int(term(ax).data) % v.rank
        rest = [d for i, d in enumerate(v.dims) if i != ax]

        def f(*s):
            def g(k):
                full = list(s)
                full.insert(ax, locate(v.dims[ax], k))
                return numterm(src.at(*full))
            k, b = CTX.bound(v.dims[ax].size(), g)
            return app("MAXV" if sg > 0 else "MINV", (v.dims[ax].size(), lam(k, b)), "R")
        if not CTX.suppress:
            CTX.oblige("maximum of a non-empty array", gt(v.dims[ax].size(), 0))
        if not rest:
            return f()
        return Tensor("np", tuple(rest), f)
    if name == "argmax" and v.rank == 1 and not a and not kw:
        n = v.dims[0].size()
        k, b = CTX.bound(n, lambda k: term(src.get(k)))
        if not CTX.suppress:
            CTX.oblige("argmax of a non-empty array", gt(n, 0))
        return app("FIRST" if b.sort == "B" else "ARGMAX", (n, lam(k, b)), "I")
    if name == "reshape":
        shp = a[0] if len(a) == 1 and isinstance(a[0], (tuple, PList)) else a
        shp = list(shp.items() if isinstance(shp, PList) else shp)
        return view_of(v, reshape_to(I, v, [DL(term(x)) for x in shp]))
    if name in ("flatten", "ravel") and v.kind == "np":
        r = Tensor("np", v.dims, v.f) if v.rank == 1 else np_concat(I, v)
        return view_of(v, r) if name == "ravel" else r
    if name == "copy":
        return Tensor(v.kind, v.dims, v.f, elem=v.elem)
    if name == "size1":
        return py(v.dims[0].size())
    if name == "size2":
        return py(v.dims[1].size())
    if name == "numel":
        return py(mul(*sizes(v)))
    if name == "size" and v.kind in CASADI:
        if a:
            ax = term(I.force(a[0]))
            if not isnum(ax) or ax.data not in (1, 2):
                raise Unsupported("axis of a casadi matrix")
            return py(sizes(v)[int(ax.data) - 1])
        return tuple(py(x) for x in sizes(v))
    if name == "tolist":
        n = v.dims[0].size()
        return PList(n=n, fn=lambda k: tensor_get(I, src, k), fresh=True)
    if name == "astype":
        if dtype_of(I, a[0] if a else kw.get("dtype")):
            r = truncated(I, src)
            r.whole = True
            return r
        return Tensor(v.kind, v.dims, v.f)
    if name == "squeeze":
        return view_of(v, reshape_to(I, v, [d for d in v.dims if not one(d)]))
    if name == "sort" and v.rank == 1:
        if v.view:
            raise Unsupported("sorting an array view")
        r = call(I, "np.sort", [v], {})
        CTX.set(v, "f", r.f)
        I.touch(v)
        return None
    raise Unsupported("array method " + name)


# options of array methods: known keywords, most positional arguments
METHOD_KW = {"any": ({"axis"}, 1), "all": ({"axis"}, 1), "sum": ({"axis"}, 1), "max": ({"axis"}, 1), "min": ({"axis"}, 1), "argmax": (set(), 0),
             "flatten": (set(), 0), "ravel": (set(), 0), "copy": (set(), 0), "squeeze": (set(), 0), "sort": (set(), 0), "tolist": (set(), 0),
             "reshape": (set(), 9), "astype": ({"dtype"}, 1), "full": (set(), 0)}


def reshape_to(I, v, dims):
    if any(isnum(d.size()) and d.size().data == -1 for d in dims):
        if len(dims) == 1:
            return np_concat(I, v) if v.rank > 1 else v
        raise Unsupported("reshape with -1")
    src = [(i, d) for i, d in enumerate(v.dims) if not one(d)]
    dst = [(i, d) for i, d in enumerate(dims) if not one(d)]
    if len(src) != len(dst):
        # remaining dimensions must be provably one
        raise Unsupported("reshape %r -> %s" % (v, [show(d.size()) for d in dims]))
    nd = list(dims)
    pos = {}
    for (i, d), (j, e) in zip(src, dst):
        shape_eq(d, e, "reshape keeps the number of elements")
        nd[j] = d
        pos[i] = j
    at = Tensor(v.kind, v.dims, v.f).at

    def f(*s):
        return at(*[s[pos[i]] if i in pos else locate(d, ZERO) for i, d in enumerate(v.dims)])
    return Tensor("np" if v.kind == "np" else v.kind, tuple(nd), f, elem=v.elem)


def list_method(I, v, name, a, kw):
    if name == "append":
        CTX.set(v, "v", v.v + (("i", a[0]),))
        I.touch(v)
        return None
    if name == "extend":
        list_extend(I, v, a[0])
        return None
    if name == "pop" and v.concrete():
        items = v.items()
        i = int(term(a[0]).data) if a else -1
        r = items.pop(i)
        CTX.set(v, "v", tuple(("i", x) for x in items))
        I.touch(v)
        return r
    if name == "copy":
        return PList(pieces=v.v)
    if name == "insert" and v.concrete():
        items = v.items()
        items.insert(int(term(a[0]).data), a[1])
        CTX.set(v, "v", tuple(("i", x) for x in items))
        I.touch(v)
        return None
    if name == "index" and v.concrete():
        for i, x in enumerate(v.items()):
            if same(x, a[0]):
                return i
    if name == "sort":
        r = sorted_list(I, v, kw)
        CTX.set(v, "v", r.v)
        I.touch(v)
        return None
    raise Unsupported("list method " + name)


def sorted_list(I, v, kw):
    """rearrangement of a list by increasing key"""
    if kw.get("reverse") not in (None, False) or set(kw) - {"key", "reverse"}:
        raise Unsupported("sort options")
    content, n = v.v, num(v.length())
    item = lambda k: pitem(None, content, k)
    key = kw.get("key")
    k, b = CTX.bound(n, lambda k: numterm(I.call(key, [item(k)], {}) if key is not None else item(k)))
    l = lam(k, b)
    return PList(n=n, fn=lambda e: item(app("PERM", (n, l, num(e)), "I")))


def np_mean(I, a, k):
    if len(a) != 1 or k:
        raise Unsupported("mean along an axis")
    v = nparray(I, I.force(a[0]))
    if not isinstance(v, Tensor) or v.rank != 1:
        raise Unsupported("mean of %r" % (v,))
    n = v.dims[0].size()
    CTX.oblige("mean of no values", gt(n, 0))
    return div(SUMc(n, lambda i: v.get(i)), n)


def dict_method(I, v, name, a, kw):
    d = v.v
    if name == "get":
        c = contains(I, v, a[0])
        if I.choose(c):
            return dict_get(I, v, a[0])
        return a[1] if len(a) > 1 else None
    if isinstance(d, dict):
        if name == "items":
            return PList([(k, x) for k, x in d.items()])
        if name == "keys":
            return PList(list(d.keys()))
        if name == "values":
            return PList(list(d.values()))
        if name == "pop":
            k = dkey(a[0])
            if k not in d:
                if len(a) > 1:
                    return a[1]
                raise PyRaise("KeyError")
            n = dict(d)
            r = n.pop(k)
            CTX.set(v, "v", n)
            I.touch(v)
            return r
        if name == "update":
            n = dict(d)
            if a:
                n.update(a[0].v)
            n.update(kw)
            CTX.set(v, "v", n)
            I.touch(v)
            return None
        if name == "copy":
            return PDict(dict(d))
        if name == "setdefault":
            k = dkey(a[0])
            if k not in d:
                n = dict(d)
                n[k] = a[1] if len(a) > 1 else None
                CTX.set(v, "v", n)
                I.touch(v)
                return n[k]
            return d[k]
    if name == "values" and getattr(d, "seq", None) is not None:
        return PList(n=d.seq[0], fn=d.seq[1])
    raise Unsupported("dict method " + name)


# ------------------------------------------------------------------ calls
def call_poly(I, p, a):
    x = a[0]
    if isinstance(x, Tensor) and not all(is_num(d.size(), 1) for d in x.dims):
        return tmap(lambda t: p.fn(t), x)
    return p.fn(term(x))


def np_dot(I, a, b):
    if scalar(a) or scalar(b):
        return binop(I, "Mult", a, b)
    a = a if isinstance(a, Tensor) else nparray(I, a)
    b = b if isinstance(b, Tensor) else nparray(I, b)
    fa, fb = Tensor(a.kind, a.dims, a.f).at, Tensor(b.kind, b.dims, b.f).at
    da = a.dims[-1]
    db = b.dims[-2] if b.rank > 1 else b.dims[0]
    shape_eq(da, db, "matrix product shapes")
    mp = remap(da, db)

    kind = "DM" if (a.kind in CASADI or b.kind in CASADI) else "np"
    # np.dot on casadi operands returns a casadi matrix (object protocol)
    dims = tuple(a.dims[:-1]) + (tuple(b.dims[:-2]) + (b.dims[-1],) if b.rank > 1 else ())
    na = a.rank - 1

    def f(*s):
        sa, sb = s[:na], s[na:]
        return red1("SUM", db, lambda c: mul(numterm(fa(*sa, mp(c))), numterm(fb(c, *sb) if b.rank > 1 else fb(c))))
    if not dims:
        return f()
    return Tensor(kind, dims, f)


def mtimes(I, a, b):
    a, b = as_ca(I, a), as_ca(I, b)
    kind = "SX" if "SX" in (a.kind, b.kind) else "DM"
    if all(is_num(d.size(), 1) for d in a.dims) or all(is_num(d.size(), 1) for d in b.dims):
        return tmap(lambda x, y: mul(x, y), a, b)
    fa, fb = Tensor(a.kind, a.dims, a.f).at, Tensor(b.kind, b.dims, b.f).at
    shape_eq(a.dims[1], b.dims[0], "matrix product shapes")
    if a.diag is not None:
        dg = a.diag
        return Tensor(kind, b.dims, lambda i, j: mul(dg(flat_of(b.dims[0], i)), fb(i, j)))
    if a.keye is not None:
        m, D = a.keye
        fd = Tensor(D.kind, D.dims, D.f).at
        rows = DB(m, lambda k: D.dims[0])
        cols = DB(m, lambda k: D.dims[1])
        mp = remap(b.dims[0], cols)
        return Tensor(kind, (rows, b.dims[1]),
                      lambda i, j: red1("SUM", D.dims[1], lambda c: mul(fd(i[2], c), fb(mp(("b", i[1], c)), j))))
    mp = remap(b.dims[0], a.dims[1])
    return Tensor(kind, (a.dims[0], b.dims[1]),
                  lambda i, j: red1("SUM", a.dims[1], lambda c: mul(fa(i, c), fb(mp(c), j))))


def generic_item(I, fn, n, k, conv):
    """an element with a generic index; no path may be chosen on that index"""
    with CTX.under(le(0, k), lt(k, n)):
        I.generic.append((k, len(I.regions)))
        try:
            return fold_item(I, fn(k), conv)
        finally:
            I.generic.pop()


def fold_item(I, x, conv):
    """alternatives of the same rank as one value: sizes and entries selected by the conditions"""
    if not isinstance(x, Union):
        return conv(I, x)
    alts = []

    def walk(y, cs):
        if isinstance(y, Union):
            no = []
            for j, (c, z) in enumerate(y.alts):
                g = cs + no + [c]
                with CTX.under(*(cs + no)):
                    d = CTX.decide(c)
                if d is False:
                    continue
                walk(z, cs + no if d is True else g)
                if d is True:
                    return
                no.append(not_(c))
        else:
            with CTX.under(*cs):
                alts.append((cs, conv(I, y)))
    walk(x, [])
    if not alts:
        raise Unsupported("no feasible alternative")
    ts = [t for c, t in alts]
    if len(ts) == 1:
        return ts[0]
    if not all(isinstance(t, Tensor) for t in ts) or any(t.rank != ts[0].rank for t in ts):
        raise Unsupported("alternatives of different ranks")
    if ts[0].rank == 0:
        return conv(I, I.force(x))
    conds = [and_(*c) for c, t in alts]

    def select(vals):
        r = vals[-1]
        for c, v in zip(reversed(conds[:-1]), reversed(vals[:-1])):
            r = v if v is r else ite(c, v, r)
        return r
    keep = [all(same_dim(ts[0].dims[a], t.dims[a]) for t in ts[1:]) for a in range(ts[0].rank)]
    dims = tuple(ts[0].dims[a] if keep[a] else DL(select([t.dims[a].size() for t in ts])) for a in range(ts[0].rank))
    ats = [Tensor(t.kind, t.dims, t.f) for t in ts]

    def f(*s):
        vals = []
        for c, t in zip(conds, ats):
            with CTX.under(c):
                vals.append(t.get(*[flat_of(d, x) for d, x in zip(dims, s)]))
        return select(vals)
    kind = "SX" if any(t.kind == "SX" for t in ts) else ts[0].kind
    return Tensor(kind, dims, f)


def vertcat(I, args):
    """vertical concatenation of casadi-convertible pieces"""
    kind = "DM"
    pieces = []      # (dim of rows, f(row, col), ncols dim)
    ncols = None
    flat = []
    for x in args:
        if isinstance(x, Star):
            v = x.v
            v = PList(list(v)) if isinstance(v, tuple) else v
            if isinstance(v, Tensor):
                vv = v
                v = PList(n=vv.dims[0].size(), fn=lambda k, vv=vv: tensor_get(I, vv, k))
            flat += list(v.v)
        else:
            flat.append(("i", x))
    for p in flat:
        if p[0] == "i":
            x = I.force(p[1])
            if isinstance(x, PList) and not x.v or isinstance(x, tuple) and not x:
                continue
            m = as_ca(I, x)
            if m.kind == "SX":
                kind = "SX"
            if isinstance(x, Term) and any(v.data.startswith("$") or True for v in fv(x)):
                pass
            at = Tensor(m.kind, m.dims, m.f).at
            pieces.append((m.dims[0], m.dims[1], at))
        else:
            n, fn = p[1], p[2]
            k = fresh("pi", "I")
            m0 = generic_item(I, fn, n, k, as_ca)
            if m0.kind == "SX":
                kind = "SX"
            cache = {}

            def item(k, fn=fn):
                return fold_item(I, fn(k), as_ca)
            d = DB(n, lambda k, item=item: item(k).dims[0])
            if k not in fv(m0.dims[0].size()) and isinstance(m0.dims[0], DL):
                d0 = m0.dims[0]
                d = DB(n, lambda k, d0=d0: d0)
            at = (lambda s, j, item=item: (lambda m: Tensor(m.kind, m.dims, m.f).at(s[2], j))(item(s[1])))
            d2, mp = simp_dim(d)
            pieces.append((d2, m0.dims[1], (lambda s, j, at=at, mp=mp: at(mp(s), j))))
    if not pieces:
        return Tensor("DM", (DL(0), DL(1)), lambda i, j: ZERO)
    for q in pieces[1:]:
        shape_eq(q[1], pieces[0][1], "vertcat columns match")
    if len(pieces) == 1:
        d, c, at = pieces[0]
        return Tensor(kind, (d, c), lambda i, j: at(i, j))
    dim = DC([p[0] for p in pieces])
    return norm(kind, (dim, pieces[0][1]), lambda s, j: pieces[s[1]][2](s[2], j))


def np_concat(I, v, axis=0):
    if isinstance(v, Tensor):
        if v.rank == 1:
            raise PyRaise("ValueError: zero-dimensional arrays cannot be concatenated")
        src = Tensor("np", v.dims, v.f)
        if v.rank == 2:
            if isinstance(v.dims[0], DL):
                d = DB(v.dims[0].n, lambda k: v.dims[1])
                return norm("np", (d,), lambda s: src.at(s[1], s[2]))
            if one(v.dims[0]):
                z = locate(v.dims[0], ZERO)
                return Tensor("np", (v.dims[1],), lambda s: src.at(z, s))
            if one(v.dims[1]):
                z = locate(v.dims[1], ZERO)
                return Tensor("np", (v.dims[0],), lambda s: src.at(s, z))
        raise Unsupported("concatenate of a %d-d array" % v.rank)
    if isinstance(v, tuple):
        v = PList(list(v))
    if isinstance(v, PList):
        pieces = []
        for p in v.v:
            if p[0] == "i":
                x = nparray(I, I.force(p[1]))
                if isinstance(x, PList):
                    raise Unsupported("concatenate of ragged pieces")
                if x.rank == 0:
                    raise PyRaise("ValueError: zero-dimensional arrays cannot be concatenated")
                if is_num(x.dims[0].size(), 0) and len(v.v) > 1 and x.rank == 1:
                    continue
                pieces.append((x.dims, Tensor("np", x.dims, x.f).at))
            else:
                n, fn = p[1], p[2]
                k = fresh("pi", "I")
                m0 = generic_item(I, fn, n, k, nparray)
                if m0.rank == 0:
                    raise PyRaise("ValueError: zero-dimensional arrays cannot be concatenated")
                item = (lambda k, fn=fn: fold_item(I, fn(k), nparray))
                if k not in fv(m0.dims[0].size()) and isinstance(m0.dims[0], DL):
                    d0 = m0.dims[0]
                    d = DB(n, lambda k, d0=d0: d0)
                else:
                    d = DB(n, lambda k, item=item: item(k).dims[0])
                at = (lambda s, *r, item=item: (lambda m: Tensor("np", m.dims, m.f).at(s[2], *r))(item(s[1])))
                d2, mp = simp_dim(d)
                pieces.append(((d2,) + tuple(m0.dims[1:]), (lambda s, *r, at=at, mp=mp: at(mp(s), *r))))
        if not pieces:
            if not v.v:
                raise PyRaise("ValueError: need at least one array to concatenate")
            return Tensor("np", (DL(0),), lambda i: ZERO)
        rest = pieces[0][0][1:]
        for ds, at in pieces[1:]:
            if len(ds) != len(pieces[0][0]):
                raise PyRaise("ValueError: concatenate ranks")
            for a, b in zip(ds[1:], rest):
                shape_eq(a, b, "concatenate shapes")
        if len(pieces) == 1:
            return Tensor("np", pieces[0][0], lambda *s: pieces[0][1](*s))
        dim = DC([p[0][0] for p in pieces])
        maps = [[remap(a, b) for a, b in zip(ds[1:], rest)] for ds, at in pieces]
        return norm("np", (dim,) + tuple(rest), lambda s, *r: pieces[s[1]][1](s[2], *[m(x) for m, x in zip(maps[s[1]], r)]))
    raise Unsupported("concatenate of %r" % (v,))


def np_concatenate(I, a, k):
    ax = I.force(k.get("axis", a[1] if len(a) > 1 else 0))
    if ax in (1, -1):
        v = I.force(a[0])
        items = list(v) if isinstance(v, tuple) else v.items() if isinstance(v, PList) and v.concrete() else None
        items = items and [nparray(I, I.force(x)) for x in items]
        if items and all(x.rank == 2 for x in items):
            return transpose(np_concat(I, PList([transpose(x) for x in items])))
        if ax == -1 and items and all(x.rank == 1 for x in items):
            ax = 0
    if ax != 0:
        raise Unsupported("concatenate along an axis")
    return np_concat(I, I.force(a[0]))


def length(I, v):
    v = I.force(v)
    if isinstance(v, PList):
        return py(v.length())
    if isinstance(v, tuple):
        return len(v)
    if isinstance(v, Tensor):
        if v.rank == 0:
            raise PyRaise("TypeError: len() of unsized object")
        if v.kind in CASADI:
            return py(v.dims[0].size()) if not one(v.dims[0]) else py(mul(*sizes(v)))
        return py(v.dims[0].size())
    if isinstance(v, PDict):
        if isinstance(v.v, dict):
            return len(v.v)
    if isinstance(v, str):
        return len(v)
    if isinstance(v, IterV):
        return py(v.n)
    if isinstance(v, SymVal):
        return v.length(I)
    if v is None:
        raise PyRaise("TypeError: len of None")
    raise Unsupported("len of %r" % (v,))


def py_sum(I, v):
    v = I.force(v)
    it = I.iter_of(v)
    if isinstance(it, list):
        r = 0
        for x in it:
            r = binop(I, "Add", r, x)
        return r
    if isinstance(it, IterV):
        return py(SUMc(it.n, lambda k: numterm(it.fn(k))))
    raise Unsupported("sum")


def do_sum(I, a, kw):
    st = I.force(kw.get("start", a[1] if len(a) > 1 else None))
    if isinstance(st, PList):
        return binop(I, "Add", st, concat_all(I, a[0]))
    r = py_sum(I, a[0])
    return r if st is None else binop(I, "Add", st, r)


def concat_all(I, v):
    """the elements of the elements, in order"""
    it = I.iter_of(I.force(v))
    if isinstance(it, list):
        r = PList([])
        for x in it:
            r = binop(I, "Add", r, to_list(I, [x]))
        return r
    return I.snippet("[x for l in v for x in l]", v=v)


def accumulate(I, a, kw):
    """itertools.accumulate: running totals"""
    if len(a) > 1:
        raise Unsupported("accumulate with a function")
    it = I.iter_of(I.force(a[0]))
    st = I.force(kw["initial"]) if "initial" in kw else None
    if isinstance(it, list):
        r = [] if st is None else [st]
        for x in it:
            r.append(binop(I, "Add", r[-1], x) if r else x)
        return PList(r)
    if st is None:
        return I.snippet("[sum(v[:i + 1]) for i in range(len(v))]", v=to_list(I, a))
    return I.snippet("[s + sum(v[:i]) for i in range(len(v) + 1)]", v=to_list(I, a), s=st)


def chain(I, a, kw):
    r = PList([])
    for x in a:
        r = binop(I, "Add", r, to_list(I, [x]))
    return r


def py_max(I, vals, sign, default=_MISSING):
    if len(vals) == 1:
        v = I.force(vals[0])
        it = I.iter_of(v)
        if isinstance(it, list) and not it and default is not _MISSING:
            return default
        if isinstance(it, IterV):
            n, fn = it.n, it.fn
            if default is not _MISSING:
                if I.choose(le(n, 0)):
                    return default
            elif not CTX.suppress:
                CTX.oblige("max of a non-empty sequence", gt(n, 0))
            k, b = CTX.bound(n, lambda k: numterm(fn(k)))
            return app("MAXV" if sign > 0 else "MINV", (n, lam(k, b)), "I" if b.sort == "I" else "R")
        vals = it
    if not vals:
        raise PyRaise("ValueError: max of empty sequence")
    ts = [numterm(x) for x in vals]
    r = ts[0]
    for t in ts[1:]:
        r = ite(lt(r, t) if sign > 0 else lt(t, r), t, r)
    return py(r)


def do_range(I, a):
    a = [term(I.force(x)) for x in a]
    for t in a:
        if t.sort != "I":
            raise PyRaise("TypeError: range of a non-integer")
    lo, hi, st = ZERO, None, 1
    if len(a) == 1:
        hi = a[0]
    else:
        lo, hi = a[0], a[1]
        if len(a) == 3:
            if not isnum(a[2]):
                raise Unsupported("range step")
            st = int(a[2].data)
    if isnum(lo) and isnum(hi):
        return PList([i for i in range(int(lo.data), int(hi.data), st)])
    if st != 1:
        if st == -1:
            n = sub(lo, hi)
            if not CTX.holds(le(0, n)):
                n = ite(le(0, n), n, ZERO)
            return IterV(n, lambda k: sub(lo, k))
        raise Unsupported("range step")
    n = sub(hi, lo)
    if not isnum(n) and not CTX.holds(le(0, n)):
        n = ite(le(0, n), n, ZERO)
    return IterV(n, lambda k: add(lo, k))


def do_zip(I, a):
    if len(a) == 1 and isinstance(a[0], Star):
        return transposed(I, a[0].v)
    its = [I.iter_of(I.force(x)) for x in a]
    if any(isinstance(x, list) for x in its):
        m = min(len(x) for x in its if isinstance(x, list))
        out = []
        for x in its:
            if isinstance(x, list):
                out.append(x[:m])
            else:
                CTX.oblige("zip lengths", le(m, x.n))
                out.append([x.fn(num(i)) for i in range(m)])
        return PList([tuple(y) for y in zip(*out)])
    n = its[0].n
    for x in its[1:]:
        if x.n is n or CTX.holds(eq(x.n, n)):
            continue
        n = ite(le(n, x.n), n, x.n)
    return IterV(n, lambda k: tuple(x.fn(k) for x in its))


def transposed(I, v):
    """zip(*v) for a symbolic list of equally long tuples"""
    it = I.iter_of(v)
    n = it.n
    if not CTX.holds(lt(0, n)):
        raise Unsupported("zip of possibly no sequence")
    with_first = I.iter_of(I.force(it.fn(ZERO)))
    if not isinstance(with_first, list):
        raise Unsupported("zip of sequences of symbolic length")
    m = len(with_first)

    def part(j, k):
        x = I.iter_of(I.force(it.fn(k)))
        if not isinstance(x, list) or len(x) != m:
            raise Unsupported("zip of sequences of different lengths")
        return x[j]
    k = fresh("zip")
    with CTX.under(and_(le(0, k), lt(k, n))):
        part(0, k)
    return PList([PList(n=n, fn=lambda k, j=j: part(j, k), tup=True) for j in range(m)])


def logical(op):
    def f(I, a, kw):
        x = [I.force(y) for y in a]
        if op == "Not":
            return lift(lambda t: not_(boolterm(t)), x[0])
        return lift(lambda s, t: (and_ if op == "And" else or_)(boolterm(s), boolterm(t)), *x)
    return f


def boolterm(t):
    if isinstance(t, bool):
        return TRUE if t else FALSE
    if not isinstance(t, Term) or t.sort != "B":
        raise Unsupported("logical operation on numbers")
    return t


def do_enumerate(I, a, k={}):
    it = I.iter_of(I.force(a[0]))
    st = term(a[1]) if len(a) > 1 else term(k.get("start", 0))
    if isinstance(it, list):
        return PList([(py(add(st, i)), x) for i, x in enumerate(it)])
    if isinstance(it, SymSet):
        raise Unsupported("enumerate over a set")
    return IterV(it.n, lambda k: (py(add(st, k)), it.fn(k)))


def absv(v):
    t = numterm(v)
    if isnum(t):
        return num(abs(t.data))
    return app("abs", (t,), t.sort)


T.SIMP["abs"] = lambda args, sort: (num(abs(args[0].data)) if isnum(args[0]) else None)


def num_or_array(I, v):
    v = I.force(v)
    return v if scalar(v) else nparray(I, v)


def lift(fn, v):
    if isinstance(v, Tensor):
        return tmap(lambda x: fn(numterm(x)), v)
    return py(fn(numterm(v)))


def DER(t, body, at):
    """derivative of lam t. body at the point"""
    return app("DER", (lam(t, body), at), "R")


def ANTI(t, body, a, b):
    """integral of body dt over [a,b], written with the antiderivative vanishing at 0"""
    l = lam(t, body)
    F = lambda x: ZERO if is_num(num(x), 0) else app("INT", (l, num(x)), "R")
    return sub(F(b), F(a))


TV = var("TVAR", "R")


def call(I, name, a, kw):
    a = [x if isinstance(x, Star) else x for x in a]
    f = TABLE.get(name)
    if f is None:
        raise Unsupported("library function " + name)
    if kw and "*" not in KEYWORDS.get(name, ()) and set(kw) - KEYWORDS.get(name, frozenset()):
        raise Unsupported("option %s of %s" % (sorted(set(kw) - KEYWORDS.get(name, frozenset()))[0], name))
    if name in ARITY and len(a) > ARITY[name]:
        raise Unsupported("positional option of " + name)
    return f(I, a, kw)


# keyword arguments that the models below know (any other is out of reach)
KEYWORDS = {n: frozenset(k.split()) for n, k in {
    "max": "default", "min": "default", "np.array": "dtype", "np.asarray": "dtype", "np.zeros": "dtype", "np.ones": "dtype", "np.full": "dtype",
    "np.empty": "dtype", "np.linspace": "num endpoint", "np.concatenate": "axis", "np.sum": "axis", "np.max": "axis", "np.min": "axis",
    "np.any": "axis", "np.all": "axis", "np.linalg.norm": "axis", "itertools.groupby": "key", "itertools.accumulate": "initial", "enumerate": "start", "dict": "*", "print": "*",
    "sorted": "key reverse", "np.diff": "", "np.vstack": "", "ca.Function": "", "sum": "start", "np.eye": "dtype",
    "ca.nlpsol": "*", "round": "*", "np.zeros_like": "dtype", "np.ones_like": "dtype"}.items()}
# most positional arguments a model takes, where the function has further ones
ARITY = {"np.append": 2, "np.cumsum": 1, "np.repeat": 2, "np.tile": 2, "np.zeros": 2, "np.ones": 2, "np.full": 3, "np.array": 2, "np.asarray": 2, "np.linspace": 3,
         "np.sort": 1, "np.diff": 1, "np.concatenate": 2, "np.any": 2, "np.all": 2, "np.sum": 2, "np.max": 2, "np.min": 2, "np.dot": 2, "np.matmul": 2,
         "np.vstack": 1, "np.hstack": 1, "np.transpose": 1, "np.argmax": 1, "np.argmin": 1, "np.prod": 1, "np.mean": 1, "np.flip": 1, "ca.solve": 2,
         "np.eye": 1, "ca.vec": 1, "np.cos": 1, "np.abs": 1, "np.sqrt": 1, "np.minimum": 2, "np.maximum": 2, "np.clip": 3, "np.square": 1, "np.isfinite": 1, "np.isinf": 1, "np.logical_and": 2,
         "np.logical_or": 2, "np.logical_not": 1}


def dim_of_arg(x):
    return DL(term(x))


def shape_arg(x):
    if isinstance(x, tuple):
        return [DL(term(y)) for y in x]
    if isinstance(x, PList):
        return [DL(term(y)) for y in x.items()]
    return [DL(term(x))]


def ca_zeros(I, a, kw, c=ZERO, kind="DM"):
    if len(a) == 1:
        s = shape_arg(a[0])
    else:
        s = [DL(term(x)) for x in a]
    if len(s) == 0:
        s = [DL(1)]
    if len(s) == 1:
        s.append(DL(1))
    return Tensor(kind, tuple(s), lambda i, j: c)


def ca_eye(I, a, kw, kind="DM"):
    n = term(a[0])
    return Tensor(kind, (DL(n), DL(n)), lambda i, j: ite(eq(i, j), ONE, ZERO), diag=(lambda i: ONE))


def ca_diag(I, a, kw):
    v = as_ca(I, a[0])
    if not one(v.dims[1]):
        raise Unsupported("diag of a matrix")
    g = Tensor(v.kind, v.dims, v.f).get
    d = v.dims[0]
    return Tensor(v.kind, (d, d), lambda i, j: ite(eq(flat_of(d, i), flat_of(d, j)), g(flat_of(d, i), ZERO), ZERO),
                  diag=lambda i: g(i, ZERO))


def ca_solve(I, a, kw):
    A, B = a[0], a[1]
    if A.diag is None:
        raise Unsupported("linear solve with a general matrix")
    B = B if isinstance(B, Tensor) else nparray(I, B)
    dg = A.diag
    n = A.dims[0].size()
    shape_eq(A.dims[0], B.dims[0], "solve shapes")
    if not CTX.suppress:
        v = fresh("ix", "I")
        with CTX.under(le(0, v), lt(v, n)):
            CTX.oblige("singular matrix", ne(dg(v), 0))
    fb = Tensor(B.kind, B.dims, B.f).at
    r = Tensor("DM", B.dims, lambda i, j: div(fb(i, j), dg(flat_of(B.dims[0], i))))
    if B.diag is not None:
        db = B.diag
        r.diag = lambda i: div(db(i), dg(i))
    return r


def ca_kron(I, a, kw):
    A, B = as_ca(I, a[0]), as_ca(I, a[1])
    if A.diag is None or not all(d is not None for d in (A.diag,)):
        raise Unsupported("kron with a general matrix")
    v = fresh("ix", "I")
    if not CTX.holds(eq(A.diag(v), 1)):
        raise Unsupported("kron with a non-identity matrix")
    m = A.dims[0].size()
    fb = Tensor(B.kind, B.dims, B.f).at
    rows, cols = DB(m, lambda k: B.dims[0]), DB(m, lambda k: B.dims[1])
    return Tensor("SX" if "SX" in (A.kind, B.kind) else "DM", (rows, cols),
                  lambda i, j: cond_value(eq(i[1], j[1]), lambda: fb(i[2], j[2]), lambda: ZERO), keye=(m, B))


class Syms(SymVal):
    """matrix-valued list created by SX.sym(name, n, m, k)"""


def sx_sym(I, a, kw):
    name = a[0]
    n = term(a[1]) if len(a) > 1 else ONE
    m = term(a[2]) if len(a) > 2 else ONE
    if len(a) <= 1:
        return TV if name == "t" else fresh("sx_" + name, "R")
    if len(a) > 3:
        k = term(a[3])
        return PList(n=k, fn=lambda q: Tensor("SX", (DL(n), DL(m)), lambda i, j: app("SYM." + name, (q, i, j), "R"), tag=("sym", name, q)))
    return Tensor("SX", (DL(n), DL(m)), lambda i, j: app("SYM." + name, (i, j), "R"), tag=("sym", name))


def ca_function(I, a, kw):
    ins, outs = a[1], a[2]
    names = [x for x in (a[4].items() if len(a) > 4 and isinstance(a[4], PList) else [])]
    inn = [x for x in (a[3].items() if len(a) > 3 and isinstance(a[3], PList) else [])]
    f = CaFun(ins.items(), outs.items(), names)
    f.inn = inn
    return f


def call_cafun(I, f, a, kw):
    h = I.hooks.get("cafun") if hasattr(I, "hooks") else None
    if len(f.ins) == 1 and isinstance(f.ins[0], Term) and f.ins[0].op == "var":
        x = a[0]
        outs = []
        for o in f.outs:
            ot = term(o)
            if isinstance(x, Tensor) and not all(is_num(d.size(), 1) for d in x.dims):
                raise Unsupported("vectorised casadi function call")
            outs.append(subst(ot, {f.ins[0]: term(x)}))
        return outs[0] if len(outs) == 1 else tuple(outs)
    if h is not None:
        return h(I, f, a, kw)
    raise Unsupported("casadi function evaluation")


def ca_gradient(I, a, kw):
    e, x = term(a[0]), term(a[1])
    if x.op != "var":
        raise Unsupported("gradient with respect to an expression")
    return DER(x, e, x)


def ca_integrator(I, a, kw):
    d = a[2].v
    opts = a[3].v if len(a) > 3 else {}
    ode, t = term(d["ode"]), term(d["t"])
    t0, tf = term(opts["t0"]), term(opts["tf"])
    xs = d["x"]
    if isinstance(xs, Term) and xs in fv(ode):
        raise Unsupported("integrator of a state dependent ode")

    def run(I2, args, k2):
        x0 = term(k2.get("x0", 0))
        return PDict({"xf": add(x0, ANTI(t, ode, t0, tf))})
    return PyFn(run, "integrator")


def np_polyder(I, a, kw):
    p = a[0]
    m = int(term(a[1]).data) if len(a) > 1 else 1
    for _ in range(m):
        fn = p.fn
        p = PolyV(lambda t, fn=fn: (lambda v: DER(v, fn(v), t))(fresh("t", "R")))
    return p


class AntiV(PolyV):
    pass


def np_polyint(I, a, kw):
    p = a[0]
    fn = p.fn
    return PolyV(lambda t: (lambda v: ANTI(v, fn(v), ZERO, t))(fresh("t", "R")))


def np_poly1d(I, a, kw):
    c = I.force(a[0])
    c = c.items() if isinstance(c, PList) else list(c)
    ts = [term(x) for x in c]
    n = len(ts)
    return PolyV(lambda t: add(*[mul(x, power(t, n - 1 - i)) for i, x in enumerate(ts)]))


def np_append(I, a, kw):
    x, y = nparray(I, I.force(a[0])), nparray(I, I.force(a[1]))
    x = Tensor("np", (DL(1),), (lambda g: lambda i: g())(x.f)) if x.rank == 0 else x
    y = Tensor("np", (DL(1),), (lambda g: lambda i: g())(y.f)) if y.rank == 0 else y
    if x.rank > 1 and one(x.dims[1]) or y.rank > 1:
        raise Unsupported("append of matrices")
    return np_concat(I, PList([x, y]))


def np_linspace(I, a, kw):
    lo, hi = I.force(a[0]), I.force(a[1])
    n = term(I.force(a[2] if len(a) > 2 else kw.get("num", 50)))
    if kw.get("endpoint") not in (None, True):
        raise Unsupported("linspace without endpoint")
    el = lambda x, y, k: add(x, mul(sub(y, x), div(k, sub(n, 1))))
    if not CTX.suppress:
        CTX.oblige("linspace has at least two points", ge(n, 2))
    if scalar(lo) and scalar(hi):
        x, y = term(lo), term(hi)
        return Tensor("np", (DL(n),), lambda k: el(x, y, k))
    r = tmap(lambda x, y: add(x, y), lo, hi)
    gl = lo if isinstance(lo, Tensor) else None
    gh = hi if isinstance(hi, Tensor) else None

    def comp(v, s):
        return term(v) if not isinstance(v, Tensor) else broadcast_to(None, v, r.dims).at(*s)
    return Tensor("np", (DL(n),) + tuple(r.dims), lambda k, *s: el(comp(lo, s), comp(hi, s), flat_of(DL(n), k)))


def np_cumsum(I, a, kw):
    v = nparray(I, I.force(a[0]))
    if v.rank != 1:
        raise Unsupported("cumsum")
    src = Tensor("np", v.dims, v.f)
    n = v.dims[0].size()
    return Tensor("np", (DL(n),), lambda i: _cums(src, v, flat_of(DL(n), i)))


def _cums(src, v, i):
    k = fresh("cs", "I")
    with CTX.under(le(0, k), lt(k, add(i, 1)), lt(k, v.dims[0].size())):
        b = numterm(src.get(k))
    return app("SUM", (ZERO, add(i, 1), lam(k, b)), "I" if b.sort == "I" else "R")


def np_sort(I, a, kw):
    """increasing rearrangement"""
    v = nparray(I, I.force(a[0]))
    if v.rank != 1:
        raise Unsupported("sort")
    n = v.dims[0].size()
    src = Tensor("np", v.dims, v.f)
    k, b = CTX.bound(n, lambda k: numterm(src.get(k)))
    l = lam(k, b)
    return Tensor("np", (DL(n),), lambda i: app("SORTED", (n, l, flat_of(DL(n), i)), "R"))


def np_repeat(I, a, kw):
    v = nparray(I, I.force(a[0]))
    m = term(I.force(a[1]))
    if v.rank == 0:
        t = v.f()
        return Tensor("np", (DL(m),), lambda i: t)
    if v.rank != 1 or not isinstance(v.dims[0], DL):
        raise Unsupported("repeat")
    src = Tensor("np", v.dims, v.f)
    return norm("np", (DB(v.dims[0].n, lambda k: DL(m)),), lambda s: src.at(s[1]))


def np_tile(I, a, kw):
    """the array repeated along each axis; a missing axis is put in front"""
    v = nparray(I, I.force(a[0]))
    m = I.force(a[1] if len(a) > 1 else kw["reps"])
    reps = list(m) if isinstance(m, tuple) else m.items() if isinstance(m, PList) else [m]
    reps = [term(I.force(r)) for r in reps]
    dims, n = list(v.dims), max(v.rank, len(reps))
    reps = [ONE] * (n - len(reps)) + reps
    one = n - v.rank
    dims = [DL(1)] * one + dims
    src = Tensor("np", v.dims, v.f)
    kept = [isnum(r) and r.data == 1 for r in reps]
    for r in reps:
        if not CTX.holds(le(0, r)):
            raise Unsupported("tile, possibly negative count")
    out = [d if k else DB(r, (lambda d: lambda b: d)(d)) for d, r, k in zip(dims, reps, kept)]
    return norm("np", tuple(out), lambda *s: src.at(*[x if k else x[2] for x, k in zip(s, kept)][one:]))


def np_vstack(I, a, kw):
    v = a[0]
    if isinstance(v, Tensor):
        v = PList(n=v.dims[0].size(), fn=(lambda v: lambda k: getitem(I, v, k))(v))

    def row(x):
        x = nparray(I, I.force(x))
        if isinstance(x, PList):
            raise Unsupported("vstack of ragged pieces")
        if x.rank == 0:
            f = x.f
            return Tensor("np", (DL(1), DL(1)), lambda i, j: f())
        if x.rank == 1:
            f = x.f
            return Tensor("np", (DL(1), x.dims[0]), lambda i, j: f(j))
        return x
    items = tuple(("i", x) for x in v) if isinstance(v, tuple) else v.v
    out = []
    for p in items:
        out.append(("i", row(p[1])) if p[0] == "i" else p[:2] + ((lambda fn: lambda k: row(fold_item(I, fn(k), nparray)))(p[2]),) + p[3:])
    return np_concat(I, PList(pieces=tuple(out)))


def np_hstack(I, a, kw):
    v = a[0]
    if isinstance(v, PList) and any(p[0] != "i" for p in v.v):
        k = fresh("hs", "I")
        for p in v.v:
            x = nparray(I, I.force(p[1])) if p[0] == "i" else generic_item(I, p[2], p[1], k, nparray)
            if isinstance(x, PList) or x.rank != 1:
                raise Unsupported("hstack")
        return np_concat(I, v)
    items = list(v) if isinstance(v, tuple) else v.items()
    out = [nparray(I, I.force(x)) for x in items]
    if all(x.rank == 1 for x in out):
        return np_concat(I, PList(out))
    if all(x.rank == 2 for x in out):
        return transpose(np_concat(I, PList([transpose(x) for x in out])))
    raise Unsupported("hstack")


def by_value(x, since):
    """x holds no mutable object older than since"""
    if isinstance(x, tuple):
        return all(by_value(y, since) for y in x)
    if isinstance(x, Union):
        return all(by_value(y, since) for c, y in x.alts)
    if isinstance(x, PList):
        return x.serial > since and all(by_value(p[1], since) for p in x.v if p[0] == "i")
    if isinstance(x, PDict):
        return x.serial > since and isinstance(x.v, dict) and all(by_value(y, since) for y in x.v.values())
    return not isinstance(x, (Tensor, Inst)) or x.serial > since


def deepcopy(I, v, memo=None):
    memo = {} if memo is None else memo
    if isinstance(v, Union):
        return Union([(c, deepcopy(I, x, memo)) for c, x in v.alts])
    if isinstance(v, Obj) and id(v) in memo:
        return memo[id(v)]
    if isinstance(v, Inst):
        n = Inst(v.cls)
        memo[id(v)] = n
        for k, x in v.d.items():
            n.d[k] = deepcopy(I, x, memo)
        n.copied_from = v
        for at in ("spec",):
            if hasattr(v, at):
                setattr(n, at, getattr(v, at))
        return n
    if isinstance(v, Tensor):
        n = Tensor(v.kind, v.dims, v.f, diag=v.diag, keye=v.keye, tag=v.tag, elem=v.elem)
        n.whole = v.whole
        memo[id(v)] = n
        return n
    if isinstance(v, PList):
        n = PList(items=(), tup=v.tup)
        memo[id(v)] = n
        out = []
        for p in v.v:
            if p[0] == "i":
                out.append(("i", deepcopy(I, p[1], memo)))
                continue
            was = CTX.serial
            k = fresh("k", "I")
            with CTX.under(le(0, k), lt(k, p[1])):
                x = p[2](k)
            if not by_value(x, was):
                raise Unsupported("deep copy of a list whose elements are also held elsewhere")
            out.append(p[:3] + (Fresh(n) if p[3] and not p[3].shared else False,))
        n.d["v"] = tuple(out)
        return n
    if isinstance(v, PDict):
        n = PDict({})
        memo[id(v)] = n
        n.d["v"] = {k: deepcopy(I, x, memo) for k, x in v.v.items()} if isinstance(v.v, dict) else v.v
        return n
    if isinstance(v, tuple):
        return tuple(deepcopy(I, x, memo) for x in v)
    return v


def shallow_copy(I, v):
    if isinstance(v, Inst):
        n = Inst(v.cls)
        n.d.update(v.d)
        return n
    if isinstance(v, PList):
        return PList(pieces=v.v)
    if isinstance(v, PDict):
        return PDict(dict(v.v)) if isinstance(v.v, dict) else v
    if isinstance(v, Tensor):
        return Tensor(v.kind, v.dims, v.f, diag=v.diag, keye=v.keye, tag=v.tag, elem=v.elem)
    return v


def to_list(I, a):
    if not a:
        return PList([])
    it = I.iter_of(I.force(a[0]))
    if isinstance(it, list):
        return PList(it)
    if isinstance(it, IterV):
        return PList(pieces=[frozen(I, a[0], it)])
    return it


def frozen(I, v, it):
    """the values of an iterable now, as a list piece"""
    v = I.force(v)
    if isinstance(v, PList):
        n, fn = v.snapshot()
        return ("r", n, fn, False)
    k = fresh("k", "I")
    CTX.birth[k] = CTX.serial
    hy = [le(0, k), lt(k, it.n)]
    with CTX.under(*hy):
        x = it.fn(k)
    escape(x)
    hy = list(CTX.hyps) + hy
    return ("r", it.n, lambda e: vsubst(x, {k: e}, hy), False)


def to_int(I, v):
    v = I.force(v)
    t = numterm(v)
    if t.sort == "I":
        return py(t)
    # truncation towards zero
    if isnum(t):
        return int(t.data)
    fl = app("floor", (t,), "I")
    if CTX.holds(le(0, t)):
        return fl
    return ite(le(0, t), fl, neg(app("floor", (neg(t),), "I")))


def isinst(I, v, t):
    v = I.force(v)
    if isinstance(t, tuple):
        rs = [isinst(I, v, x) for x in t]
        return any(rs)
    if isinstance(t, ClassVal):
        return isinstance(v, Inst) and t.name in I.mro(v.cls)
    if isinstance(t, LibFn):
        n = t.name
        if n == "int":
            return isinstance(v, int) or isinstance(v, Term) and v.sort == "I"
        if n == "float":
            return isinstance(v, (float, Fraction)) or isinstance(v, Term) and v.sort == "R"
        if n == "list":
            return isinstance(v, PList) and not v.tup
        if n == "tuple":
            return isinstance(v, tuple) or isinstance(v, PList) and v.tup
        if n == "dict":
            return isinstance(v, PDict)
        if n == "str":
            return isinstance(v, (str, FmtKey))
        if n == "bool":
            return is_bool(v)
        if n == "np.ndarray":
            return isinstance(v, Tensor) and v.kind == "np"
    raise Unsupported("isinstance")


def hasattr_(I, v, name):
    v = I.force(v)
    if isinstance(v, Inst):
        h = getattr(v, "maybe_attr", {}).get(name)
        if h is not None:
            return h
        if name in v.d:
            return True
        c, m = I.find_method(v.cls, name)
        return m is not None or I.class_attr(v.cls, name) is not _MISSING
    raise Unsupported("hasattr")


def np_norm(I, a, kw):
    v = nparray(I, I.force(a[0]))
    ax = kw.get("axis")
    if v.rank == 2 and ax is not None and int(term(ax).data) == 1:
        src = Tensor("np", v.dims, v.f)

        def f(i):
            return app("sqrt", (red1("SUM", v.dims[1], lambda j: power(numterm(src.at(i, j)), 2)),), "R")
        return Tensor("np", (v.dims[0],), f)
    raise Unsupported("norm")


def np_array(I, a, kw):
    v = I.force(a[0])
    r = nparray(I, v)
    d = dtype_of(I, a[1] if len(a) > 1 else kw.get("dtype"))
    if d is not None and isinstance(r, Tensor):
        r = truncated(I, r) if d else Tensor(r.kind, r.dims, r.f, elem=r.elem)
        r.whole = d
        return r
    if isinstance(r, Tensor) and isinstance(v, (PList, tuple)) and whole_literals(I, v):
        if r is v or r.whole:
            return r
        r = Tensor(r.kind, r.dims, r.f, elem=r.elem)
        r.whole = True
    return r


def whole_literals(I, v):
    """is a (nested) list made of Python ints only, so that the array has an integer type?"""
    v = I.force(v)
    if isinstance(v, tuple):
        return bool(v) and all(whole_literals(I, x) for x in v)
    if isinstance(v, PList):
        some = False
        for p in v.v:
            if p[0] == "i":
                x = p[1]
            else:
                n = num(p[1])
                if is_num(n, 0):
                    continue
                k = fresh("k", "I")
                hm = len(CTX.hyps)
                CTX.hyps.extend([le(0, k), lt(k, n)])
                CTX.suppress += 1
                try:
                    x = p[2](k)
                    if not (isinstance(x, int) or isinstance(x, (PList, tuple))) or not whole_literals(I, x):
                        return False
                finally:
                    CTX.suppress -= 1
                    del CTX.hyps[hm:]
                some = True
                continue
            if not whole_literals(I, x):
                return False
            some = True
        return some
    return isinstance(v, int) and not isinstance(v, bool)


def truncated(I, v):
    """value as stored in an integer array"""
    if scalar(v) or (isinstance(v, Tensor) and v.rank == 0):
        return num(to_int(I, v))
    if not isinstance(v, Tensor):
        v = nparray(I, v)
    return Tensor(v.kind, v.dims, lambda *s: num(to_int(I, v.f(*s))), elem=v.elem)


def getattr_fn(I, a):
    o, n = I.force(a[0]), a[1]
    if not isinstance(n, str):
        raise Unsupported("getattr with a symbolic name")
    if isinstance(o, Inst) and len(a) > 2:
        if not I.choose(hasattr_(I, o, n)):
            return a[2]
    return I.getattr(o, n)


def groupby(I, a, kw):
    """itertools.groupby on a concrete list with a boolean key: forks on every comparison"""
    keyf = a[1] if len(a) > 1 else kw.get("key")
    if not a[0].concrete():
        return groupby_sym(I, a[0], keyf)
    items = a[0].items()
    out = []
    cur = None
    for x in items:
        k = I.call(keyf, [x], {}) if keyf is not None else x
        if is_bool(k):
            k = I.choose(k if isinstance(k, Term) else bool(k))
        elif not isinstance(k, (int, str)):
            raise Unsupported("groupby key")
        if out and out[-1][0] == k:
            out[-1][1].append(x)
        else:
            out.append([k, [x]])
    return PList([(k, PList(g)) for k, g in out])


def groupby_sym(I, v, keyf):
    """maximal runs of equal (boolean) keys"""
    content, n = v.v, num(v.length())
    item = lambda k: pitem(None, content, k)
    k, b = CTX.bound(n, lambda k: boolterm(I.call(keyf, [item(k)], {}) if keyf is not None else item(k)))
    l = lam(k, b)
    at = lambda g: gstart(n, l, num(g))

    def group(g):
        return (inst(l, at(g)), PList(n=sub(at(add(g, 1)), at(g)), fn=lambda j: item(add(at(g), num(j)))))
    return PList(n=ngroups(n, l), fn=group)


def any_all(I, a, kind):
    it = I.iter_of(I.force(a[0]))
    if isinstance(it, list):
        ts = [I.truth(x) for x in it]
        ts = [t if isinstance(t, Term) else (TRUE if t else FALSE) for t in ts]
        return py((or_ if kind == "any" else and_)(*ts))
    f = lambda k: (lambda t: t if isinstance(t, Term) else (TRUE if t else FALSE))(I.truth(it.fn(k)))
    return py((EXISTSc if kind == "any" else FORALLc)(it.n, f))


def dtype_of(I, v):
    """True for an integer type, False for a real one, None when not given"""
    if v is None:
        return None
    v = I.force(v)
    n = v.name if isinstance(v, LibFn) else v if isinstance(v, str) else None
    if n in ("float", "np.float64", "np.float_", "np.double"):
        return False
    if n in ("int", "np.int64", "np.int_"):
        return True
    raise Unsupported("array type %r" % (v,))


def filled(I, shape, dtype, c):
    r = const("np", tuple(shape_arg(I.force(shape))), c)
    if dtype_of(I, dtype):
        r = truncated(I, r)
        r.whole = True
    return r


def filled_like(I, v, dtype, c):
    v = nparray(I, I.force(v))
    r = const("np", tuple(v.dims), c)
    d = dtype_of(I, dtype)
    if d or d is None and v.whole:
        r = truncated(I, r)
        r.whole = True
    return r


def np_full(I, a, k):
    v = I.force(a[1])
    if not scalar(v):
        raise Unsupported("np.full with an array")
    d = a[2] if len(a) > 2 else k.get("dtype")
    r = filled(I, a[0], d, term(v))
    if d is None and term(v).sort == "I":
        r.whole = True
    return r


def elementwise(f, n, of=numterm):
    def g(I, a, k):
        if len(a) != n:
            raise Unsupported("arguments of an elementwise function")
        vs = [I.force(x) for x in a]
        vs = [nparray(I, x) if isinstance(x, (PList, tuple)) else x for x in vs]
        if not any(isinstance(x, Tensor) for x in vs):
            return py(f(*[of(x) for x in vs]))
        return tmap(lambda *x: f(*[of(y) for y in x]), *vs)
    return g


def pick_max(x, y):
    return ite(lt(x, y), y, x)


def pick_min(x, y):
    return ite(lt(y, x), y, x)


def np_clip(I, a, k):
    lo, hi = I.force(a[1]), I.force(a[2])
    v = I.force(a[0])
    if lo is not None:
        v = elementwise(pick_max, 2)(I, [v, lo], {})
    if hi is not None:
        v = elementwise(pick_min, 2)(I, [v, hi], {})
    return v


def np_diff(I, a, k):
    v = nparray(I, I.force(a[0]))
    if v.rank != 1:
        raise Unsupported("diff of a matrix")
    n = v.dims[0].size()
    src = Tensor("np", v.dims, v.f)
    m = sub(n, 1)
    if not CTX.suppress:
        CTX.oblige("diff of a non-empty array", ge(n, 1))
    return Tensor("np", (DL(m),), lambda i: (lambda q: sub(numterm(src.get(add(q, 1))), numterm(src.get(q))))(flat_of(DL(m), i)))


def np_arange(I, a, k):
    r = do_range(I, a)
    if isinstance(r, IterV):
        return Tensor("np", (DL(r.n),), lambda i: term(r.fn(flat_of(DL(r.n), i))))
    return nparray(I, r)


def np_prod(I, a, k):
    v = nparray(I, I.force(a[0]))
    if v.rank != 1:
        raise Unsupported("product of a matrix")
    src = Tensor("np", v.dims, v.f)
    n = v.dims[0].size()
    if isnum(n):
        return py(mul(*[numterm(src.get(num(i))) for i in range(int(n.data))]))
    b, body = CTX.bound(n, lambda q: numterm(src.get(q)))
    return py(app("PROD", (ZERO, n, lam(b, body)), "I" if body.sort == "I" else "R"))


def np_argext(I, a, sign):
    v = nparray(I, I.force(a[0]))
    if v.rank != 1:
        raise Unsupported("argmax of a matrix")
    if sign > 0:
        return tensor_method(I, v, "argmax", [], {})
    n = v.dims[0].size()
    k, b = CTX.bound(n, lambda k: numterm(v.get(k)))
    if not CTX.suppress:
        CTX.oblige("argmin of a non-empty array", gt(n, 0))
    return py(app("ARGMIN", (n, lam(k, b)), "I"))


def np_flip(I, a, k):
    v = nparray(I, I.force(a[0]))
    if v.rank != 1:
        raise Unsupported("flip of a matrix")
    return view_of(I.force(a[0]), getitem(I, Tensor("np", v.dims, v.f), Slice(None, None, -1))) if isinstance(I.force(a[0]), Tensor) else getitem(I, v, Slice(None, None, -1))


def np_where(I, a, k):
    if len(a) != 3:
        raise Unsupported("np.where with one argument")
    vs = [I.force(x) for x in a]
    vs = [nparray(I, x) if isinstance(x, (PList, tuple)) else x for x in vs]
    f = lambda c, x, y: ite(boolterm(c), numterm(x), numterm(y))
    if not any(isinstance(x, Tensor) for x in vs):
        return py(f(*vs))
    return tmap(f, *vs)


def do_sorted(I, a, k):
    it = to_list(I, a)
    r = sorted_list(I, it if isinstance(it, PList) else nparray(I, it), k)
    return r


def do_map(I, a, k):
    if len(a) != 2:
        raise Unsupported("map over several sequences")
    f = a[0]
    it = I.iter_of(I.force(a[1]))
    if isinstance(it, list):
        return PList([I.call(f, [x], {}) for x in it])
    return I.snippet("[f(x) for x in v]", f=f, v=it)


def hook_call(I, name, a, k):
    """external component supplied by the scenario"""
    if name not in I.hooks:
        raise Unsupported("call of the external component " + name)
    return I.hooks[name](I, a, k)


def opaque_time(I, a, kw):
    return Opaque("time")


TABLE = {
    "len": lambda I, a, k: length(I, a[0]),
    "range": lambda I, a, k: do_range(I, a),
    "divmod": lambda I, a, k: (binop(I, "FloorDiv", a[0], a[1]), binop(I, "Mod", a[0], a[1])),
    "slice": lambda I, a, k: Slice(*([None, a[0], None] if len(a) == 1 else list(a) + [None] * (3 - len(a)))),
    "enumerate": lambda I, a, k: Once(do_enumerate(I, a, k)),
    "zip": lambda I, a, k: Once(do_zip(I, a)),
    "sum": do_sum,
    "max": lambda I, a, k: py_max(I, a, 1, **k),
    "min": lambda I, a, k: py_max(I, a, -1, **k),
    "abs": lambda I, a, k: lift(absv, I.force(a[0])),
    "int": lambda I, a, k: to_int(I, a[0]),
    "float": lambda I, a, k: I.force(a[0]),
    "bool": lambda I, a, k: I.truth(a[0]),
    "round": lambda I, a, k: Opaque("time"),
    "print": lambda I, a, k: None,
    "str": lambda I, a, k: Opaque("fstring"),
    "list": lambda I, a, k: to_list(I, a),
    "tuple": lambda I, a, k: (lambda l: tuple(l.items()) if isinstance(l, PList) and l.concrete() else PList(pieces=l.v, tup=True))(to_list(I, a)),
    "set": lambda I, a, k: do_set(I, a),
    "frozenset": lambda I, a, k: do_set(I, a),
    "dict": lambda I, a, k: do_dict(I, a, k),
    "hasattr": lambda I, a, k: hasattr_(I, a[0], a[1]),
    "getattr": lambda I, a, k: getattr_fn(I, a),
    "isinstance": lambda I, a, k: isinst(I, a[0], a[1]),
    "any": lambda I, a, k: any_all(I, a, "any"),
    "all": lambda I, a, k: any_all(I, a, "all"),
    "reversed": lambda I, a, k: Once(getitem(I, to_list(I, a), Slice(None, None, -1))),
    "np.array": np_array,
    "np.asarray": lambda I, a, kw: I.force(a[0]) if isinstance(I.force(a[0]), Tensor) and I.force(a[0]).kind == "np" and not kw else np_array(I, a, kw),
    "np.zeros": lambda I, a, k: filled(I, a[0], a[1] if len(a) > 1 else k.get("dtype"), ZERO),
    "np.ones": lambda I, a, k: filled(I, a[0], a[1] if len(a) > 1 else k.get("dtype"), ONE),
    "np.zeros_like": lambda I, a, k: filled_like(I, a[0], k.get("dtype"), ZERO),
    "np.ones_like": lambda I, a, k: filled_like(I, a[0], k.get("dtype"), ONE),
    "np.full": np_full,
    "np.minimum": elementwise(pick_min, 2),
    "np.maximum": elementwise(pick_max, 2),
    "np.logical_and": elementwise(lambda x, y: and_(boolterm(x), boolterm(y)), 2, boolterm),
    "np.logical_or": elementwise(lambda x, y: or_(boolterm(x), boolterm(y)), 2, boolterm),
    "np.logical_not": elementwise(lambda x: not_(boolterm(x)), 1, boolterm),
    "np.add": elementwise(lambda x, y: add(x, y), 2),
    "np.subtract": elementwise(lambda x, y: sub(x, y), 2),
    "np.multiply": elementwise(lambda x, y: mul(x, y), 2),
    "np.negative": elementwise(lambda x: neg(x), 1),
    "np.square": elementwise(lambda x: mul(x, x), 1),
    "np.divide": lambda I, a, k: binop(I, "Div", a[0], a[1]),
    "np.clip": np_clip,
    "np.diff": np_diff,
    "np.arange": np_arange,
    "np.prod": np_prod,
    "np.argmax": lambda I, a, k: np_argext(I, a, 1),
    "np.argmin": lambda I, a, k: np_argext(I, a, -1),
    "np.flip": np_flip,
    "np.where": np_where,
    "sorted": do_sorted,
    "map": lambda I, a, k: Once(do_map(I, a, k)),
    "np.eye": lambda I, a, k: ca_eye(I, a, k, "np"),
    "np.append": np_append,
    "np.cumsum": np_cumsum,
    "np.linspace": np_linspace,
    "np.concatenate": np_concatenate,
    "np.repeat": np_repeat,
    "np.tile": np_tile,
    "np.dot": lambda I, a, k: np_dot(I, I.force(a[0]), I.force(a[1])),
    "np.matmul": lambda I, a, k: np_dot(I, I.force(a[0]), I.force(a[1])),
    "np.vstack": np_vstack,
    "np.hstack": np_hstack,
    "np.sort": np_sort,
    "np.abs": lambda I, a, k: lift(absv, I.force(a[0])),
    "np.absolute": lambda I, a, k: lift(absv, I.force(a[0])),
    "np.sum": lambda I, a, k: tensor_method(I, nparray(I, I.force(a[0])), "sum", a[1:], k),
    "np.max": lambda I, a, k: tensor_method(I, nparray(I, I.force(a[0])), "max", a[1:], k),
    "np.amax": lambda I, a, k: tensor_method(I, nparray(I, I.force(a[0])), "max", a[1:], k),
    "np.min": lambda I, a, k: tensor_method(I, nparray(I, I.force(a[0])), "min", a[1:], k),
    "np.amin": lambda I, a, k: tensor_method(I, nparray(I, I.force(a[0])), "min", a[1:], k),
    "np.any": lambda I, a, k: tensor_method(I, nparray(I, I.force(a[0])), "any", a[1:], k),
    "np.all": lambda I, a, k: tensor_method(I, nparray(I, I.force(a[0])), "all", a[1:], k),
    "np.isfinite": lambda I, a, k: lift(lambda t: and_(lt(neg(INF), t), lt(t, INF)), num_or_array(I, a[0])),
    "np.isinf": lambda I, a, k: lift(lambda t: or_(eq(t, neg(INF)), eq(t, INF)), num_or_array(I, a[0])),
    "math.isfinite": lambda I, a, k: lift(lambda t: and_(lt(neg(INF), t), lt(t, INF)), I.force(a[0])),
    "math.isinf": lambda I, a, k: lift(lambda t: or_(eq(t, neg(INF)), eq(t, INF)), I.force(a[0])),
    "np.transpose": lambda I, a, k: transpose(nparray(I, I.force(a[0]))),
    "np.mod": lambda I, a, k: binop(I, "Mod", a[0], a[1]),
    "np.cos": lambda I, a, k: lift(lambda t: app("cos", (t,), "R"), I.force(a[0])),
    "math.cos": lambda I, a, k: lift(lambda t: app("cos", (t,), "R"), I.force(a[0])),
    "np.sqrt": lambda I, a, k: lift(lambda t: app("sqrt", (t,), "R"), I.force(a[0])),
    "np.linalg.norm": np_norm,
    "np.poly1d": np_poly1d,
    "np.polyder": np_polyder,
    "np.polyint": np_polyint,
    "np.mean": np_mean,
    "ca.SX.sym": sx_sym,
    "ca.DM.zeros": ca_zeros,
    "ca.DM.ones": lambda I, a, k: ca_zeros(I, a, k, ONE),
    "ca.SX.zeros": lambda I, a, k: ca_zeros(I, a, k, ZERO, "SX"),
    "ca.DM.eye": ca_eye,
    "ca.DM": lambda I, a, k: (lambda m: m)(as_ca(I, I.force(a[0]))) if not (scalar(a[0])) else term(a[0]),
    "ca.SX": lambda I, a, k: (lambda m: Tensor("SX", m.dims, m.f))(as_ca(I, I.force(a[0]))) if not scalar(a[0]) else term(a[0]),
    "ca.diag": ca_diag,
    "ca.solve": ca_solve,
    "ca.kron": ca_kron,
    "ca.mtimes": lambda I, a, k: mtimes(I, I.force(a[0]), I.force(a[1])),
    "ca.vertcat": lambda I, a, k: vertcat(I, a),
    "ca.vec": lambda I, a, k: flatten(as_ca(I, a[0])),
    "ca.sum1": lambda I, a, k: (lambda m: Tensor(m.kind, (DL(1), m.dims[1]), lambda i, j: red1("SUM", m.dims[0], lambda s: Tensor(m.kind, m.dims, m.f).at(s, j))))(as_ca(I, a[0])),
    "ca.Function": ca_function,
    "ca.gradient": ca_gradient,
    "ca.integrator": ca_integrator,
    "ca.transpose": lambda I, a, k: transpose(as_ca(I, a[0])),
    "copy.deepcopy": lambda I, a, k: deepcopy(I, I.force(a[0])),
    "copy.copy": lambda I, a, k: shallow_copy(I, I.force(a[0])),
    "time.monotonic": opaque_time,
    "ca.nlpsol": lambda I, a, k: hook_call(I, "nlpsol", a, k),
    "time.time": opaque_time,
    "itertools.groupby": lambda I, a, k: Once(groupby(I, a, k)),
    "itertools.accumulate": lambda I, a, k: Once(accumulate(I, a, k)),
    "itertools.chain": lambda I, a, k: Once(chain(I, a, k)),
    "itertools.chain.from_iterable": lambda I, a, k: Once(concat_all(I, a[0])),
    "scipy.special.j_roots": lambda I, a, k: jroots(I, a),
    "scipy.special.roots_jacobi": lambda I, a, k: jroots(I, a),
    "np.polynomial.legendre.leggauss": lambda I, a, k: leggauss(I, a),
}


def jroots(I, a):
    n = term(I.force(a[0]))
    al, be = term(a[1]), term(a[2])
    if not CTX.suppress:
        CTX.oblige("j_roots needs n >= 1", ge(n, 1))
    r = Tensor("np", (DL(n),), lambda i: app("JROOT", (n, al, be, flat_of(DL(n), i)), "R"))
    w = Tensor("np", (DL(n),), lambda i: app("JWEIGHT", (n, al, be, flat_of(DL(n), i)), "R"))
    return (r, w)


def leggauss(I, a):
    n = term(I.force(a[0]))
    r = Tensor("np", (DL(n),), lambda i: app("LGROOT", (n, flat_of(DL(n), i)), "R"))
    return (r, r)


def do_set(I, a):
    if not a:
        return PList([])
    v = to_list(I, a)
    if isinstance(v, SymSet):
        return v
    if v.concrete():
        out = []
        for x in v.items():
            x = dkey(x)
            if isinstance(x, Term):
                return SymSet(v)
            if x not in out:
                out.append(x)
        return PList(out)
    return SymSet(v)


def do_dict(I, a, k):
    d = {}
    if a:
        s = I.force(a[0])
        if isinstance(s, PDict):
            if not isinstance(s.v, dict):
                n = PDict({})
                n.d["v"] = s.v
                return n
            d.update(s.v)
        else:
            it = I.iter_of(s)
            if not isinstance(it, list):
                raise Unsupported("dict of a symbolic sequence")
            for x in it:
                kk, vv = I.unpack(x, 2)
                d[dkey(kk)] = vv
    d.update(k)
    return PDict(d)
