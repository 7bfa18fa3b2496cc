"""Order preserving selections, sorted rearrangements and extrema as terms over a predicate or
sequence lam: their defining facts (available to every proof).

  NSEL(n,c)    number of i<n with c(i)          FSEL(n,c,e)  the e-th such i
  FINV(n,c,i)  rank of a selected i
  SORTED(n,v,i), PERM(n,v,i)  i-th smallest value and its original index
  MAXV/MINV(n,v), ARGMAX(n,v) extremum and the first index attaining it
  NGRP(n,c), GSTART(n,c,g)  number of maximal runs of equal c, start of the g-th run (n for g = NGRP)
  FIRST(n,c)   first i with c(i) (0 when there is none, as numpy's argmax of booleans)
"""
from .terms import *
from . import terms as T
from .solve import BASE


def nsel(n, l):
    return app("NSEL", (n, l), "I")


def fsel(n, l, e):
    return app("FSEL", (n, l, e), "I")


def finv(n, l, i):
    return app("FINV", (n, l, i), "I")


def _s_nsel(a, sort):
    b = a[1].args[0]
    if b is TRUE:
        return app("max0", (a[0],), "I")
    if b is FALSE or is_num(a[0], 0):
        return ZERO
    return None


def _s_fsel(a, sort):
    return a[2] if a[1].args[0] is TRUE else None


T.SIMP["NSEL"] = _s_nsel
T.SIMP["FSEL"] = T.SIMP["FINV"] = _s_fsel


def _nsel(a, t):
    n, l = a
    return [le(0, t), or_(le(t, n), lt(n, 0)), T.FORALL(ZERO, n, lambda i: or_(not_(inst(l, i)), lt(0, t)))]


def _fsel(a, t):
    n, l, e = a
    return [implies(and_(le(0, e), lt(e, nsel(n, l))), and_(le(0, t), lt(t, n), inst(l, t), eq(finv(n, l, t), e)))]


def _finv(a, t):
    n, l, i = a
    return [implies(and_(le(0, i), lt(i, n), inst(l, i)), and_(le(0, t), lt(t, nsel(n, l)), eq(fsel(n, l, t), i)))]


def _mono(x, y):
    if x.args[0] is not y.args[0] or x.args[1] is not y.args[1]:
        return []
    m = nsel(x.args[0], x.args[1])
    a, b = x.args[2], y.args[2]
    return [implies(eq(a, b), eq(x, y)), implies(and_(le(0, a), lt(a, b), lt(b, m)), lt(x, y))]


def _func(x, y):
    if x.args[0] is not y.args[0] or x.args[1] is not y.args[1]:
        return []
    return [implies(eq(x.args[2], y.args[2]), eq(x, y))]


BASE.on("NSEL", _nsel)
BASE.on("FSEL", _fsel)
BASE.on("FINV", _finv)
BASE.on_pair("FSEL", _mono)
BASE.on_pair("FINV", _func)


def _sorted(a, t):
    n, l, i = a
    p = app("PERM", a, "I")
    return [implies(and_(le(0, i), lt(i, n)), and_(le(0, p), lt(p, n), eq(t, inst(l, p))))]


def _smono(x, y):
    if x.args[0] is not y.args[0] or x.args[1] is not y.args[1]:
        return []
    n, l = x.args[:2]
    i, j = x.args[2], y.args[2]
    px, py = app("PERM", x.args, "I"), app("PERM", y.args, "I")
    return [implies(eq(i, j), eq(x, y)), implies(and_(le(0, i), le(i, j), lt(j, n)), le(x, y)),
            implies(and_(le(0, i), lt(i, j), lt(j, n)), ne(px, py))]


BASE.on("SORTED", _sorted)
BASE.on_pair("SORTED", _smono)
BASE.on("PERM", lambda a, t: [implies(and_(le(0, a[2]), lt(a[2], a[0])), and_(le(0, t), lt(t, a[0])))])


def _perm(x, y):
    if x.args[0] is not y.args[0] or x.args[1] is not y.args[1]:
        return []
    n, l, i = x.args
    j = y.args[2]
    return [implies(eq(i, j), eq(x, y)), implies(and_(le(0, i), lt(i, j), lt(j, n)), and_(ne(x, y), le(inst(l, x), inst(l, y)))),
            implies(and_(le(0, j), lt(j, i), lt(i, n)), and_(ne(x, y), le(inst(l, y), inst(l, x))))]


BASE.on_pair("PERM", _perm)


def _ext(sign):
    def fn(a, t, rnd):
        if rnd > 0:
            return []
        n, l = a
        w = app("ARGMAX" if sign > 0 else "ARGMIN", (n, l), "I")
        dom = (lambda x: le(x, t)) if sign > 0 else (lambda x: le(t, x))
        return [implies(lt(0, n), and_(le(0, w), lt(w, n), eq(t, inst(l, w)))), T.FORALL(ZERO, n, lambda i: dom(inst(l, i)))]
    return fn


def _arg(sign):
    def fn(a, t):
        n, l = a
        m = app("MAXV" if sign > 0 else "MINV", (n, l), "R")
        return [implies(lt(0, n), and_(le(0, t), lt(t, n), eq(m, inst(l, t)))), T.FORALL(ZERO, t, lambda i: (lt(inst(l, i), m) if sign > 0 else lt(m, inst(l, i))))]
    return fn


BASE.on("MAXV", _ext(1))
BASE.on("MINV", _ext(-1))
BASE.on("ARGMAX", _arg(1))
BASE.on("ARGMIN", _arg(-1))


def first(n, l):
    return app("FIRST", (n, l), "I")


def _first(a, t):
    n, l = a
    ex = T.EXISTS(ZERO, n, lambda i: inst(l, i))
    return [le(0, t), or_(lt(t, n), eq(t, 0)), T.FORALL(ZERO, t, lambda i: not_(inst(l, i))),
            T.FORALL(ZERO, n, lambda i: or_(not_(inst(l, i)), and_(inst(l, t), le(t, i)))), or_(eq(t, 0), inst(l, t))]


BASE.on("FIRST", _first)


BASE.on("SUM", lambda a, t: [implies(le(a[1], a[0]), eq(t, 0))])
BASE.on("abs", lambda a, t: [le(0, t), or_(eq(t, a[0]), eq(t, neg(a[0]))), le(a[0], t)])


def ngroups(n, l):
    return app("NGRP", (n, l), "I")


def gstart(n, l, g):
    return app("GSTART", (n, l, g), "I")


def _s_gstart(a, sort):
    if is_num(a[2], 0):
        return ZERO
    if a[2] is ngroups(a[0], a[1]):
        return a[0]
    return None


T.SIMP["GSTART"] = _s_gstart


def iff(a, b):
    return and_(implies(a, b), implies(b, a))


def _gstart(a, t):
    n, l, g = a
    G, nx = ngroups(n, l), gstart(n, l, add(g, 1))
    same = T.FORALL(t, nx, lambda j: iff(inst(l, j), inst(l, t)))
    return [implies(and_(le(0, g), lt(g, G)), and_(le(0, t), lt(t, n), lt(t, nx), le(nx, n), same)),
            implies(eq(g, G), eq(t, n)), implies(eq(g, 0), eq(t, 0)),
            implies(and_(le(0, g), lt(add(g, 1), G)), not_(iff(inst(l, nx), inst(l, t))))]


def _gmono(x, y):
    if x.args[0] is not y.args[0] or x.args[1] is not y.args[1]:
        return []
    G = ngroups(x.args[0], x.args[1])
    g, h = x.args[2], y.args[2]
    return [implies(eq(g, h), eq(x, y)), implies(and_(le(0, g), lt(g, h), le(h, G)), lt(x, y)), implies(and_(le(0, h), lt(h, g), le(g, G)), lt(y, x))]


BASE.on("NGRP", lambda a, t: [implies(lt(0, a[0]), and_(le(1, t), le(t, a[0]))), implies(le(a[0], 0), eq(t, 0))])
BASE.on("GSTART", _gstart)
BASE.on_pair("GSTART", _gmono)
