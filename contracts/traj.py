"""Evaluation of casadi functions of the decision vector (C13, C17, C18).

For a function whose first input is the optimizer's decision vector Z, evaluated at a vector x,
every decision symbol takes the value of x at the symbol's position in Z (C10: each symbol has
exactly one).  V.x(q,k,i), V.u, V.t0, V.tf, V.a (and V.h for the adaptive method) name these
values; the second input, when it is the vector of all segment widths, gives the widths."""
from pyvc.verify import *
from pyvc import lib
from .colloc import P, pk, T0, T1, Con, tau, NS
from .nlp import *


def symbols(v):
    """names of the decision symbols of an optimizer (View) -> names of their values"""
    i = fresh("ix", "I")
    out = {"TG": "V.t"}
    CTX.suppress += 1
    try:
        for t, nm in ((v.X(i, i, i), "V.x"), (v.U(i, i, i), "V.u"), (v.t0(i), "V.t0"), (v.tf(i), "V.tf"), (v.w(i, i), "V.h")):
            out[t.data] = nm
        t = v.A(i, i)
    finally:
        CTX.suppress -= 1
    if t.op == "app":
        out[t.data] = "V.a"
    if any(not h.startswith("SYM.") for h in out if h != "TG"):
        raise Unsupported("decision symbols")
    return out


def valued(t, wid, names):
    """replace decision symbols by their values"""
    def fn(head, args, sort):
        if head in names:
            if names[head] == "V.h" and wid is not None:
                return wid(args[0], args[1])
            return app(names[head], args, "R")
        return None
    return map_apps(t, fn)


def eval_hook(u, s, Z, xs, adaptive=False):
    names = symbols(View(u, s))

    def h(I, f, a, kw):
        if kw or len(a) != len(f.ins):
            raise Unsupported("call of a casadi function with other arguments")
        CTX.oblige("the function is one of the decision vector, evaluated at the solution", TRUE if f.ins[0] is Z and I.force(a[0]) is xs else FALSE)
        wid = None
        if len(f.ins) > 1:
            src, val = f.ins[1], I.force(a[1])
            k, q = fresh("ix", "I"), fresh("ix", "I")
            sw = I.getattr(s, "seg_widths")
            pos = lambda k, q: add(mul(q, NS), k)
            npz = sw.dims[1].size()
            CTX.oblige("widths of all segments of all phases", eq(lib.length(I, val), mul(NS, npz)))
            if not adaptive:
                with CTX.under(le(0, k), lt(k, NS), le(0, q), lt(q, npz)):
                    row = src.rank == 2 and lib.one(src.dims[0])
                    one = src.get(pos(k, q)) if src.rank == 1 else src.get(ZERO, pos(k, q)) if row else src.get(pos(k, q), ZERO)
                    CTX.oblige("second input: the widths, segment by segment in phase order", eq(one, sw.get(k, q)))
                wid = lambda k, q: term(lib.getitem(I, val, pos(k, q)))
        outs = []
        for o in f.outs:
            if isinstance(o, Tensor):
                outs.append(Tensor("DM", o.dims, lambda *ix, o=o: valued(numterm(o.at(*ix)), wid, names)))
            else:
                outs.append(valued(term(o), wid, names))
        return outs[0] if len(outs) == 1 else tuple(outs)
    return h


def numterm(x):
    return term(x)
