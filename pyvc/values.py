"""Symbolic values manipulated by the interpreter."""
from fractions import Fraction
from .terms import *
from . import terms as T


class Unsupported(Exception):
    """construct outside the verifier's reach"""


class PyRaise(Exception):
    def __init__(self, kind, node=None):
        self.kind = kind
        self.node = node
        Exception.__init__(self, kind)


# ------------------------------------------------------------------ context
class Ctx:
    """ambient proof context: hypotheses, prover, obligations"""

    def __init__(self):
        self.hyps = []
        self.prover = None
        self.serial = 0
        self.birth = {}          # iteration variable -> serial number of the newest object older than it
        self.trail = []
        self.generators = []
        self.depth = 0
        self.obligations = None      # list collecting (name, ok, detail)
        self.decide_cache = {}
        self.where = ""
        self.lazy = 0
        self.loopvars = set()
        self.suppress = 0
        self.obl_cache = {}
        self.on_oblige = None

    def oblige(self, kind, goal):
        """record a proof obligation"""
        if isinstance(goal, bool):
            goal = TRUE if goal else FALSE
        if self.suppress:
            return None
        if self.on_oblige is None:
            return self.holds(goal)
        return self.on_oblige(kind, goal)

    def next(self):
        self.serial += 1
        return self.serial

    def decide(self, c):
        if c is TRUE or c is True:
            return True
        if c is FALSE or c is False:
            return False
        key = (c, tuple(self.hyps))
        if key in self.decide_cache:
            return self.decide_cache[key]
        r = None
        if self.prover.cheap(c, self.hyps):
            r = True
        elif self.prover.cheap(not_(c), self.hyps):
            r = False
        elif self.prover.quick(c, self.hyps):
            r = True
        elif self.prover.quick(not_(c), self.hyps):
            r = False
        self.decide_cache[key] = r
        return r

    def holds(self, c):
        if c is TRUE or c is True:
            return True
        if c is FALSE or c is False:
            return False
        return self.prover.cheap(c, self.hyps) or bool(self.prover.quick(c, self.hyps))

    def set(self, cont, key, val):
        """logged write cont.d[key] = val"""
        if cont.borrowed:
            raise Unsupported("in-place change of an element of a symbolic list")
        if key == "f" and cont.views:
            for v in list(cont.views):
                self.note(v, "stale", True)
        d = cont.d
        self.trail.append((cont, key, d.get(key, _MISSING)))
        d[key] = val

    def note(self, cont, key, val):
        self.trail.append((cont, key, cont.d.get(key, _MISSING)))
        cont.d[key] = val

    def undo(self, mark):
        tr = self.trail
        while len(tr) > mark:
            cont, key, old = tr.pop()
            if old is _MISSING:
                cont.d.pop(key, None)
            else:
                cont.d[key] = old

    def under(self, *conds):
        return _Under(self, conds)

    def bound(self, n, f, prefix="b"):
        """evaluate f(v) for a generic 0<=v<n; returns lambda term pieces (v, f(v))"""
        self.depth += 1
        v = var("%s@%d" % (prefix, self.depth), "I")
        m = len(self.hyps)
        self.hyps.append(le(0, v))
        self.hyps.append(lt(v, n))
        try:
            return v, f(v)
        finally:
            del self.hyps[m:]
            self.depth -= 1


class _Missing:
    def __repr__(self):
        return "<missing>"


_MISSING = _Missing()


class _Under:
    def __init__(self, ctx, conds):
        self.ctx, self.conds = ctx, conds

    def __enter__(self):
        self.m = len(self.ctx.hyps)
        self.ctx.hyps.extend(c for c in self.conds if c is not TRUE)

    def __exit__(self, *a):
        del self.ctx.hyps[self.m:]


CTX = Ctx()


def SUMc(n, f):
    """SUM_{v<n} f(v) evaluated under 0<=v<n"""
    n = num(n)
    if n.op == "num" and n.data <= T.EXPAND:
        return add(*[f(num(i)) for i in range(int(n.data))])
    v, b = CTX.bound(n, f)
    return app("SUM", (ZERO, n, lam(v, b)), "I" if b.sort == "I" else "R")


def vecc(n, f):
    n = num(n)
    if is_num(n, 0):
        return vec(0, None)
    v, b = CTX.bound(n, f)
    return T._mk("app", (n, lam(v, b)), "vec", "V")


def FORALLc(n, f):
    n = num(n)
    if n.op == "num" and n.data <= T.EXPAND:
        return and_(*[f(num(i)) for i in range(int(n.data))])
    v, b = CTX.bound(n, f)
    return app("FORALL", (ZERO, n, lam(v, b)), "B")


def EXISTSc(n, f):
    return not_(FORALLc(n, lambda v: not_(f(v))))


# ---------------------------------------------------------------- dimensions
class DL:
    def __init__(self, n):
        self.n = num(n)

    def size(self):
        return self.n


class DC:
    def __init__(self, parts):
        self.parts = parts

    def size(self):
        return add(*[p.size() for p in self.parts])


_pieces = [0]


def opaque_piece(d, e, subst, sz, k):
    """analysis pass of a loop: some piece and local position"""
    _pieces[0] += 1
    b, r = app("PIECE#%d" % _pieces[0], (e,), "I"), app("LOCAL#%d" % _pieces[0], (e,), "I")
    CTX.hyps.extend([le(0, b), lt(b, d.n), le(0, r), lt(r, subst(sz, {k: b}))])
    return ("b", b, locate(d.g(b), r))


class DB:
    def __init__(self, n, g):
        self.n, self.g = num(n), g

    def size(self):
        return SUMc(self.n, lambda k: self.g(k).size())


def mkDC(parts):
    """returns (dim, remap) dropping empty pieces and nested concatenations"""
    return DC(parts)


def dim_one(d):
    s = d.size()
    return is_num(s, 1)


def locate(d, e):
    """structured index of flat position e in dimension d"""
    e = num(e)
    if isinstance(d, DL):
        return e
    if isinstance(d, DC):
        off = ZERO
        for p, x in enumerate(d.parts):
            s = x.size()
            c = lt(e, add(off, s))
            r = True if p == len(d.parts) - 1 else CTX.decide(c)
            if r is True:
                return ("c", p, locate(x, sub(e, off)))
            if r is None:
                with CTX.under(c):
                    a = ("c", p, locate(x, sub(e, off)))
                with CTX.under(not_(c)):
                    b = locate_rest(d, p + 1, add(off, s), e)
                return ("alt", c, a, b)
            off = add(off, s)
        raise Unsupported("index beyond concatenation")
    if isinstance(d, DB):
        k = fresh("u", "I")
        with CTX.under(le(0, k), lt(k, d.n)):
            sz = d.g(k).size()
        if k not in fv(sz):
            # uniform pieces: e = q*sz + r
            if is_num(sz, 1):
                return ("b", e, locate(d.g(e), ZERO))
            q, r = divide(e, sz)
            if q is not None and CTX.holds(and_(le(0, r), lt(r, sz))):
                return ("b", q, locate(d.g(q), r))
            if is_num(d.n, 1):
                return ("b", ZERO, locate(d.g(ZERO), e))
            q = app("floordiv", (e, sz), "I")
            r = app("mod", (e, sz), "I")
            return ("b", q, locate(d.g(q), r))
        # non uniform: look for a prefix sum inside e
        if CTX.suppress and any(x.data.startswith("ph") for x in fv(e)):
            return opaque_piece(d, e, subst, sz, k)
        tot = lambda i: app("SUM", (ZERO, i, lam(k, sz)), "I")
        for m, c in T._pd(e).items():
            if len(m) == 1 and m[0][1] == 1 and c == 1 and m[0][0].op == "app" and m[0][0].data == "SUM":
                s = m[0][0]
                if is_num(s.args[0], 0):
                    i = s.args[1]
                    if tot(i) is s or CTX.holds(eq(tot(i), s)):
                        r = sub(e, s)
                        if CTX.holds(and_(le(0, r), lt(r, subst(sz, {k: i})))):
                            return ("b", i, locate(d.g(i), r))
                        # last point of the previous piece
        for i in (ZERO,):
            if CTX.holds(and_(le(0, e), lt(e, subst(sz, {k: ZERO})))):
                return ("b", ZERO, locate(d.g(ZERO), e))
        if CTX.suppress:
            return opaque_piece(d, e, subst, sz, k)
        raise Unsupported("position %s in concatenation of symbolic pieces" % show(e))
    raise Unsupported("dim")


def locate_rest(d, p, off, e):
    for q in range(p, len(d.parts)):
        x = d.parts[q]
        s = x.size()
        if q == len(d.parts) - 1:
            return ("c", q, locate(x, sub(e, off)))
        c = lt(e, add(off, s))
        r = CTX.decide(c)
        if r is True:
            return ("c", q, locate(x, sub(e, off)))
        if r is False:
            off = add(off, s)
            continue
        with CTX.under(c):
            a = ("c", q, locate(x, sub(e, off)))
        with CTX.under(not_(c)):
            b = locate_rest(d, q + 1, add(off, s), e)
        return ("alt", c, a, b)
    raise Unsupported("index beyond concatenation")


def divide(e, m):
    """syntactic division of e by monomial m: e = q*m + r"""
    dm = T._pd(m)
    if len(dm) != 1:
        return None, None
    (mm, mc), = dm.items()
    q, r = {}, {}
    for mo, c in T._pd(e).items():
        dd = dict(mo)
        ok = True
        for a, x in mm:
            if dd.get(a, 0) >= x:
                dd[a] -= x
            else:
                ok = False
                break
        if ok and (c / mc).denominator == 1 and (mm or True) and (mm != () or c % mc == 0):
            mo2 = tuple(sorted(((a, x) for a, x in dd.items() if x), key=lambda ax: ax[0].id))
            q[mo2] = q.get(mo2, 0) + c / mc
        else:
            r[mo] = c
    return mk_poly(q), mk_poly(r)


def flat_of(d, s):
    """flat position of structured index s in dimension d"""
    if isinstance(d, DL):
        return s
    if isinstance(d, DC):
        _, p, x = s
        return add(*([y.size() for y in d.parts[:p]] + [flat_of(d.parts[p], x)]))
    _, k, x = s
    v = fresh("u", "I")
    with CTX.under(le(0, v), lt(v, d.n)):
        sz = d.g(v).size()
    if v not in fv(sz):
        return add(mul(k, sz), flat_of(d.g(k), x))
    return add(app("SUM", (ZERO, k, lam(v, sz)), "I"), flat_of(d.g(k), x))


# ------------------------------------------------------------------- objects
class Obj:
    views = None                  # arrays sharing its memory
    borrowed = False              # a value read from a symbolic list: changing it would not change the list

    def __init__(self):
        self.serial = CTX.next()
        self.d = {}


class Tensor(Obj):
    """numpy array / casadi matrix.  content: dims, f(structured indices) -> Term"""
    whole = False                 # integer array: stored values are truncated
    base = None                   # of a view

    def __init__(self, kind, dims, f, diag=None, keye=None, view=False, tag=None, elem=None):
        Obj.__init__(self)
        self.kind = kind
        self.d["dims"] = tuple(dims)
        self.d["f"] = f
        self.diag = diag          # for diagonal matrices: i -> Term
        self.keye = keye          # (m, Tensor) for kron(eye(m), D)
        self.view = view
        self.tag = tag
        self.elem = elem          # 'B' for boolean arrays, 'O' for object arrays

    @property
    def dims(self):
        return self.d["dims"]

    @property
    def f(self):
        return self.d["f"]

    @property
    def rank(self):
        return len(self.dims)

    def shape(self):
        return tuple(x.size() for x in self.dims)

    def get(self, *idx):
        """flat indices"""
        return self.at(*[locate(d, i) for d, i in zip(self.dims, idx)])

    def at(self, *s):
        # expand alternatives
        for p, x in enumerate(s):
            if isinstance(x, tuple) and has_alt(x):
                c, a, b = split_alt(x)
                s1 = s[:p] + (a,) + s[p + 1:]
                s2 = s[:p] + (b,) + s[p + 1:]
                with CTX.under(c):
                    va = self.at(*s1)
                with CTX.under(not_(c)):
                    vb = self.at(*s2)
                return absorbed(c, va, vb) or vite(c, va, vb)
        return self.f(*s)

    def __repr__(self):
        return "<%s %s>" % (self.kind, "x".join(show(x) for x in self.shape()))


def absorbed(c, a, b):
    """b when it also gives a on the single integer where c holds (c: v <= m with m <= v known)"""
    if not (isinstance(a, Term) and isinstance(b, Term)) or c.op != "le0":
        return None
    e = c.args[0]
    for mono, co in T._pd(e).items():
        if co != 1 or len(mono) != 1 or mono[0][1] != 1 or mono[0][0].sort != "I":
            continue
        v = mono[0][0]
        m = sub(v, e)
        if isnum(m) and subst(b, {v: m}) is a and CTX.holds(le(m, v)):
            return b
    return None


def has_alt(x):
    if isinstance(x, tuple):
        if x[0] == "alt":
            return True
        return has_alt(x[-1])
    return False


def split_alt(x):
    if x[0] == "alt":
        return x[1], x[2], x[3]
    c, a, b = split_alt(x[-1])
    return c, x[:-1] + (a,), x[:-1] + (b,)


class Fresh:
    """the elements of a list piece are distinct objects that only this list holds"""
    __slots__ = ("owner", "shared")

    def __init__(self, owner):
        self.owner, self.shared = owner, False


def share(v):
    """another list now holds the elements of these pieces"""
    for p in v:
        if p[0] == "r" and p[3]:
            p[3].shared = True


def escape(x, home=None, top=True):
    """x becomes part of another value: the list it is an element of no longer owns it (home: unless
    it is this list and this index).  True when some such list was found"""
    found = False
    if isinstance(x, tuple):
        for y in x:
            found |= escape(y, None, top)
    elif isinstance(x, Union):
        for c, y in x.alts:
            found |= escape(y, home, top)
    elif isinstance(x, Obj):
        org = getattr(x, "origin", None)
        if org is not None and top and not (home and org[0] is home[0] and CTX.holds(eq(num(org[1]), num(home[1])))):
            found = True
            while org is not None:
                if isinstance(org[0], PList):
                    share(org[0].v)
                org = getattr(org[0], "origin", None)
        if isinstance(x, PList):
            for p in x.v:
                if p[0] == "i":
                    y = p[1]
                    own = getattr(y, "origin", (None,))[0] is x
                    found |= escape(y, None, not own)
        elif isinstance(x, PDict) and isinstance(x.v, dict):
            for y in x.v.values():
                own = getattr(y, "origin", (None,))[0] is x
                found |= escape(y, None, not own)
    return found


class PList(Obj):
    """python list; content v = tuple of pieces ('i', value) | ('r', n, fn k -> value, fresh)
    fresh: fn yields a distinct mutable object for each k (comprehension)"""

    def __init__(self, items=None, n=None, fn=None, fresh=False, pieces=None, tup=False):
        Obj.__init__(self)
        self.tup = tup
        if pieces is not None:
            self.d["v"] = tuple(pieces)
            share(self.d["v"])
        elif items is not None:
            self.d["v"] = tuple(("i", x) for x in items)
        else:
            self.d["v"] = (("r", num(n), fn, Fresh(self) if fresh else False),)

    @property
    def v(self):
        return self.d["v"]

    def concrete(self):
        return all(p[0] == "i" for p in self.v)

    def items(self):
        return [p[1] for p in self.v]

    def length(self):
        return plen(self.v)

    def item(self, i):
        return pitem(self, self.v, num(i))

    def snapshot(self):
        v = self.v
        share(v)
        if len(v) == 1 and v[0][0] == "r":
            return v[0][1], v[0][2]
        return plen(v), (lambda k: pitem(None, v, num(k)))

    def __repr__(self):
        return "[%s]" % ", ".join(str(p[1]) if p[0] == "i" else "<x%s>" % show(p[1]) for p in self.v)


def plen(v):
    return add(*[ONE if p[0] == "i" else p[1] for p in v]) if v else ZERO


def mark_parts(o, since):
    """the objects described together with the element o belong to it"""
    if isinstance(o, PList):
        parts = [(i, p[1]) for i, p in enumerate(o.v) if p[0] == "i"]
        lead = all(p[0] == "i" for p in o.v)
    elif isinstance(o, PDict) and isinstance(o.v, dict):
        parts, lead = list(o.v.items()), True
    else:
        return
    for k, x in parts:
        if isinstance(x, Obj) and x.serial > since and x is not o:
            if o.borrowed or not lead:
                x.borrowed = True
            else:
                x.origin = (o, k)
            mark_parts(x, since)
        elif isinstance(x, tuple):
            for y in x:
                borrow(y, since)


def borrow(x, since):
    if isinstance(x, tuple):
        for y in x:
            borrow(y, since)
    elif isinstance(x, Obj) and x.serial > since:
        x.borrowed = True
        mark_parts(x, since)


def pitem(owner, v, i):
    off = ZERO
    alts = []
    for q, p in enumerate(v):
        sz = ONE if p[0] == "i" else p[1]
        end = add(off, sz)
        last = q == len(v) - 1
        c = TRUE if last else CTX.decide(lt(i, end))
        if c is False:
            off = end
            continue
        if p[0] == "i":
            r = p[1]
        else:
            with CTX.under(*([] if last and not alts else [lt(i, end), le(off, i)])):
                was = CTX.serial
                r = p[2](sub(i, off))
            if isinstance(r, tuple):
                borrow(r, was)
            if isinstance(r, Obj) and r.serial > was:
                # a new description of the element: changing it in place must change the list
                if owner is not None and p[3] and p[3].owner is owner and not p[3].shared and not alts and (c is True or last):
                    r.origin = (owner, i)
                    r.d["seen"] = owner.d["v"]
                    r.place = i
                    CTX.note(owner, "kids", owner.d.get("kids", ()) + (r,))
                else:
                    r.borrowed = True
                mark_parts(r, was)
        if c is True or last:
            break
        alts.append((lt(i, end), r))
        off = end
    else:
        raise Unsupported("item of empty list")
    was = CTX.serial
    for c, x in reversed(alts):
        r = vite(c, x, r)
    if alts:
        borrow(r, was)
    return r


def pstore(v, i, val):
    """pieces with element i replaced"""
    i = num(i)
    off = ZERO
    out = list(v)
    for q, p in enumerate(v):
        sz = ONE if p[0] == "i" else p[1]
        end = add(off, sz)
        last = q == len(v) - 1
        c = CTX.decide(lt(i, end)) if not last else True
        g = CTX.decide(le(off, i)) if q else True
        if c is True and g is True:
            if p[0] == "i":
                out[q] = ("i", val)
            else:
                e, fn = sub(i, off), p[2]
                out[q] = ("r", p[1], (lambda k, e=e, fn=fn: _stored(k, e, val, fn)), p[3])
            return tuple(out)
        if g is False:
            return tuple(out)
        if c is False:
            off = end
            continue
        cond = and_(le(off, i), lt(i, end))
        if p[0] == "i":
            out[q] = ("i", vite(cond, val, p[1]))
        else:
            e, fn = sub(i, off), p[2]
            out[q] = ("r", p[1], (lambda k, e=e, fn=fn: _stored(k, e, val, fn)), p[3])
        off = end
    return tuple(out)


def _stored(k, e, val, fn):
    c = eq(k, e)
    d = CTX.decide(c)
    if d is True:
        return val
    if d is False:
        return fn(k)
    return vite(c, val, fn(k))


def pslice(v, lo, hi):
    """pieces lo..hi (0<=lo, hi<=len, possibly empty when hi<=lo)"""
    n = plen(v)
    lo, hi = num(lo), num(hi)
    if len(v) == 1 and v[0][0] == "r":
        p = v[0]
        if hi.op != "num" and not CTX.holds(le(lo, hi)):
            hi = ite(le(lo, hi), hi, lo)
        m = sub(hi, lo)
        fn = p[2]
        return (("r", m, (lambda k: fn(add(k, lo))), False),)
    out = []
    off = ZERO
    for p in v:
        sz = ONE if p[0] == "i" else p[1]
        end = add(off, sz)
        if CTX.decide(le(end, lo)) is True or CTX.decide(le(hi, off)) is True:
            off = end
            continue
        if p[0] == "i":
            if CTX.holds(and_(le(lo, off), lt(off, hi))):
                out.append(p)
            else:
                raise Unsupported("slice of a list")
        else:
            a = lo if CTX.decide(le(off, lo)) is True else (off if CTX.decide(le(lo, off)) is True else None)
            b = hi if CTX.decide(le(hi, end)) is True else (end if CTX.decide(le(end, hi)) is True else None)
            if a is None or b is None:
                raise Unsupported("slice of a list")
            fn = p[2]
            d = sub(a, off)
            out.append(("r", sub(b, a), (lambda k, fn=fn, d=d: fn(add(k, d))), False))
        off = end
    return tuple(out)


class PDict(Obj):
    def __init__(self, items=None):
        Obj.__init__(self)
        self.d["v"] = dict(items or {})

    @property
    def v(self):
        return self.d["v"]


class SymDict(Obj):
    """dictionary with symbolic keys: content v = (has(tag,t)->Bool, get(tag,t)->value)"""

    def __init__(self, has, get):
        Obj.__init__(self)
        self.d["v"] = (has, get)


class SymSet:
    """set(list): membership abstracted, iterates over the list (order irrelevant)"""

    def __init__(self, lst):
        self.lst = lst


class Inst(Obj):
    def __init__(self, cls):
        Obj.__init__(self)
        self.cls = cls

    def __repr__(self):
        return "<%s object>" % self.cls


class PolyV:
    """np.poly1d: function of a real argument"""

    def __init__(self, fn):
        self.fn = fn


class CaFun:
    """casadi Function: inputs (symbol terms / tensors), outputs"""

    def __init__(self, ins, outs, names=None):
        self.ins, self.outs, self.names = ins, outs, names


class FuncVal:
    def __init__(self, node, env, cls=None, name=None, defaults=None, kwdefaults=None):
        self.node, self.env, self.cls, self.name = node, env, cls, name
        self.defaults = defaults or []


class Bound:
    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_


class PyFn:
    """host-level callable: f(interp, args, kwargs)"""

    def __init__(self, f, name="", key=None):
        self.f, self.name, self.key = f, name, key


class ClassVal:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<class %s>" % self.name


class Module:
    def __init__(self, name):
        self.name = name


class LibFn:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<lib %s>" % self.name


class Union:
    """guarded alternatives [(cond, value)]; conditions are exhaustive and exclusive"""

    def __init__(self, alts):
        self.alts = alts

    def __repr__(self):
        return "Union(%s)" % ", ".join("%s: %s" % (show(c), v) for c, v in self.alts)


class Poison:
    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return "<poison %s>" % self.why


class Opaque:
    """opaque host value with identity (figures, time stamps, solver objects)"""

    def __init__(self, name, key=None):
        self.name, self.key = name, key

    def __repr__(self):
        return "<opaque %s>" % self.name


class Star:
    def __init__(self, v):
        self.v = v


class FmtKey:
    """string built by 'text{}'.format(i) with symbolic i"""

    def __init__(self, fmt, t):
        self.fmt, self.t = fmt, t


class Slice:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


def is_scalar(v):
    return isinstance(v, (int, float, Fraction)) and not isinstance(v, bool) or (isinstance(v, Term) and v.sort in "IR")


def is_bool(v):
    return isinstance(v, bool) or (isinstance(v, Term) and v.sort == "B")


INF = var("INF", "R")


def term(v):
    if isinstance(v, Term):
        return v
    if isinstance(v, bool):
        return TRUE if v else FALSE
    if isinstance(v, int):
        return num(v)
    if isinstance(v, float):
        if v == float("inf"):
            return INF
        if v == float("-inf"):
            return neg(INF)
        return num(Fraction(repr(v)))
    if isinstance(v, Fraction):
        return num(v)
    if isinstance(v, Tensor):
        if all(dim_one(d) for d in v.dims):
            return v.get(*[ZERO for d in v.dims])
        if all(CTX.holds(eq(d.size(), 1)) for d in v.dims):
            return v.get(*[ZERO for d in v.dims])
    if isinstance(v, Union):
        r = None
        for c, x in reversed(v.alts):
            try:
                t = term(x)
            except Unsupported:
                continue
            r = t if r is None else ite(c, t, r)
        if r is not None:
            return r
    raise Unsupported("not a scalar: %r" % (v,))


def scalar_of(v):
    """demote concrete terms"""
    return v


def same(a, b):
    if a is b:
        return True
    if isinstance(a, (str, bool, int, float)) and isinstance(b, (str, bool, int, float)) and type(a) == type(b) and a == b:
        return True
    if isinstance(a, ClassVal) and isinstance(b, ClassVal):
        return a.name == b.name
    if isinstance(a, LibFn) and isinstance(b, LibFn):
        return a.name == b.name
    return False


def merged(o):
    o.borrowed = True         # stands for one of two objects
    return o


def vite(c, a, b):
    """if c then a else b"""
    if isinstance(c, bool):
        return a if c else b
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if same(a, b):
        return a
    sa = is_scalar(a) or is_bool(a)
    sb = is_scalar(b) or is_bool(b)
    if sa and sb:
        ta, tb = term(a), term(b)
        if (ta.sort == "B") == (tb.sort == "B"):
            return ite(c, ta, tb)
    d = CTX.decide(c)
    if d is True:
        return a
    if d is False:
        return b
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(vite(c, x, y) for x, y in zip(a, b))
    if isinstance(a, Tensor) and isinstance(b, Tensor) and a.kind == b.kind and a.rank == b.rank:
        if all(same_dim(x, y) for x, y in zip(a.dims, b.dims)):
            fa, fb = a.f, b.f

            def f(*s):
                with CTX.under(c):
                    x = fa(*s)
                with CTX.under(not_(c)):
                    y = fb(*s)
                return vite(c, x, y)
            return Tensor(a.kind, a.dims, f)
    if isinstance(a, PolyV) and isinstance(b, PolyV):
        return PolyV(lambda t: ite(c, a.fn(t), b.fn(t)))
    if isinstance(a, PList) and isinstance(b, PList):
        if len(a.v) == len(b.v) and all(x[0] == y[0] and (x[0] == "i" or x[1] is y[1]) for x, y in zip(a.v, b.v)):
            return merged(PList(pieces=[("i", vite(c, x[1], y[1])) if x[0] == "i" else _vpiece(c, x, y) for x, y in zip(a.v, b.v)]))
        na, fa = a.snapshot()
        nb, fb = b.snapshot()
        if na is nb:
            return merged(PList(n=na, fn=lambda k: vite(c, fa(k), fb(k))))
    alts = []
    for g, v in (a.alts if isinstance(a, Union) else [(TRUE, a)]):
        alts.append((and_(c, g), v))
    for g, v in (b.alts if isinstance(b, Union) else [(TRUE, b)]):
        alts.append((and_(not_(c), g), v))
    return Union([(g, v) for g, v in alts if g is not FALSE])


def _vpiece(c, x, y):
    fx, fy = x[2], y[2]

    def fn(k):
        with CTX.under(c):
            a = fx(k)
        with CTX.under(not_(c)):
            b = fy(k)
        return vite(c, a, b)
    return ("r", x[1], fn, False)


def same_dim(x, y):
    if x is y:
        return True
    if isinstance(x, DL) and isinstance(y, DL):
        return x.n is y.n or CTX.holds(eq(x.n, y.n))
    if isinstance(x, DC) and isinstance(y, DC):
        return len(x.parts) == len(y.parts) and all(same_dim(a, b) for a, b in zip(x.parts, y.parts))
    if isinstance(x, DB) and isinstance(y, DB):
        if not (x.n is y.n or CTX.holds(eq(x.n, y.n))):
            return False
        v, r = CTX.bound(x.n, lambda k: same_dim(x.g(k), y.g(k)))
        return r
    return False


def dim_subst(d, m):
    if isinstance(d, DL):
        return DL(subst(d.n, m))
    if isinstance(d, DC):
        return DC([dim_subst(p, m) for p in d.parts])
    g = d.g
    return DB(subst(d.n, m), lambda k: dim_subst(g(k), m))


def _eqs(m):
    return [eq(k, x) for k, x in m.items() if k.op == "var" and k.sort in "IR"]


def relist(v, pieces):
    """a list with new objects in place of those of v"""
    n = PList(items=(), tup=v.tup)
    n.borrowed = v.borrowed
    n.d["v"] = tuple(p if p[0] == "i" or not p[3] else p[:3] + (Fresh(n) if p[3].owner is v and not p[3].shared else False,) for p in pieces)
    return n


def psubst(p, m, hyps=()):
    if p[0] == "i":
        return ("i", vsubst(p[1], m, hyps))
    fn = p[2]

    def g(k):
        with CTX.under(*hyps, *_eqs(m)):
            r = fn(k)
        return vsubst(r, m, hyps)
    return ("r", subst(p[1], m), g, p[3])


def vsubst(v, m, hyps=()):
    """substitute variables in a value; lazily evaluated contents are evaluated under hyps"""
    if isinstance(v, Term):
        return subst(v, m)
    if isinstance(v, (int, float, str, bool, Fraction)) or v is None:
        return v
    if isinstance(v, tuple):
        return tuple(vsubst(x, m, hyps) for x in v)
    if isinstance(v, Obj) and not isinstance(v, Inst) and any(x in CTX.birth for x in m) and all(CTX.birth[x] >= v.serial for x in m if x in CTX.birth):
        return v          # an object older than the iteration variable: itself, not a copy
    if isinstance(v, Tensor):
        f = v.f

        def g(*s):
            with CTX.under(*hyps, *_eqs(m)):
                r = f(*s)
            return vsubst(r, m, hyps)
        dg = v.diag
        diag = None
        if dg is not None:
            diag = lambda i: subst(dg(i), m)
        keye = None
        if v.keye is not None:
            keye = (subst(v.keye[0], m), vsubst(v.keye[1], m, hyps))
        r = Tensor(v.kind, tuple(dim_subst(d, m) for d in v.dims), g, diag=diag, keye=keye, tag=v.tag, elem=v.elem)
        r.whole, r.borrowed = v.whole, v.borrowed
        return r
    if isinstance(v, PList):
        return relist(v, [psubst(p, m, hyps) for p in v.v])
    if isinstance(v, Union):
        return Union([(subst(c, m), vsubst(x, m, hyps)) for c, x in v.alts])
    if isinstance(v, PolyV):
        fn = v.fn
        return PolyV(lambda t: subst(fn(t), m))
    if isinstance(v, PDict):
        return PDict({k: vsubst(x, m, hyps) for k, x in v.v.items()})
    if isinstance(v, CaFun):
        return CaFun([vsubst(x, m, hyps) for x in v.ins], [vsubst(x, m, hyps) for x in v.outs], v.names)
    if isinstance(v, FmtKey):
        return FmtKey(v.fmt, subst(v.t, m))
    if isinstance(v, FuncVal):
        if any(depends(x, m) for x in list(v.defaults or ()) + list((getattr(v, "kwdefaults", None) or {}).values())):
            n = FuncVal(v.node, v.env, v.cls, v.name)
            n.__dict__.update(v.__dict__)
            n.defaults = [vsubst(x, m, hyps) for x in v.defaults or ()]
            n.kwdefaults = {k: vsubst(x, m, hyps) for k, x in (getattr(v, "kwdefaults", None) or {}).items()}
            return n
        return v
    if isinstance(v, Inst):
        if any(depends(x, m) for x in v.d.values()):
            raise Unsupported("an object made in each iteration")
        return v
    if isinstance(v, (Bound, SymSet)) and depends(v.self_ if isinstance(v, Bound) else v.lst, m):
        raise Unsupported("substitution in %r" % (v,))
    if isinstance(v, (ClassVal, LibFn, Module, Bound, PyFn, Opaque, SymDict, SymSet)):
        return v
    raise Unsupported("substitution in %r" % (v,))


def depends(v, m, depth=0):
    """does a value mention one of the variables m?"""
    if isinstance(v, Term):
        return any(x in m for x in fv(v))
    if isinstance(v, (int, float, str, bool, Fraction)) or v is None or depth > 4:
        return False
    if isinstance(v, (tuple, list)):
        return any(depends(x, m, depth + 1) for x in v)
    if isinstance(v, Union):
        return any(depends(c, m) or depends(x, m, depth + 1) for c, x in v.alts)
    if isinstance(v, Tensor):
        if any(depends(d.size(), m) for d in v.dims):
            return True
        try:
            f = Tensor(v.kind, v.dims, v.f)
            from . import lib
            for s, h in lib.each_index(v.dims):
                with CTX.under(*h):
                    if depends(f.at(*s), m, depth + 1):
                        return True
        except Unsupported:
            return True
        return False
    if isinstance(v, PList):
        for p in v.v:
            if p[0] == "i":
                if depends(p[1], m, depth + 1):
                    return True
            else:
                if depends(num(p[1]), m):
                    return True
                k = fresh("dp", "I")
                with CTX.under(le(0, k), lt(k, p[1])):
                    try:
                        if depends(p[2](k), m, depth + 1):
                            return True
                    except Unsupported:
                        return True
        return False
    if isinstance(v, PDict):
        return isinstance(v.v, dict) and any(depends(x, m, depth + 1) for x in v.v.values())
    if isinstance(v, Inst):
        return any(depends(x, m, depth + 1) for x in v.d.values())
    if isinstance(v, FuncVal):
        return any(depends(x, m, depth + 1) for x in list(v.defaults or ()) + list((getattr(v, "kwdefaults", None) or {}).values()))
    if isinstance(v, Bound):
        return depends(v.self_, m, depth + 1)
    return False


# ---------------------------------------------------------------- constructors
def leafvec(kind, n, f):
    """1-d numpy vector or casadi column vector with plain layout"""
    if kind == "np":
        return Tensor("np", (DL(n),), lambda i: f(i))
    return Tensor(kind, (DL(n), DL(1)), lambda i, j: f(i))


def matrix(kind, n, m, f):
    return Tensor(kind, (DL(n), DL(m)), lambda i, j: f(i, j))
