"""Hash-consed term language of the verifier.

Sorts: 'I' mathematical integer, 'R' real, 'B' boolean, 'V' vector argument of an
uninterpreted function, 'L' lambda.  Numeric terms are kept in polynomial normal
form (Laurent monomials: negative exponents stand for division; definedness of each
division is a separate obligation)."""
from fractions import Fraction
from functools import lru_cache

_table = {}
_ids = [0]


class Term:
    __slots__ = ("op", "args", "data", "sort", "id", "height", "_fv", "_hash", "_bv", "heads_")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self._hash

    # identity equality (hash-consed)


def _mk(op, args=(), data=None, sort="R"):
    key = (op, tuple(a.id for a in args), data, sort)
    t = _table.get(key)
    if t is not None:
        return t
    t = Term()
    t.op, t.args, t.data, t.sort = op, args, data, sort
    _ids[0] += 1
    t.id = _ids[0]
    t._hash = hash(t.id)
    h = 0
    for a in args:
        if a.height > h:
            h = a.height
    if op == "poly":
        for m, c in data:
            for a, e in m:
                if a.height > h:
                    h = a.height
    if op == "lam":
        h += 1
    t.height = h
    t._fv = None
    t._bv = None
    t.heads_ = None
    _table[key] = t
    return t


def children(t):
    if t.op == "poly":
        return [a for m, c in t.data for a, e in m]
    return t.args


TRUE = _mk("true", sort="B")
FALSE = _mk("false", sort="B")


def num(x):
    if isinstance(x, Term):
        return x
    if isinstance(x, bool):
        x = int(x)
    f = Fraction(x)
    return _mk("num", data=f, sort="I" if f.denominator == 1 else "R")


ZERO = num(0)
ONE = num(1)


def var(name, sort="R"):
    return _mk("var", data=name, sort=sort)


def bvar(h, sort):
    return _mk("bvar", data=h, sort=sort)


def isnum(t):
    return t.op == "num"


def is_num(t, v):
    return t.op == "num" and t.data == v


def fv(t):
    """free variables (op var) of t"""
    r = t._fv
    if r is None:
        if t.op == "var":
            r = frozenset((t,))
        else:
            cs = children(t)
            if not cs:
                r = frozenset()
            elif len(cs) == 1:
                r = fv(cs[0])
            else:
                r = frozenset().union(*[fv(c) for c in cs])
        t._fv = r
    return r


def bvs(t):
    """set of bvars occurring free or bound (heights)"""
    r = t._bv
    if r is None:
        if t.op == "bvar":
            r = frozenset((t,))
        else:
            cs = children(t)
            r = frozenset().union(*[bvs(c) for c in cs]) if cs else frozenset()
        t._bv = r
    return r


def heads(t):
    r = t.heads_
    if r is None:
        cs = children(t)
        r = frozenset().union(*[heads(c) for c in cs]) if cs else frozenset()
        if t.op == "app":
            r = r | {t.data}
        t.heads_ = r
    return r


# ---------------------------------------------------------------- polynomials
def _pd(t):
    if t.op == "num":
        return {(): t.data} if t.data else {}
    if t.op == "poly":
        return dict(t.data)
    return {((t, 1),): Fraction(1)}


def _mono_key(m):
    return tuple((a.id, e) for a, e in m)


def mk_poly(d):
    d = {m: c for m, c in d.items() if c}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    sort = "I"
    for m, c in d.items():
        if c.denominator != 1:
            sort = "R"
            break
        for a, e in m:
            if a.sort != "I" or e < 0:
                sort = "R"
                break
        if sort == "R":
            break
    items = tuple(sorted(d.items(), key=lambda mc: _mono_key(mc[0])))
    return _mk("poly", data=items, sort=sort)


def add(*ts):
    d = {}
    for t in ts:
        if not isinstance(t, Term):
            t = num(t)
        for m, c in _pd(t).items():
            d[m] = d.get(m, 0) + c
    return mk_poly(d)


def neg(t):
    return mk_poly({m: -c for m, c in _pd(t).items()})


def sub(a, b):
    return add(a, neg(num(b)))


def _mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda ae: ae[0].id))


def mul(*ts):
    r = {(): Fraction(1)}
    for t in ts:
        if not isinstance(t, Term):
            t = num(t)
        p = _pd(t)
        if not p:
            return ZERO
        # a poly atom with negative exponent times itself cancels only in prove
        n = {}
        for m1, c1 in r.items():
            for m2, c2 in p.items():
                m = _mono_mul(m1, m2)
                n[m] = n.get(m, 0) + c1 * c2
        r = n
    return _fix_polyatoms(r)


def _fix_polyatoms(d):
    """poly-atoms (denominator polynomials) must have negative exponents only"""
    bad = None
    for m in d:
        for a, e in m:
            if a.op == "poly" and e > 0:
                bad = (m, a, e)
                break
        if bad:
            break
    if not bad:
        return mk_poly(d)
    m, a, e = bad
    c = d.pop(m)
    rest = tuple((b, f) for b, f in m if b is not a)
    t = mk_poly(d)
    x = mk_poly({rest: c})
    for _ in range(e):
        x = mul(x, a)
    return add(t, x)


def inv(t):
    t = num(t)
    if t.op == "num":
        if t.data == 0:
            return app("divzero", (), "R")
        return num(1 / t.data)
    if t.op == "poly":
        if len(t.data) == 1:
            m, c = t.data[0]
            return mk_poly({tuple((a, -e) for a, e in m): 1 / c})
        # common monomial content stays inside; normalise leading coefficient
        c = t.data[0][1]
        mon = mk_poly({m: k / c for m, k in t.data})
        return mk_poly({((mon, -1),): 1 / c})
    return mk_poly({((t, -1),): Fraction(1)})


def div(a, b):
    return mul(a, inv(b))


def power(a, n):
    r = ONE
    for _ in range(n):
        r = mul(r, a)
    return r


# ---------------------------------------------------------------- booleans
def _canon(t, eq=False):
    """scale a polynomial to a canonical representative (positive scaling)"""
    d = _pd(t)
    items = sorted(((m, c) for m, c in d.items() if m != ()), key=lambda mc: _mono_key(mc[0]))
    if not items:
        return t
    lead = items[0][1]
    k = lead if eq else abs(lead)
    if t.sort == "I" or _intmons(d):
        from math import gcd
        den = 1
        for c in d.values():
            den = den * c.denominator // gcd(den, c.denominator)
        g = 0
        for m, c in items:
            g = gcd(g, int(c * den))
        k = Fraction(g, den)
        if eq and lead < 0:
            k = -k
        return mk_poly({m: c / k for m, c in d.items()})
    return mk_poly({m: c / k for m, c in d.items()})


def _intmons(d):
    for m in d:
        for a, e in m:
            if a.sort != "I" or e < 0:
                return False
    return True


def le(a, b):
    p = _canon(sub(num(a), num(b)))
    if p.op == "num":
        return TRUE if p.data <= 0 else FALSE
    d = _pd(p)
    if _intmons(d):
        # integer valued monomials with integer coefficients: tighten the constant
        from math import floor, ceil
        c = d.get((), Fraction(0))
        if c.denominator != 1:
            d = dict(d)
            d[()] = Fraction(ceil(c))
            p = mk_poly(d)
    return _mk("le0", (p,), sort="B")


def lt(a, b):
    p = sub(num(a), num(b))
    if p.op == "num":
        return TRUE if p.data < 0 else FALSE
    p = _canon(p)
    d = _pd(p)
    if _intmons(d):
        from math import floor
        d = dict(d)
        c = d.get((), Fraction(0))
        d[()] = Fraction(floor(c) + 1) if True else c
        return _mk("le0", (mk_poly(d),), sort="B") if mk_poly(d).op != "num" else (TRUE if mk_poly(d).data <= 0 else FALSE)
    return _mk("lt0", (p,), sort="B")


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def eq(a, b):
    a, b = num(a), num(b)
    if a is b:
        return TRUE
    if a.sort == "B" or b.sort == "B":
        return or_(and_(a, b), and_(not_(a), not_(b)))
    p = sub(a, b)
    if p.op == "num":
        return TRUE if p.data == 0 else FALSE
    p = _canon(p, eq=True)
    d = _pd(p)
    if _intmons(d) and d.get((), Fraction(0)).denominator != 1:
        return FALSE
    return _mk("eq0", (p,), sort="B")


def ne(a, b):
    return not_(eq(a, b))


DUAL = {"FORALL": "EXISTS", "EXISTS": "FORALL"}
_NEG = {}
_INST = {}


def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    if a.op == "le0":
        return lt(0, a.args[0])
    if a.op == "lt0":
        return le(0, a.args[0])
    if a.op == "and":
        return or_(*[not_(x) for x in a.args])
    if a.op == "or":
        return and_(*[not_(x) for x in a.args])
    if a.op == "app" and a.data in DUAL:
        r = _NEG.get(a)
        if r is None:
            lo, hi, l = a.args
            r = _NEG[a] = mk_bind(DUAL[a.data], lo, hi, lambda i: not_(inst(l, i)))
        return r
    if a.op == "ite":
        return ite(a.args[0], not_(a.args[1]), not_(a.args[2]))
    return _mk("not", (a,), sort="B")


def _flat(op, ts):
    out, seen = [], set()
    for t in ts:
        if isinstance(t, bool):
            t = TRUE if t else FALSE
        for x in (t.args if t.op == op else (t,)):
            if x not in seen:
                seen.add(x)
                out.append(x)
    return out, seen


def and_(*ts):
    out, seen = _flat("and", ts)
    out = [x for x in out if x is not TRUE]
    if FALSE in seen:
        return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    for x in out:
        if not_(x) in seen:
            return FALSE
    return _mk("and", tuple(sorted(out, key=lambda x: x.id)), sort="B")


def or_(*ts):
    out, seen = _flat("or", ts)
    out = [x for x in out if x is not FALSE]
    if TRUE in seen:
        return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    for x in out:
        if not_atom(x) in seen:
            return TRUE
    return _mk("or", tuple(sorted(out, key=lambda x: x.id)), sort="B")


def not_atom(x):
    if x.op in ("and", "or"):
        return None
    return not_(x)


def implies(a, b):
    return or_(not_(a), b)


def _turned(p):
    """integer comparison written the other way round (leading coefficient negative)"""
    d = _pd(p)
    if not _intmons(d):
        return False
    lead = [m for m in d if m]
    return bool(lead) and d[min(lead, key=_mono_key)] < 0


def ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    a, b = num(a), num(b)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort == "B":
        if a is TRUE and b is FALSE:
            return c
        if a is FALSE and b is TRUE:
            return not_(c)
        return or_(and_(c, a), and_(not_(c), b))
    if c.op == "not" or c.op == "lt0" or c.op == "le0" and _turned(c.args[0]):
        return ite(not_(c), b, a)
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    return _mk("ite", (c, a, b), sort="I" if a.sort == b.sort == "I" else "R")


# ---------------------------------------------------------------- apps, lambda
SIMP = {}


def app(name, args, sort="R"):
    args = tuple(num(a) if not isinstance(a, Term) else a for a in args)
    f = SIMP.get(name)
    if f is not None:
        r = f(args, sort)
        if r is not None:
            return r
    return _mk("app", args, name, sort)


_fresh = [0]


def fresh(prefix, sort="I"):
    _fresh[0] += 1
    return var("%s!%d" % (prefix, _fresh[0]), sort)


_temp = [0]


def temp(prefix, sort="I"):
    """fresh symbol of the prover or of a binder under construction (numbered apart from program symbols,
    so that re-executing a path prefix names its symbols alike)"""
    _temp[0] += 1
    return var("%s!t%d" % (prefix, _temp[0]), sort)


def lam(v, body):
    body = num(body)
    h = body.height
    while True:
        b = bvar(h, v.sort)
        nb = subst(body, {v: b})
        if nb.height == h:
            return _mk("lam", (nb,), v.sort, "L")
        h = nb.height


def lamf(f, sort="I"):
    v = temp("l", sort)
    return lam(v, f(v))


def inst(l, t):
    t = num(t)
    r = _INST.get((l, t))
    if r is None:
        body = l.args[0]
        r = _INST[l, t] = subst(body, {bvar(body.height, l.data): t})
    return r


def mk_bind(kind, lo, hi, f, sort=None):
    lo, hi = num(lo), num(hi)
    v = temp("l", "I")
    sort = sort or ("B" if kind in ("FORALL", "EXISTS") else "R")
    b = f(v)
    if not isinstance(b, Term):
        b = num(b)
    if sort == "R" and b.sort == "I" and kind in ("SUM", "PROD"):
        sort = "I"
    return app(kind, (lo, hi, lam(v, b)), sort)


def SUM(lo, hi, f):
    return mk_bind("SUM", lo, hi, f)


def PROD(lo, hi, f):
    return mk_bind("PROD", lo, hi, f)


def FORALL(lo, hi, f):
    return mk_bind("FORALL", lo, hi, f)


def EXISTS(lo, hi, f):
    return mk_bind("EXISTS", lo, hi, f)


def vec(n, f):
    """vector argument (n, i -> term) of an uninterpreted function"""
    n = num(n)
    if is_num(n, 0):
        return _mk("app", (ZERO, lamf(lambda i: ZERO)), "vec", "V")
    return _mk("app", (n, lamf(f)), "vec", "V")


EXPAND = 6


def _simp_sum(args, sort):
    lo, hi, l = args
    d = sub(hi, lo)
    body = l.args[0]
    b = bvar(body.height, "I")
    if d.op == "num":
        if d.data <= 0:
            return ZERO
        if d.data <= EXPAND:
            return add(*[inst(l, add(lo, i)) for i in range(int(d.data))])
    if body is ZERO:
        return ZERO
    if b not in bvs(body):
        # summand independent of the index (n>=0 is implied by the ranges used)
        return mul(app("max0", (d,), "I"), body)
    if lo is ZERO:
        # inner sums up to index+1: split off the last summand (the index is >= 0 here)
        b1 = add(b, 1)
        inner = [t for t in atoms_of(body, lambda x: x.op == "app" and x.data == "SUM" and x.args[0] is ZERO) if t.args[1] is b1]
        if inner:
            v = fresh("l", "I")
            bd = inst(l, v)
            v1 = add(v, 1)
            for t in atoms_of(bd, lambda x: x.op == "app" and x.data == "SUM" and x.args[0] is ZERO):
                if t.args[1] is v1:
                    bd = subst(bd, {t: add(app("SUM", (ZERO, v, t.args[2]), t.sort), inst(t.args[2], v))})
            return app("SUM", (lo, hi, lam(v, bd)), sort)
    if body.op == "poly":
        if len(body.data) > 1:
            return add(*[app("SUM", (lo, hi, _relam(mk_poly({m: c}), b)), sort) for m, c in body.data])
        m, c = body.data[0]
        out = tuple((a, e) for a, e in m if b not in bvs(a))
        inn = tuple((a, e) for a, e in m if b in bvs(a))
        if c != 1 or out:
            s = "I" if all(a.sort == "I" and e > 0 for a, e in inn) else "R"
            return mul(mk_poly({out: c}), app("SUM", (lo, hi, _relam(mk_poly({inn: Fraction(1)}), b)), s))
    return None


def _relam(body, b):
    v = fresh("l", "I")
    return lam(v, subst(body, {b: v}))


def _simp_prod(args, sort):
    lo, hi, l = args
    d = sub(hi, lo)
    if d.op == "num":
        if d.data <= 0:
            return ONE
        if d.data <= EXPAND:
            return mul(*[inst(l, add(lo, i)) for i in range(int(d.data))])
    if l.args[0] is ONE:
        return ONE
    return None


def _simp_forall(args, sort):
    lo, hi, l = args
    d = sub(hi, lo)
    if d.op == "num":
        if d.data <= 0:
            return TRUE
        if d.data <= EXPAND:
            return and_(*[inst(l, add(lo, i)) for i in range(int(d.data))])
    if l.args[0] is TRUE:
        return TRUE
    return None


def _simp_exists(args, sort):
    lo, hi, l = args
    d = sub(hi, lo)
    if d.op == "num":
        if d.data <= 0:
            return FALSE
        if d.data <= EXPAND:
            return or_(*[inst(l, add(lo, i)) for i in range(int(d.data))])
    if l.args[0] is FALSE:
        return FALSE
    return None


def _simp_max0(args, sort):
    a, = args
    if isnum(a):
        return a if a.data > 0 else ZERO
    return None


SIMP.update(SUM=_simp_sum, PROD=_simp_prod, FORALL=_simp_forall, EXISTS=_simp_exists, max0=_simp_max0)


# ---------------------------------------------------------------- substitution
def subst(t, m):
    """simultaneous substitution of var/bvar (or arbitrary atoms) by terms"""
    if not m:
        return t
    keys = list(m)
    onlyvars = all(k.op == "var" for k in keys)
    memo = {}
    kset = set(keys)

    def touched(t):
        if onlyvars:
            f = fv(t)
            for k in keys:
                if k in f:
                    return True
            return False
        return True

    def go(t):
        r = m.get(t)
        if r is not None:
            return r
        if t.op in ("num", "var", "bvar", "true", "false"):
            return t
        r = memo.get(t)
        if r is not None:
            return r
        if onlyvars and not touched(t):
            memo[t] = t
            return t
        op = t.op
        if op == "poly":
            ch = False
            acc = []
            for mm, c in t.data:
                fs = [num(c)]
                for a, e in mm:
                    na = go(a)
                    if na is not a:
                        ch = True
                    fs.append((na, e, a))
                acc.append(fs)
            if not ch:
                r = t
            else:
                terms = []
                for fs in acc:
                    x = fs[0]
                    base = {}
                    extra = []
                    mono = ()
                    for na, e, a in fs[1:]:
                        if na is a:
                            mono = _mono_mul(mono, ((a, e),))
                        elif e > 0:
                            extra.append(power(na, e))
                        else:
                            extra.append(power(inv(na), -e))
                    terms.append(mul(mk_poly({mono: fs[0].data}) if fs[0].data else ZERO, *extra))
                r = add(*terms)
        elif op == "lam":
            body = t.args[0]
            h = body.height
            b = bvar(h, t.data)
            # open with a fresh variable to stay canonical
            v = fresh("o", t.data)
            ob = _open(body, b, v)
            nb = go2(ob, m)
            r = t if nb is ob else lam(v, nb)
        elif op == "app":
            na = tuple(go(a) for a in t.args)
            r = t if all(x is y for x, y in zip(na, t.args)) else app(t.data, na, t.sort)
        else:
            na = tuple(go(a) for a in t.args)
            if all(x is y for x, y in zip(na, t.args)):
                r = t
            else:
                r = rebuild(op, na)
        memo[t] = r
        return r

    def go2(ob, m):
        return go(ob)

    return go(t)


_open_memo = {}


def _open(body, b, v):
    return _replace_atom(body, b, v)


def _replace_atom(t, b, v):
    memo = {}

    def go(t):
        if t is b:
            return v
        if b not in bvs(t):
            return t
        r = memo.get(t)
        if r is not None:
            return r
        op = t.op
        if op == "poly":
            terms = []
            for mm, c in t.data:
                x = num(c)
                for a, e in mm:
                    na = go(a)
                    x = mul(x, power(na, e) if e > 0 else power(inv(na), -e))
                terms.append(x)
            r = add(*terms)
        elif op == "lam":
            # inner binder has a strictly smaller bvar: no capture
            r = _mk("lam", (go(t.args[0]),), t.data, "L")
        elif op == "app":
            r = app(t.data, tuple(go(a) for a in t.args), t.sort)
        else:
            r = rebuild(op, tuple(go(a) for a in t.args))
        memo[t] = r
        return r

    return go(t)


def rebuild(op, a):
    if op == "le0":
        return le(a[0], ZERO)
    if op == "lt0":
        return lt(a[0], ZERO)
    if op == "eq0":
        return eq(a[0], ZERO)
    if op == "not":
        return not_(a[0])
    if op == "and":
        return and_(*a)
    if op == "or":
        return or_(*a)
    if op == "ite":
        return ite(*a)
    raise AssertionError(op)


def show(t, depth=0):
    op = t.op
    if op == "num":
        return str(t.data)
    if op == "var":
        return t.data
    if op == "bvar":
        return "_%d" % t.data
    if op in ("true", "false"):
        return op
    if op == "poly":
        out = []
        for m, c in t.data:
            s = "*".join(("%s" % show(a) if e == 1 else ("(%s)^%d" % (show(a), e))) for a, e in m)
            out.append((str(c) + ("*" + s if s else "")) if c != 1 or not s else s)
        return "(" + " + ".join(out) + ")"
    if op == "lam":
        return "λ_%d.%s" % (t.args[0].height, show(t.args[0]))
    if op == "app":
        return "%s(%s)" % (t.data, ", ".join(show(a) for a in t.args))
    if op == "le0":
        return "%s<=0" % show(t.args[0])
    if op == "lt0":
        return "%s<0" % show(t.args[0])
    if op == "eq0":
        return "%s==0" % show(t.args[0])
    return "%s(%s)" % (op, ", ".join(show(a) for a in t.args))


def atoms_of(t, pred, acc=None, seen=None):
    """collect subterms (not under lam) satisfying pred"""
    if acc is None:
        acc, seen = [], set()
    if t in seen:
        return acc
    seen.add(t)
    if pred(t):
        acc.append(t)
    if t.op != "lam":
        for c in children(t):
            atoms_of(c, pred, acc, seen)
    return acc


def map_apps(t, fn):
    """rewrite every app bottom-up: fn(head, args, sort) -> Term or None (keep)"""
    memo = {}

    def go(t):
        if t.op in ("num", "var", "bvar", "true", "false"):
            return t
        r = memo.get(t)
        if r is not None:
            return r
        if t.op == "poly":
            terms = []
            for mm, c in t.data:
                x = [num(c)]
                for a, e in mm:
                    na = go(a)
                    x.append(power(na, e) if e > 0 else power(inv(na), -e))
                terms.append(mul(*x))
            r = add(*terms)
        elif t.op == "lam":
            body = t.args[0]
            b = bvar(body.height, t.data)
            v = fresh("o", t.data)
            ob = _open(body, b, v)
            nb = go(ob)
            r = t if nb is ob else lam(v, nb)
        elif t.op == "app":
            na = tuple(go(a) for a in t.args)
            r = fn(t.data, na, t.sort)
            if r is None:
                r = t if all(x is y for x, y in zip(na, t.args)) else app(t.data, na, t.sort)
        else:
            na = tuple(go(a) for a in t.args)
            r = t if all(x is y for x, y in zip(na, t.args)) else rebuild(t.op, na)
        memo[t] = r
        return r
    return go(t)
