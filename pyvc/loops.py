"""Summarisation of loops with a symbolic number of iterations.

The body is executed once for a generic iteration k.  Scalars get closed forms
(last value, sum, product, running maximum, or a recurrence with inductively proved
invariants); container contents are described by the iteration that last wrote them."""
from .terms import *
from . import terms as T
from .values import *
from .values import _MISSING
from .sel import *

_uid = [0]


def uid():
    _uid[0] += 1
    return _uid[0]


class OldItem(Poison):
    def __init__(self, loc, idx):
        Poison.__init__(self, "element of a list modified by the loop")
        self.loc, self.idx = loc, idx


class SymD:
    """content of a dictionary with symbolic keys"""

    def __init__(self, has, get):
        self.has, self.get = has, get


def dict_content(v):
    if isinstance(v, SymD):
        return v
    from . import lib
    return lib.symd_of(v)


class Loc:
    def __init__(self, cont, key, init):
        self.cont, self.key, self.init = cont, key, init
        self.uid = uid()
        self.kind = self.classify(init)
        self.sort = None
        self.ph = None
        self.reads = []
        self.axis = 0
        self.grows = False       # items are appended in every iteration

    def name(self):
        return "%s" % (self.key,)

    def classify(self, v):
        if v is _MISSING:
            return "X"
        if isinstance(self.cont, Tensor):
            return "T" if self.key == "f" else "X"
        if isinstance(self.cont, PList) and self.key == "v":
            return "L"
        if isinstance(self.cont, PDict) and self.key == "v":
            return "D"
        if isinstance(v, PolyV):
            return "P"
        if is_scalar(v) or is_bool(v):
            return "S"
        if isinstance(v, Tensor) and v.rank == 0:
            return "S"
        if isinstance(v, Tensor) and v.rank >= 1:
            return "A"
        return "X"

    def placeholder(self):
        if self.kind == "S":
            if self.sort is None:
                t = term(self.init)
                self.sort = t.sort
            self.ph = var("ph%d.%s" % (self.uid, self.sort), self.sort)
            return self.ph
        if self.kind == "T":
            u = self.uid
            dims = self.cont.dims
            return lambda *s: app("OLD#%d" % u, [flat_of(d, x) for d, x in zip(dims, s)], "R")
        if self.kind == "L":
            n = plen(self.init)
            if self.grows:
                n = var("phl%d" % self.uid, "I")
                CTX.hyps.append(le(plen(self.init), n))
            self.ph = ("r", n, (lambda e: OldItem(self, e)), False)
            return (self.ph,)
        if self.kind == "D":
            # reads of the content before the loop are recorded: no earlier iteration may have stored that key
            init = dict_content(self.init)
            self.dreads = []

            def rec(f):
                def g(tg, t):
                    self.dreads.append((tg, t, list(CTX.hyps)))
                    return f(tg, t)
                return g
            d = SymD(rec(init.has), rec(init.get))
            d.log = getattr(init, "log", [])
            return d
        if self.kind == "P":
            u = self.uid
            return PolyV(lambda t: app("PHP#%d" % u, (t,), "R"))
        if self.kind == "A":
            u = self.uid
            self.ph = DL(var("phn%d" % u, "I"))
            v = self.init
            dims = list(v.dims)
            dims[self.axis] = self.ph
            return Tensor(v.kind, tuple(dims), lambda *s: app("OLDA#%d" % u, [flat_of(d, x) for d, x in zip(dims, s)], "R"))
        return Poison("carried over from the previous iteration: %s" % (self.key,))


def has_head(t, pred):
    return any(pred(h) for h in heads(t))


def for_symbolic(I, it, target, body, env):
    if isinstance(it, SymSet):
        return for_set(I, it, target, body, env)
    n = it.n
    if CTX.decide(le(n, 0)) is True:
        return None
    k = fresh("k", "I")
    CTX.loopvars.add(k)
    CTX.birth[k] = CTX.serial
    rng = [le(0, k), lt(k, n)]

    def elem(kk):
        return it.fn(kk)
    return summarise(I, k, n, rng, elem, target, body, env)


class LoopInvariant:
    """invariant given by a contract: applies(), enter(I, env), havoc(I, env, k) installing an arbitrary
    state at the start of iteration k (returns the locations it covers), check(I, env, k)"""


def by_invariant(I, li, it, st, env):
    """inductive reasoning: the invariant holds on entry, an arbitrary iteration keeps it, and what follows
    the loop starts from an arbitrary final state, or from the state at a break"""
    import ast
    from .interp import Abort
    n = num(it.n)
    li.check(I, env, ZERO)
    assigned = {x.id for b in st.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    assigned |= {x.id for x in ast.walk(st.target) if isinstance(x, ast.Name)}
    inside = I.choose(lt(fresh("inside", "R"), 0))

    def install(k):
        covered = set(li.havoc(I, env, k))
        for nm in assigned:
            if (env, nm) not in covered and nm in env.d:
                CTX.set(env, nm, Poison("not carried by the loop invariant: %s" % nm))
            covered.add((env, nm))
        return covered
    if not inside:
        CTX.hyps.append(le(0, n))
        install(n)
        return None
    k = fresh("k", "I")
    CTX.hyps.extend([le(0, k), lt(k, n)])
    covered = install(k)
    mark, start = len(CTX.trail), CTX.serial
    I.assign(st.target, it.fn(k), env)
    r = I.exec_block(st.body, env)
    for cont, key in I.writes_since(mark, start):
        if (cont, key) not in covered and not (cont in covered):
            raise Unsupported("the loop writes %r, which its invariant does not cover" % (key,))
    if r is not None and r[0] == "ret":
        return r
    if r is not None and r[0] == "break":
        return None
    li.check(I, env, add(k, 1))
    raise Abort()


def for_set(I, st, target, body, env):
    """set(list): a generic element d with d == list[k] for some k; order irrelevant"""
    n, fn = st.lst.snapshot()
    if CTX.decide(le(n, 0)) is True:
        return None
    d = fresh("d", "I")
    CTX.loopvars.add(d)
    CTX.birth[d] = CTX.serial
    member = lambda x: EXISTSc(n, lambda i: eq(term(fn(i)), x))
    return summarise(I, d, None, [member(d)], lambda kk: kk, target, body, env, member=member)


def summarise(I, k, n, rng, elem, target, body, env, member=None):
    isset = member is not None

    def run():
        I.assign(target, elem(k), env)
        r = I.exec_block(body, env)
        if r is not None and r[0] in ("ret", "break"):
            raise Unsupported("%s inside a loop of symbolic length" % r[0])
        return None

    locs = {}
    dead = never_read_first(body, st_names(target)) | st_names(target)

    def pass_(install, dry):
        mark = len(CTX.trail)
        hm = len(CTX.hyps)
        CTX.hyps.extend(rng)
        if dry:
            CTX.suppress += 1
        try:
            for l in locs.values():
                v = _MISSING
                if not (l.cont is env and l.key in dead):
                    v = install(l)
                elif dry:
                    install(l)          # creates the placeholder
                if v is not _MISSING:
                    CTX.set(l.cont, l.key, v)
                elif l.key in l.cont.d:
                    CTX.set(l.cont, l.key, Poison("not yet assigned"))
            return I.explore(run)
        finally:
            if dry:
                CTX.suppress -= 1
            CTX.undo(mark)
            del CTX.hyps[hm:]

    start = CTX.serial
    guesses = [] if isset else [dict(g) for g in guess_cursors(I, body, env, k)]
    while True:
        g = guesses.pop(0) if guesses else {}
        r = analyse(I, locs, pass_, start, g, k, n, rng)
        if r is not None:
            paths, guessed = r
            break
        locs.clear()

    return conclude(I, k, n, rng, elem, target, body, env, member, locs, pass_, paths, guessed)


def st_names(t):
    import ast
    return {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}


def never_read_first(body, targets):
    """names the body (re)assigns before any read: their value at the start of an iteration does not matter"""
    import ast
    live, stored = set(), set()

    def reads(e, have):
        for x in ast.walk(e):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Load, ast.Del)) and x.id not in have:
                live.add(x.id)

    def block(sts, have):
        have = set(have)
        for st in sts:
            if isinstance(st, ast.Assign):
                reads(st.value, have)
                for t in st.targets:
                    reads(t, have)
                    if isinstance(t, (ast.Name, ast.Tuple, ast.List)):
                        have |= {x.id for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            elif isinstance(st, ast.If):
                reads(st.test, have)
                a, b = block(st.body, have), block(st.orelse, have)
                have = a & b
            elif isinstance(st, ast.For):
                reads(st.iter, have)
                block(st.body, have | st_names(st.target))
                block(st.orelse, have)
            elif isinstance(st, (ast.Expr, ast.Assert, ast.Return, ast.Pass)):
                reads(st, have)
            else:
                reads(st, have)
                for x in ast.walk(st):
                    if isinstance(x, ast.Name) and x.id not in have:
                        live.add(x.id)
        return have
    for st in body:
        stored |= {x.id for x in ast.walk(st) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    block(body, targets)
    return stored - live


def guess_cursors(I, body, env, k):
    """candidate closed forms (verified inductively) of integer counters advanced by += in the body"""
    import ast

    def advance(x):
        """(name node, added value) of x += e, x = x + e, x = e + x"""
        if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
            return x.target, x.value if isinstance(x.op, ast.Add) else None
        if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and isinstance(x.value, ast.BinOp) \
                and isinstance(x.value.op, ast.Add):
            t, v = x.targets[0], x.value
            for me, e in ((v.left, v.right), (v.right, v.left)):
                if isinstance(me, ast.Name) and me.id == t.id:
                    return t, e
        return None
    own, nested, aug = {}, set(), set()
    for st in body:
        for x in ast.walk(st):
            step = advance(x)
            if step is None:
                continue
            t, e = step
            aug.add(id(t))
            if x is st and isinstance(e, ast.Constant) and isinstance(e.value, int):
                own.setdefault(t.id, []).append(e.value)
            else:
                nested.add(t.id)
    other = {x.id for st in body for x in ast.walk(st) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and id(x) not in aug}
    g = {}
    for nm, c in own.items():
        v = env.d.get(nm)
        if len(c) == 1 and nm not in nested and nm not in other and is_scalar(v) and num(v).sort == "I":
            g[nm] = lambda kk, v=v, c=c[0]: add(num(v), mul(c, kk))
    out = [g] if g else []
    for nm in sorted(nested - other - set(own)):
        v = env.d.get(nm)
        if is_scalar(v) and num(v).sort == "I":
            for f in I.guess_hints:
                h = dict(g)
                h[nm] = lambda kk, v=v, f=f: add(num(v), f(kk))
                out.insert(0, h)
    return out


def analyse(I, locs, pass_, start, guess, k, n, rng):
    def inst_(l):
        if l.kind == "S" and l.key in guess and not isinstance(l.cont, Tensor):
            l.guess = guess[l.key]
            return l.guess(k)
        return l.placeholder()
    for attempt in range(12):
        try:
            paths = pass_(inst_, True)
        except Unsupported:
            if guess:
                return None
            raise
        new = False
        for p in paths:
            if p.out[0] == "raise":
                continue
            for (cont, key), val in p.writes.items():
                if cont.serial > start and not isinstance(cont, Obj):
                    continue
                if (cont, key) not in locs:
                    init = cont.d.get(key, _MISSING)
                    l = Loc(cont, key, init)
                    locs[(cont, key)] = l
                    new = True
                else:
                    l = locs[(cont, key)]
                    if l.kind == "A" and l.axis == 0 and isinstance(val, Tensor) and len(val.dims) == len(l.init.dims) == 2 \
                            and val.dims[0].size() is l.ph.size() and val.dims[1].size() is not l.init.dims[1].size():
                        # grows along the columns
                        l.axis = 1
                        new = True
                    if l.kind == "L" and not l.grows and isinstance(val, tuple) and len(val) > 1 and val[0] is l.ph:
                        l.grows = True
                        new = True
                    if l.kind == "S" and l.sort is None:
                        l.sort = term(l.init).sort
                    if l.kind == "S":
                        if not (is_scalar(val) or is_bool(val) or (isinstance(val, Tensor) and val.rank == 0)):
                            try:
                                term(val)
                            except Unsupported:
                                l.kind = "X"
                                new = True
                                continue
                        s = term(val).sort
                        if s != l.sort:
                            if {s, l.sort} == {"I", "R"}:
                                if l.sort == "I":
                                    l.sort = "R"
                                    new = True
                            else:
                                l.kind = "X"
                                new = True
        if not new:
            break
    else:
        raise Unsupported("loop analysis did not stabilise")
    guessed = {}
    for l in locs.values():
        if getattr(l, "guess", None) is None or l.kind != "S":
            continue
        hy = list(CTX.hyps)
        if not CTX.prover.prove(eq(l.guess(ZERO), term(l.init)), hy, 10):
            return None
        for p in paths:
            if p.out[0] == "raise":
                continue
            v = p.writes.get((l.cont, l.key))
            v = l.guess(k) if v is None else term(v)
            if not CTX.prover.prove(eq(v, l.guess(add(k, 1))), hy + rng + list(p.guards), 20):
                return None
        guessed[l] = l.guess
    return paths, guessed


def conclude(I, k, n, rng, elem, target, body, env, member, locs, pass_, paths, guessed):
    isset = member is not None
    ok = [p for p in paths if p.out[0] != "raise"]
    if not ok:
        # every iteration raises
        if n is not None and CTX.decide(gt(n, 0)) is True:
            raise paths[0].out[1]
        raise Unsupported("loop body always raises")

    # ------------------------------------------------ scalar closed forms
    upd = {}
    for l in locs.values():
        if l.kind == "S" and l not in guessed:
            upd[l] = merge(ok, l, lambda: l.ph)
    closed = dict(guessed)          # loc -> function kk -> value
    if isset:
        for l in upd:
            l.kind = "X"
        upd = {}
    solve_scalars(I, locs, upd, closed, k, n, ok)

    # polynomials and growing arrays
    for l in list(locs.values()):
        if l.kind == "P":
            close_poly(l, ok, closed, k, n)

    # ------------------------------------------------ second pass with closed forms
    def install(l):
        if l in closed:
            return closed[l](k)
        if l.kind == "L" and l.grows:
            # one item per iteration (checked by close_list)
            l.ph = ("r", add(plen(l.init), k), (lambda e: OldItem(l, e)), False)
            return (l.ph,)
        return l.placeholder()
    paths = pass_(install, False)
    raises = [p for p in paths if p.out[0] == "raise"]
    ok = [p for p in paths if p.out[0] != "raise"]
    for p in raises:
        g = and_(*p.guards)
        if isset:
            bad = not_(g) if k not in fv(g) else None
            if bad is None:
                raise Unsupported("raise inside a loop over a set")
        else:
            bad = T.FORALL(ZERO, n, lambda v: not_(subst(g, {k: v})))
        if not I.choose(bad):
            raise p.out[1]
    if not ok:
        raise Abort2("loop")
    unknown = leaks(locs, ok, closed, env)
    finals = []
    for l in locs.values():
        # a location written only on raising paths disappears
        if l in closed:
            if not isset:
                finals.append((l, closed[l](n)))
            continue
        if l.kind == "T":
            finals.append((l, close_tensor(I, l, ok, k, n, rng, member)))
        elif l.kind == "L":
            finals.append((l, close_list(I, l, ok, k, n, rng, member)))
        elif l.kind == "D":
            finals.append((l, close_dict(I, l, ok, k, n, rng, member)))
        elif l.kind == "A":
            finals.append((l, close_array(I, l, ok, k, n, rng)))
        elif l in unknown:
            finals.append((l, Poison("set from array elements that the loop changes")))
        else:
            finals.append((l, close_last(I, l, ok, k, n, rng, isset)))
    for l, v in finals:
        if isinstance(l.cont, Obj):
            CTX.set(l.cont, l.key, v)
    return None


class Leak(Unsupported):
    pass


def leaks(locs, ok, closed, env):
    """what an iteration reads of an array that the loop changes must not reach another location;
    returns the local variables where it does (undetermined after the loop)"""
    marks = {}
    unknown = set()
    for l in locs.values():
        if l.kind == "T":
            marks["OLD#%d" % l.uid] = l
        elif l.kind == "A":
            marks["OLDA#%d" % l.uid] = l
        elif l.kind == "P":
            marks["PHP#%d" % l.uid] = l
    if not marks:
        return unknown
    from . import lib
    grown = {l.ph.size(): l for l in marks.values() if l.kind == "A"}

    def look(v, own, depth=0):
        if isinstance(v, Term):
            for h in heads(v):
                if h in marks and marks[h] is not own:
                    raise Leak("an iteration uses array elements that the loop changes")
            for x in fv(v):
                if x in grown and grown[x] is not own:
                    raise Leak("an iteration uses the size of an array that the loop extends")
        elif isinstance(v, (tuple, list)):
            for x in v:
                look(x, own, depth)
        elif isinstance(v, Union):
            for c, x in v.alts:
                look(c, own)
                look(x, own, depth)
        elif isinstance(v, PList) and depth < 3:
            look_list(v.v, own, depth)
        elif isinstance(v, Tensor):
            src = Tensor(v.kind, v.dims, v.f)
            for d in v.dims:
                look(d.size(), own)
            for s, h in lib.each_index(v.dims):
                with CTX.under(*h):
                    look(src.at(*s), own, depth)

    def look_list(c, own, depth=0):
        for p in c:
            if own is not None and p is own.ph:
                continue
            if p[0] == "i":
                look(p[1], own, depth + 1)
            elif own is None or own.kind != "L":
                k = fresh("lk", "I")
                with CTX.under(le(0, k), lt(k, p[1])):
                    look(p[2](k), own, depth + 1)
    for p in ok:
        for g in p.guards:
            for l in locs.values():
                if l in unknown:
                    continue
                try:
                    look(g, l)
                except Leak:
                    if l.kind not in "SX" or l in closed or l.cont is not env:
                        raise
                    unknown.add(l)
        hm = len(CTX.hyps)
        CTX.hyps.extend(p.guards)
        try:
            for (cont, key), v in p.writes.items():
                l = locs.get((cont, key))
                if l is None or l.kind == "T" or isinstance(v, Poison):
                    continue
                if l.kind == "L":
                    look_list(v, l)
                elif l.kind in "SXAP":
                    try:
                        look(v, l)
                    except Leak:
                        if l.kind not in "SX" or l in closed or l.cont is not env:
                            raise
                        unknown.add(l)
        finally:
            del CTX.hyps[hm:]
    return unknown


class Abort2(Unsupported):
    pass


def merge(paths, l, old):
    """value of location l at the end of the body, merged over paths"""
    r = None
    first = True
    for p in reversed(paths):
        v = p.writes.get((l.cont, l.key), None)
        if v is None and (l.cont, l.key) not in p.writes:
            v = old()
        if isinstance(v, Tensor) and l.kind == "S":
            v = term(v)
        r = v if first else vite(and_(*p.guards), v, r)
        first = False
    if l.kind == "S":
        r = term(r)
    return r


def solve_scalars(I, locs, upd, closed, k, n, ok):
    if not upd:
        return
    todo = dict(upd)
    res = {}       # ph -> closed at k (Term)
    phs = {l.ph: l for l in upd}
    while True:
        progress = False
        for l in list(todo):
            E = subst(todo[l], res)
            todo[l] = E
            others = [p for p in fv(E) if p in phs and p not in res and p is not l.ph]
            if others:
                continue
            init = term(l.init)
            f = None
            if l.ph not in fv(E):
                f = last_value(E, init, k)
            else:
                d = delta(E, l.ph)
                if d is not None:
                    f = summed(d, init, k)
                else:
                    q = ratio(E, l.ph)
                    if q is not None:
                        f = multiplied(q, init, k)
                    else:
                        m = maxed(E, l.ph)
                        if m is not None:
                            f = running_max(m, init, k)
            if f is not None:
                closed[l] = f
                if any(l.ph in fv(x) for x in todo.values() if x is not E):
                    res[l.ph] = f(k)
                del todo[l]
                progress = True
        if not progress:
            break
    if todo:
        recurrence(I, todo, closed, res, k, n)


def last_value(E, init, k):
    if k not in fv(E):
        def f(kk):
            kk = num(kk)
            return ite(eq(kk, 0), init, E) if init is not E else E
    else:
        def f(kk):
            kk = num(kk)
            return ite(eq(kk, 0), init, subst(E, {k: sub(kk, 1)}))

    def g(kk):
        if CTX.decide(ge(kk, 1)) is True:
            return subst(E, {k: sub(num(kk), 1)})
        if CTX.decide(le(kk, 0)) is True:
            return init
        return f(kk)
    return g


def delta(E, ph):
    """d with E == ph + d"""
    if E.op == "ite":
        a, b = delta(E.args[1], ph), delta(E.args[2], ph)
        if a is None or b is None or ph in fv(E.args[0]):
            return None
        return ite(E.args[0], a, b)
    d = sub(E, ph)
    if ph in fv(d):
        # ph + ite(c, ...) inside polynomials
        return None
    return d


def ratio(E, ph):
    if E.op == "ite":
        if ph in fv(E.args[0]):
            return None
        a, b = ratio(E.args[1], ph), ratio(E.args[2], ph)
        return None if a is None or b is None else ite(E.args[0], a, b)
    d = div(E, ph)
    return None if ph in fv(d) else d


def maxed(E, ph):
    """the value a with E = max(ph, a), if E has that form"""
    if E.op != "ite":
        return None
    c, a, b = E.args
    if b is ph and ph not in fv(a) and (c is lt(ph, a) or c is le(ph, a)):
        return a
    if a is ph and ph not in fv(b) and (c is lt(b, ph) or c is le(b, ph)):
        return b
    stack, seen = [E], set()
    while stack and len(seen) < 8:
        x = stack.pop()
        if x.op == "ite" and ph in fv(x):
            stack += x.args[1:]
        elif x is not ph and ph not in fv(x) and x not in seen:
            seen.add(x)
            if CTX.holds(eq(E, ite(lt(ph, x), x, ph))):
                return x
        elif x is not ph and ph in fv(x):
            return None
    return None


def summed(d, init, k):
    def f(kk):
        return add(init, app("SUM", (ZERO, num(kk), lam(k, d)), "I" if d.sort == "I" else "R"))
    return f


def multiplied(q, init, k):
    def f(kk):
        return mul(init, app("PROD", (ZERO, num(kk), lam(k, q)), "I" if q.sort == "I" else "R"))
    return f


def running_max(m, init, k):
    def f(kk):
        if is_num(num(kk), 0):
            return init
        g = app("MAXV", (num(kk), lam(k, m)), "I" if m.sort == "I" else "R")
        return ite(le(num(kk), 0), init, ite(lt(init, g), g, init))
    return f


def recurrence(I, todo, closed, res, k, n):
    """mutual recurrence: uninterpreted functions of the iteration, with base and step facts
    and inductively proved invariants"""
    ls = list(todo)
    u = uid()
    head = {l: "REC#%d.%d" % (u, i) for i, l in enumerate(ls)}
    at = lambda l, e: app(head[l], (e,), l.sort)
    step = {l: subst(todo[l], {m.ph: at(m, k) for m in ls}) for l in ls}
    phs = {m.ph: m for m in ls}
    inits = {l: term(l.init) for l in ls}
    for l in ls:
        for p in fv(todo[l]):
            if p.data.startswith("ph") and p not in phs and p not in res:
                pass

    # candidate invariants over (placeholders, k)
    cands = []
    for hint in I.loop_hints:
        cands += hint(I, [(l.ph, l.name()) for l in ls], k)
    proved = None
    best = []
    for grp in cands:
        inv = list(grp["core"])
        if not check_inductive(inv, ls, inits, todo, k, n):
            continue
        extra = []
        for c in grp.get("extra", []):
            if check_inductive([c], ls, inits, todo, k, n, inv + extra):
                extra.append(c)
        eqs = {}
        more = True
        while more:
            more = False
            for ph, fs in grp.get("values", {}).items():
                if ph in eqs:
                    continue
                for f in fs:
                    m = {p: x for p, x in eqs.items()}
                    upd2 = {l: subst(t, m) for l, t in todo.items()}
                    if check_inductive([eq(ph, f)], ls, inits, upd2, k, n, inv + extra + [eq(p, x) for p, x in eqs.items()]):
                        eqs[ph] = f
                        more = True
                        break
        score = (len(eqs), len(extra))
        if proved is None or score > proved[0]:
            proved = (score, inv + extra, eqs)
    invs, eqs = (proved[1], proved[2]) if proved else ([], {})
    th = CTX.prover.th

    def tr(t, e):
        m = {l.ph: at(l, e) for l in ls}
        m[k] = e
        return subst(t, m)

    def fact(l):
        def f(args, t, rnd=0):
            e = args[0]
            out = [implies(eq(e, 0), eq(t, inits[l]))]
            g = and_(le(0, e), le(e, n))
            for i in invs:
                out.append(implies(g, tr(i, e)))
            for ph, x in eqs.items():
                if phs[ph] is l:
                    out.append(implies(g, eq(t, tr(x, e))))
            if rnd < 1:
                out.append(implies(and_(le(0, e), lt(e, n)), eq(at(l, add(e, 1)), subst(step[l], {k: e}))))
            return out
        return f
    for l in ls:
        th.on(head[l], fact(l))
        x = eqs.get(l.ph)
        if x is not None:
            closed[l] = (lambda kk, x=x: tr(x, num(kk)))
        else:
            closed[l] = (lambda kk, l=l: at(l, num(kk)))


def check_inductive(cs, ls, inits, upd, k, n, given=()):
    P = CTX.prover
    i0 = {l.ph: inits[l] for l in ls}
    i0[k] = ZERO
    nxt = {l.ph: upd[l] for l in ls}
    nxt[k] = add(k, 1)
    hy = list(CTX.hyps)
    for c in cs:
        if not P.prove(subst(c, i0), hy + [lt(0, n)], 10):
            if P.debug:
                print("init fails", show(c))
            return False
    for c in cs:
        if not P.prove(subst(c, nxt), hy + [le(0, k), lt(k, n)] + list(cs) + list(given), 20):
            if P.debug:
                print("step fails", show(c))
            return False
    return True


def close_poly(l, ok, closed, k, n):
    t = fresh("t", "R")
    head = "PHP#%d" % l.uid
    v = merge(ok, l, lambda: PolyV(lambda s: app(head, (s,), "R")))
    E = v.fn(t)
    old = app(head, (t,), "R")
    x = var("phx%d" % l.uid, "R")
    E2 = subst(E, {old: x})
    if head in heads(E2):
        raise Unsupported("polynomial recurrence")
    init = l.init
    if x not in fv(E2):
        closed[l] = lambda kk: PolyV(lambda s: last_value(subst(E2, {t: s}), init.fn(s), k)(kk))
        return
    d = delta(E2, x)
    if d is not None:
        closed[l] = lambda kk: PolyV(lambda s: summed(subst(d, {t: s}), init.fn(s), k)(kk))
        return
    q = ratio(E2, x)
    if q is not None:
        closed[l] = lambda kk: PolyV(lambda s: multiplied(subst(q, {t: s}), init.fn(s), k)(kk))
        return
    raise Unsupported("polynomial recurrence")


def leaves(E, cond, out):
    if E.op == "ite":
        leaves(E.args[1], and_(cond, E.args[0]), out)
        leaves(E.args[2], and_(cond, not_(E.args[0])), out)
    else:
        out.append((cond, E))


def lift_ite(E, depth=0):
    """pull ite out of polynomials (bounded)"""
    if E.op == "ite":
        return ite(E.args[0], lift_ite(E.args[1], depth), lift_ite(E.args[2], depth))
    if E.op == "poly" and depth < 4:
        for m, c in E.data:
            for a, e in m:
                if a.op == "ite":
                    return ite(a.args[0], lift_ite(subst(E, {a: a.args[1]}), depth + 1), lift_ite(subst(E, {a: a.args[2]}), depth + 1))
    return E


def solve_index(g, k):
    """an equation in the conjunction g that determines k"""
    for c in (g.args if g.op == "and" else (g,)):
        if c.op == "eq0":
            d = T._pd(c.args[0])
            co = d.get(((k, 1),))
            if co in (1, -1):
                rest = mk_poly({m: -x / co for m, x in d.items() if m != ((k, 1),)})
                if k not in fv(rest):
                    return rest
    return None


def close_tensor(I, l, ok, k, n, rng, member):
    cont = l.cont
    if not all(isinstance(d, DL) for d in cont.dims):
        raise Unsupported("element stores into a structured array inside a loop")
    r = [fresh("r", "I") for _ in cont.dims]
    hm = len(CTX.hyps)
    CTX.hyps.extend(list(rng) + [c for x, d in zip(r, cont.dims) for c in (le(0, x), lt(x, d.n))])
    head = "OLD#%d" % l.uid
    old = app(head, r, "R")
    try:
        E = None
        for p in reversed(ok):
            f = p.writes.get((cont, "f"))
            m = len(CTX.hyps)
            CTX.hyps.extend(p.guards)
            v = term(f(*r)) if f is not None else old
            del CTX.hyps[m:]
            E = v if E is None else ite(and_(*p.guards), v, E)
        E = lift_ite(E)
        ls = []
        leaves(E, TRUE, ls)
        keep, adds, sets = [], [], []
        init = l.init
        ls = [(optimistic(l, c, head, c) if head in heads(c) else c, v) for c, v in ls]
        for c, v in ls:
            if v is old:
                continue
            for a in atoms_of(v, lambda t: t.op == "app" and t.data == head):
                if a is not old:
                    with CTX.under(c):
                        if all(x is y or CTX.holds(eq(x, y)) for x, y in zip(a.args, r)):
                            v = subst(v, {a: old})
            d = sub(v, old)
            if head not in heads(d):
                adds.append((c, d))
                continue
            if head in heads(v):
                v = optimistic(l, v, head, c)
            sets.append((c, v))
        if adds and sets:
            raise Unsupported("mixed accumulation and assignment of array elements")
        if not adds and not sets:
            return init
    finally:
        del CTX.hyps[hm:]
    if member is not None:
        raise Unsupported("array stores in a loop over a set")
    if adds:
        D = ZERO
        for c, d in adds:
            D = add(D, ite(c, d, ZERO))

        def content(*s):
            m = dict(zip(r, s))
            b = subst(D, m)
            return add(init(*s), app("SUM", (ZERO, n, lam(k, b)), "R"))
        return content
    G = or_(*[c for c, v in sets])
    V = None
    for c, v in reversed(sets):
        V = v if V is None else ite(c, v, V)
    e = solve_all(sets, k)
    if e is not None:
        def content(*s):
            m = dict(zip(r, s))
            kk = subst(e, m)
            m2 = dict(m)
            m2[k] = kk
            g = and_(le(0, kk), lt(kk, n), subst(G, m2))
            v = subst(V, m2)
            dd = CTX.decide(g)
            if dd is True:
                return v
            if dd is False:
                return init(*s)
            return ite(g, v, init(*s))
        chk_reads(I, l, G, r, k, n, rng)
        return content
    W = "LW#%d" % l.uid
    th = CTX.prover.th

    def facts(args, t):
        m = dict(zip(r, args))
        out = [le(-1, t), lt(t, n)]
        m2 = dict(m)
        m2[k] = t
        out.append(implies(ge(t, 0), subst(G, m2)))
        g = subst(G, m)
        out.append(T.FORALL(add(t, 1), n, lambda v: not_(subst(g, {k: v}))))
        return out
    th.on(W, facts)

    def content(*s):
        w = app(W, s, "I")
        m = dict(zip(r, s))
        m[k] = w
        return ite(ge(w, 0), subst(V, m), init(*s))
    chk_reads(I, l, G, r, k, n, rng)
    return content


def solve_all(sets, k):
    es = {solve_index(c, k) for c, v in sets}
    if len(es) == 1:
        return es.pop()
    return None


def optimistic(l, v, head, cond):
    """reads of other elements see the content before the loop (checked by chk_reads)"""
    m = {a: term(l.init(*a.args)) for a in atoms_of(v, lambda t: t.op == "app" and t.data == head)}
    for a in m:
        l.reads.append((subst(cond, m), a.args))
    v = subst(v, m)
    if head in heads(v):
        raise Unsupported("loop-carried array elements")
    return v


def chk_reads(I, l, G, r, k, n, rng):
    for cond, args in l.reads:
        k2 = fresh("k", "I")
        m = dict(zip(r, args))
        m[k] = k2
        CTX.oblige("loop-carried read", implies(and_(cond, *rng, le(0, k2), lt(k2, k)), not_(subst(G, m))))


def close_list(I, l, ok, k, n, rng, member):
    init = l.init
    # appended items
    appended = []
    for p in ok:
        v = p.writes.get((l.cont, "v"))
        if v is None:
            v = (l.ph,)
        appended.append(v)
    if any(v[0][:2] == ("r", l.ph[1]) and len(v) > 1 and v[0] is l.ph for v in appended):
        if not all(len(v) == 2 and v[0] is l.ph and v[1][0] == "i" for v in appended):
            raise Unsupported("appending a varying number of items in a loop")
        val = None
        for p, v in reversed(list(zip(ok, appended))):
            val = v[1][1] if val is None else vite(and_(*p.guards), v[1][1], val)
        hy = list(CTX.hyps) + list(rng)
        return tuple(init) + (("r", n, (lambda e: vsubst(val, {k: e}, hy)), False if escape(val) else Fresh(l.cont)),)
    if l.grows:
        raise Unsupported("appending on some iterations only")
    ln = l.ph[1]
    e = fresh("e", "I")
    hm = len(CTX.hyps)
    CTX.hyps.extend(list(rng) + [le(0, e), lt(e, ln)])
    entries = []
    try:
        for p in ok:
            v = p.writes.get((l.cont, "v"))
            if v is None:
                continue
            if CTX.decide(eq(plen(v), ln)) is not True:
                raise Unsupported("list length changes in a loop")
            m = len(CTX.hyps)
            CTX.hyps.extend(p.guards)
            x = pitem(None, v, e)
            del CTX.hyps[m:]
            pg = and_(*p.guards)
            alts = x.alts if isinstance(x, Union) else [(TRUE, x)]
            for c, y in alts:
                if isinstance(y, OldItem) and y.loc is l:
                    if y.idx is not e:
                        raise Unsupported("list elements moved inside a loop")
                    continue
                if and_(pg, c) is not FALSE:
                    entries.append((and_(pg, c), y, list(p.guards)))
    finally:
        del CTX.hyps[hm:]
    if not entries:
        return init
    if member is not None:
        raise Unsupported("list stores in a loop over a set")
    hy0 = list(CTX.hyps) + list(rng)
    sol = {solve_index(c, k) for c, y, g in entries}
    if None in sol:
        # stores at the iteration's own index (single iteration)
        own = lambda c: CTX.prover.prove(eq(e, k), list(CTX.hyps) + list(rng) + [le(0, e), lt(e, ln), c], 10)
        sol = {x if x is not None else e if own(c) else None for x, c in [(solve_index(c, k), c) for c, y, g in entries]}
    if len(sol) != 1 or None in sol:
        raise Unsupported("list stores at an index that does not determine the iteration: %s" % "; ".join(show(c)[:300] for c, y, g in entries))
    idx = sol.pop()
    G = or_(*[c for c, y, g in entries])
    for cond, args in l.reads:
        k2 = fresh("k", "I")
        CTX.oblige("loop-carried read", implies(and_(cond, *rng, le(0, k2), lt(k2, k)), not_(subst(G, {k: k2, e: args[0]}))))

    def fn(x):
        x = num(x)
        kk = subst(idx, {e: x})
        m = {k: kk, e: x}
        r = None
        inr = and_(le(0, kk), lt(kk, n))
        out = []
        rest = TRUE
        for c, y, g in entries:
            gg = and_(inr, subst(c, m))
            with CTX.under(rest):
                d = CTX.decide(gg)
            if d is False:
                continue
            out.append((gg, vsubst(y, m, hy0 + g + [eq(k, subst(idx, {}))])))
            if d is True:
                rest = FALSE
                break
            rest = and_(rest, not_(gg))
        if rest is not FALSE:
            with CTX.under(rest):
                r = pitem(None, init, x)
        else:
            r = out.pop()[1]
        for gg, y in reversed(out):
            r = vite(gg, y, r)
        return r
    own = Fresh(l.cont)
    for c, y, g in entries:
        if escape(y, (l.cont, e)):
            own = False
    return (("r", ln, fn, own),)


def close_dict(I, l, ok, k, n, rng, member):
    init = dict_content(l.init)
    ents = []
    for p in ok:
        v = p.writes.get((l.cont, "v"))
        if v is None:
            raise Unsupported("conditional dictionary store in a loop")
        ents.append((p, dict_content(v)))
    tags = set()
    for p, v in ents:
        for (tag, key, val) in getattr(v, "log", []):
            if not any(tag == t0 and key is k0 for t0, k0, _ in getattr(init, "log", [])):
                tags.add((tag, key))
    if len(tags) != 1:
        raise Unsupported("dictionary stores with several keys in a loop")
    tag, key = tags.pop()
    val = None
    for p, v in reversed(ents):
        hm = len(CTX.hyps)
        CTX.hyps.extend(list(rng) + p.guards)
        y = v.get(tag, key)
        del CTX.hyps[hm:]
        val = y if val is None else vite(and_(*p.guards), y, val)
    hy0 = list(CTX.hyps) + list(rng)
    from . import lib
    hy1 = list(CTX.hyps)
    for tg, t, hy in list(getattr(l, "dreads", [])):
        if tg == tag:
            k2 = fresh("k", "I")
            other = [le(0, k2), lt(k2, k)] if member is None else [member(k2), ne(k2, k)]
            CTX.hyps = list(hy) + other
            try:
                CTX.oblige("loop-carried read", ne(subst(key, {k: k2}), t))
            finally:
                CTX.hyps = hy1
    if member is not None:
        if key is not k:
            raise Unsupported("dictionary key in a loop over a set")
        inn = member
        value = lambda x: vsubst(val, {k: x}, hy0)
    else:
        sol = solve_index(eq(key, var("%x", "I")), k) if key.sort == "I" else None
        if sol is not None:
            x0 = var("%x", "I")
            inn = lambda x: (lambda kk: and_(le(0, kk), lt(kk, n)))(subst(sol, {x0: x}))
            value = lambda x: vsubst(val, {k: subst(sol, {x0: x})}, hy0)
        else:
            inn = lambda x: EXISTSc(n, lambda i: eq(subst(key, {k: i}), x))
            wit = "KW#%d" % l.uid

            def facts(args, t):
                g = inn(args[0])
                return [implies(g, and_(le(0, t), lt(t, n), eq(subst(key, {k: t}), args[0])))]
            CTX.prover.th.on(wit, facts)
            # the value of the last iteration with this key; all of them must agree
            k2 = fresh("k", "I")

            def value(x):
                # value depends on k only through the key
                return vsubst(vsubst(val, {key: x}, hy0), {k: app(wit, (x,), "I")}, hy0)
    return lib.symd_add(init, tag, inn, value)


def close_array(I, l, ok, k, n, rng):
    """x = concatenate((x, piece)): grows along one dimension"""
    v = merge(ok, l, lambda: None)
    init, ax = l.init, l.axis
    if isinstance(v, Tensor) and len(v.dims) == len(init.dims) and isinstance(v.dims[ax], DC) and len(v.dims[ax].parts) >= 2 \
            and v.dims[ax].parts[0] is l.ph:
        parts = v.dims[ax].parts[1:]
        piece = parts[0] if len(parts) == 1 else DC(parts)
        head = "OLDA#%d" % l.uid
        hy0 = list(CTX.hyps) + list(rng)
        from . import lib
        grow, mp = lib.simp_dim(DB(n, lambda e: dim_subst(piece, {k: e})))
        dims = list(init.dims)
        dims[ax] = DC([init.dims[ax], grow])
        maps = [lib.remap(b, a) if i != ax else None for i, (a, b) in enumerate(zip(init.dims, v.dims))]

        def f(*s):
            _, p, x = s[ax]
            if p == 0:
                return init.f(*(s[:ax] + (x,) + s[ax + 1:]))
            _, e, y = mp(x)
            idx = ("c", 1, y) if len(parts) == 1 else ("c", 1 + y[1], y[2])
            j = [idx if i == ax else m(c) for i, (m, c) in enumerate(zip(maps, s))]
            with CTX.under(*hy0, eq(k, e)):
                r = v.f(*j)
            r = subst(r, {k: e})
            if head in heads(r):
                raise Unsupported("array recurrence")
            return r
        return Tensor(v.kind, tuple(dims), f)
    return close_last(I, l, ok, k, n, rng, False)


def close_last(I, l, ok, k, n, rng, isset):
    if isset or n is None:
        return Poison("value after a loop over a set")
    if not all((l.cont, l.key) in p.writes for p in ok):
        return Poison("assigned on some iterations only")
    v = merge(ok, l, lambda: None)
    if CTX.decide(ge(n, 1)) is not True:
        return Poison("possibly unassigned after the loop")
    hy0 = list(CTX.hyps) + list(rng)
    try:
        return vsubst(v, {k: sub(n, 1)}, hy0)
    except Unsupported:
        return Poison("value after the loop")


# ------------------------------------------------------------ comprehensions
def comprehension(I, it, g, elt, cenv):
    n = it.n
    if CTX.decide(le(n, 0)) is True:
        return PList([])
    k = fresh("k", "I")
    CTX.loopvars.add(k)
    CTX.birth[k] = CTX.serial
    rng = [le(0, k), lt(k, n)]
    hm = len(CTX.hyps)
    CTX.hyps.extend(rng)
    try:
        def run():
            I.assign(g.target, it.fn(k), cenv)
            keep = TRUE
            for c in g.ifs:
                t = I.truth(I.eval(c, cenv))
                keep = and_(keep, t if isinstance(t, Term) else (TRUE if t else FALSE))
            if keep is FALSE:
                return (FALSE, None)
            with CTX.under(keep):
                return (keep, I.eval(elt, cenv))
        paths = I.explore(run)
    finally:
        del CTX.hyps[hm:]
    raises = [p for p in paths if p.out[0] == "raise"]
    paths = [p for p in paths if p.out[0] != "raise"]
    for p in raises:
        gg = and_(*p.guards)
        if not I.choose(T.FORALL(ZERO, n, lambda v: not_(subst(gg, {k: v})))):
            raise p.out[1]
    for p in paths:
        for (cont, key) in p.writes:
            if cont is not cenv:
                raise Unsupported("side effect in a comprehension")
    hy0 = list(CTX.hyps) + rng
    if g.ifs:
        keep = or_(*[and_(*(p.guards + [p.out[1][0]])) for p in paths])
        if CTX.decide(T.FORALL(ZERO, n, lambda v: subst(keep, {k: v}))) is not True:
            return filtered(I, n, k, keep, paths, hy0)
    val = None
    for p in reversed(paths):
        x = p.out[1][1]
        val = x if val is None else vite(and_(*p.guards), x, val)
    return PList(n=n, fn=lambda e: vsubst(val, {k: e}, hy0), fresh=not escape(val))


def filtered(I, n, k, keep, paths, hy0):
    """order preserving selection"""
    l = lam(k, keep)
    m = nsel(n, l)
    val = None
    for p in reversed(paths):
        x = p.out[1][1]
        val = x if val is None else vite(and_(*p.guards), x, val)
    hy = hy0 + [keep]
    return PList(n=m, fn=lambda e: vsubst(val, {k: fsel(n, l, e)}, hy), fresh=not escape(val))
