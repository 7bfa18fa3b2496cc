"""Symbolic interpreter for the Python subset used by /repo/mpopt/mpopt.py.

The source text is parsed on every run; nothing of it is copied here."""
import ast
from fractions import Fraction
from .terms import *
from . import terms as T
from .values import *
from .values import _MISSING


class Env(Obj):
    def __init__(self, parent, locals_=None, cls=None):
        Obj.__init__(self)
        self.parent = parent
        self.locals_ = locals_ or set()
        self.cls = cls
        self.gone = ()           # variables of a symbolic comprehension


class ClassInfo(Obj):
    def __init__(self, name, node, bases):
        Obj.__init__(self)
        self.name, self.node, self.bases = name, node, bases
        self.methods = {}
        self.attrs = {}


class IterV:
    """symbolic iterable of known length: n, k -> value"""

    def __init__(self, n, fn):
        self.n, self.fn = num(n), fn


class Once(Obj):
    """an iterator: its elements can be taken only once"""

    def __init__(self, it, names=None):
        Obj.__init__(self)
        self.it = it
        self.d["spent"] = False
        self.names = names           # of a generator expression: what it reads when it is consumed
        self.mark = len(CTX.trail)
        self.reads = None            # of a generator function: attribute names and objects it may read while it runs
        self.gens = list(CTX.generators)


class Yields(ast.NodeTransformer):
    """body of a generator function with its values collected in a list"""

    @staticmethod
    def own(node):
        out, todo = [], list(node.body)
        while todo:
            x = todo.pop()
            if isinstance(x, (ast.Yield, ast.YieldFrom)):
                out.append(x)
            if not isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                todo.extend(ast.iter_child_nodes(x))
        return out

    def body(self, node):
        import copy
        return [self.visit(copy.deepcopy(x)) for x in node.body]

    def visit_FunctionDef(self, n):
        return n

    visit_Lambda = visit_ClassDef = visit_FunctionDef

    def visit_Expr(self, n):
        v = n.value
        if isinstance(v, (ast.Yield, ast.YieldFrom)):
            arg = self.visit(v.value) if v.value is not None else ast.Constant(value=None)
            f = ast.Attribute(value=ast.Name(id=".yield", ctx=ast.Load()), attr="append" if isinstance(v, ast.Yield) else "extend", ctx=ast.Load())
            return ast.fix_missing_locations(ast.copy_location(ast.Expr(value=ast.Call(func=f, args=[arg], keywords=[])), n))
        return self.generic_visit(n)

    def visit_Yield(self, n):
        raise Unsupported("value of a yield expression")

    visit_YieldFrom = visit_Yield

    def visit_Return(self, n):
        if n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            raise Unsupported("value returned by a generator")
        return n


class SuperV:
    def __init__(self, inst, cls):
        self.inst, self.cls = inst, cls


class Path:
    __slots__ = ("guards", "out", "writes")


class Abort(Exception):
    """path abandoned (contradictory hypotheses)"""


def current(v):
    """a view is read only while its array is as it was when the view was made"""
    if isinstance(v, Obj) and "stale" in v.d and not isinstance(v, Inst):
        raise Unsupported("a view of an array that was changed since")
    return v


def assigned_names(node):
    out = set()

    class V(ast.NodeVisitor):
        def visit_FunctionDef(self, n):
            out.add(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            for g in n.generators:
                self.visit(g.iter)

        visit_GeneratorExp = visit_SetComp = visit_DictComp = visit_ListComp

        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)

        def visit_Import(self, n):
            for a in n.names:
                out.add((a.asname or a.name).split(".")[0])

        def visit_ImportFrom(self, n):
            for a in n.names:
                out.add(a.asname or a.name)
    for st in (node.body if isinstance(node.body, list) else []):
        V().visit(st)
    return out


class Interp:
    def __init__(self, src, filename="mpopt.py"):
        self.src = src
        self.tree = ast.parse(src, filename)
        self.glob = Env(None)
        self.classes = {}
        self.contracts = {}          # qualname -> Contract
        self.regions = []
        self.generic = []
        self.verifying = None        # qualname whose body is being verified
        self.depth = 0
        self.dry = 0
        self.loop_hints = []
        self.loop_invariants = []    # LoopInvariant objects of the unit
        self.guess_hints = []    # closed forms tried for integer cursors
        self.assumed = set()         # contracts applied at call sites
        self.inlined = set()
        self.stmt_line = 0
        self.load_module()

    # ------------------------------------------------------------- module
    def load_module(self):
        from . import lib
        self.lib = lib
        g = self.glob.d
        for st in self.tree.body:
            self.load_stmt(st)
        for b in ("len range enumerate zip sum max min abs int float round print list tuple set dict bool str sorted reversed hasattr "
                  "getattr isinstance super any all map filter type ValueError TypeError RuntimeError Exception AssertionError KeyError "
                  "IndexError NotImplementedError divmod iter next slice object staticmethod classmethod property frozenset").split():
            g.setdefault(b, LibFn(b))
        g.setdefault("True", True)
        g.setdefault("False", False)
        g.setdefault("None", None)
        g.setdefault("NotImplemented", Opaque("NotImplemented"))
        g.setdefault("__name__", "mpopt")

    def load_stmt(self, st):
        g = self.glob.d
        if isinstance(st, ast.Import):
            for a in st.names:
                self.bind_import(self.glob, a)
        elif isinstance(st, ast.ImportFrom):
            for a in st.names:
                if st.module == "typing":
                    g[a.asname or a.name] = False if a.name == "TYPE_CHECKING" else Opaque("typing." + a.name)
                else:
                    g[a.asname or a.name] = LibFn("%s.%s" % (self.modname(st.module), a.name))
        elif isinstance(st, ast.ClassDef):
            bases = [b.id for b in st.bases if isinstance(b, ast.Name)]
            c = ClassInfo(st.name, st, [b for b in bases if b in self.classes])
            self.classes[st.name] = c
            for x in st.body:
                if isinstance(x, ast.FunctionDef):
                    c.methods[x.name] = x
                elif isinstance(x, ast.Assign):
                    for t in x.targets:
                        if isinstance(t, ast.Name):
                            c.attrs[self.mangle(t.id, st.name)] = x.value
                elif isinstance(x, ast.AnnAssign) and x.value is not None:
                    c.attrs[self.mangle(x.target.id, st.name)] = x.value
            g[st.name] = ClassVal(st.name)
        elif isinstance(st, ast.FunctionDef):
            g[st.name] = FuncVal(st, self.glob, None, st.name, None)
        elif isinstance(st, (ast.Assign, ast.AnnAssign)):
            try:
                v = self.eval(st.value, self.glob)
            except (Unsupported, PyRaise) as e:
                v = Poison("module level: %s" % e)
            for t in (st.targets if isinstance(st, ast.Assign) else [st.target]):
                if isinstance(t, ast.Name):
                    g[t.id] = v
        elif isinstance(st, ast.Try):
            for x in st.body:
                self.load_stmt(x)
        elif isinstance(st, ast.If):
            pass

    MODS = {"numpy": "np", "casadi": "ca", "matplotlib.pyplot": "plt", "matplotlib": "plt", "scipy": "scipy",
            "scipy.special": "scipy.special"}

    def modname(self, m):
        return self.MODS.get(m, m)

    def bind_import(self, env, a):
        if a.asname:
            CTX.set(env, a.asname, Module(self.modname(a.name)))
        else:
            top = a.name.split(".")[0]
            CTX.set(env, top, Module(self.modname(top)))

    @staticmethod
    def mangle(name, cls):
        if cls and name.startswith("__") and not name.endswith("__"):
            return "_" + cls.lstrip("_") + name
        return name

    # ------------------------------------------------------------- classes
    def mro(self, name):
        out = [name]
        for b in self.classes[name].bases:
            out += [x for x in self.mro(b) if x not in out]
        return out

    def find_method(self, cls, name, after=None):
        m = self.mro(cls)
        if after is not None:
            m = m[m.index(after) + 1:]
        for c in m:
            if name in self.classes[c].methods:
                return c, self.classes[c].methods[name]
        return None, None

    def class_attr(self, cls, name):
        for c in self.mro(cls):
            ci = self.classes[c]
            if name in ci.d:
                return ci.d[name]
            if name in ci.attrs:
                v = self.eval(ci.attrs[name], Env(self.glob, set(), c))
                ci.d[name] = v
                return v
        return _MISSING

    def set_class_attr(self, cls, name, v):
        self.classes[cls].d[name] = v

    def method_value(self, cls_of, name, node, inst, cls):
        fv = FuncVal(node, self.glob, cls_of, cls_of + "." + name)
        decs = [d.id for d in node.decorator_list if isinstance(d, ast.Name)]
        if "staticmethod" in decs:
            return fv
        if "classmethod" in decs:
            return Bound(fv, ClassVal(cls))
        if "property" in decs:
            return self.call(Bound(fv, inst), [], {})
        if node.decorator_list and not decs:
            raise Unsupported("decorator on %s" % name)
        if inst is None:
            return fv
        return Bound(fv, inst)

    def getattr(self, v, name, cls=None):
        name = self.mangle(name, cls)
        if isinstance(v, Inst):
            if name in v.d:
                return v.d[name]
            c, m = self.find_method(v.cls, name)
            if m is not None:
                return self.method_value(c, name, m, v, v.cls)
            a = self.class_attr(v.cls, name)
            if a is not _MISSING:
                return a
            raise PyRaise("AttributeError: %s.%s" % (v.cls, name))
        if isinstance(v, ClassVal):
            if name == "__name__":
                return v.name
            c, m = self.find_method(v.name, name)
            if m is not None:
                return self.method_value(c, name, m, None, v.name)
            a = self.class_attr(v.name, name)
            if a is not _MISSING:
                return a
            raise PyRaise("AttributeError: %s.%s" % (v.name, name))
        if isinstance(v, SuperV):
            c, m = self.find_method(v.inst.cls if isinstance(v.inst, Inst) else v.inst.name, name, after=v.cls)
            if m is None:
                raise PyRaise("AttributeError: super().%s" % name)
            return self.method_value(c, name, m, v.inst if isinstance(v.inst, Inst) else None, v.cls)
        if isinstance(v, Union):
            return self.getattr(self.force(v), name)
        return self.lib.getattr_(self, v, name)

    def setattr(self, v, name, val, cls=None):
        name = self.mangle(name, cls)
        if isinstance(v, Inst):
            CTX.set(v, name, val)
            return
        if isinstance(v, ClassVal):
            CTX.set(self.classes[v.name], name, val)
            return
        raise Unsupported("attribute assignment on %r" % (v,))

    # ------------------------------------------------------------- regions
    root_hyps = ()

    def explore(self, run, limit=64, replay=False):
        """all paths of run(); returns [Path]; side effects undone.
        replay: paths with a common prefix name the symbols of the prefix alike (so what was decided there
        need not be decided again); only for paths whose results are not combined"""
        first = last = T._fresh[0]
        out = []
        pending = [[]]
        start = CTX.serial
        if not self.regions:
            self.root_hyps = list(CTX.hyps)
        while pending:
            if len(out) > limit:
                raise Unsupported("too many paths")
            ch = pending.pop()
            mark = len(CTX.trail)
            hm = len(CTX.hyps)
            if replay:
                last = max(last, T._fresh[0])
                T._fresh[0] = first
            reg = {"ch": ch, "i": 0, "pending": pending, "guards": []}
            self.regions.append(reg)
            p = Path()
            try:
                try:
                    p.out = ("ok", run())
                except PyRaise as e:
                    p.out = ("raise", e)
                except Abort:
                    p.out = None
                p.guards = list(reg["guards"])
                p.writes = self.writes_since(mark, start)
            finally:
                self.regions.pop()
                # objects made on this path keep their contents
                made = {(c, k): c.d.get(k, _MISSING) for c, k, old in CTX.trail[mark:] if c.serial > start}
                CTX.undo(mark)
                for (c, k), v in made.items():
                    if v is _MISSING:
                        c.d.pop(k, None)
                    else:
                        c.d[k] = v
                del CTX.hyps[hm:]
            if p.out is not None:
                out.append(p)
        T._fresh[0] = max(last, T._fresh[0])
        return out

    def writes_since(self, mark, start):
        w = {}
        for cont, key, old in CTX.trail[mark:]:
            if cont.serial <= start and key not in ("seen", "kids"):
                w[(cont, key)] = cont.d.get(key, _MISSING)
        return w

    def choose(self, c):
        if isinstance(c, bool):
            return c
        d = CTX.decide(c)
        if d is not None:
            return d
        if not self.regions or CTX.lazy:
            raise Unsupported("undecided condition in a lazy context: %s" % show(c)[:200])
        if self.generic:
            v = fv(c)
            for k, depth in self.generic:
                if k in v and len(self.regions) <= depth:
                    raise Unsupported("a path chosen on a generic index: %s" % show(c)[:200])
        reg = self.regions[-1]
        i = reg["i"]
        reg["i"] += 1
        if i < len(reg["ch"]):
            r = reg["ch"][i]
        else:
            r = True
            reg["pending"].append(reg["ch"][:i] + [False])
            reg["ch"] = reg["ch"][:i] + [True]
        g = c if r else not_(c)
        reg["guards"].append(g)
        CTX.hyps.append(g)
        return r

    def force(self, v):
        while isinstance(v, Union):
            r = None
            for c, x in v.alts[:-1]:
                if self.choose(c):
                    r = x
                    break
            else:
                c, x = v.alts[-1]
                if c is not TRUE and not CTX.lazy:
                    if CTX.decide(c) is False:
                        raise Abort()
                r = x
            v = r
        if isinstance(v, Poison):
            from . import loops
            if isinstance(v, loops.OldItem):
                # element before the loop; checked not to be written by an earlier iteration
                if v.loc.grows and not CTX.holds(lt(num(v.idx), plen(v.loc.init))):
                    raise Unsupported("a loop reads the items it appends")
                v.loc.reads.append((TRUE, (num(v.idx),)))
                return self.force(pitem(v.loc.cont, v.loc.init, num(v.idx)))
            raise Unsupported("use of an undetermined value: %s" % v.why)
        return v

    # ------------------------------------------------------------- statements
    def exec_block(self, body, env):
        for st in body:
            r = self.exec(st, env)
            if r is not None:
                return r
        return None

    def exec(self, st, env):
        self.stmt_line = getattr(st, "lineno", self.stmt_line)
        m = getattr(self, "x_" + type(st).__name__, None)
        if m is None:
            raise Unsupported("statement %s (line %d)" % (type(st).__name__, st.lineno))
        return m(st, env)

    def x_Pass(self, st, env):
        return None

    def x_Global(self, st, env):
        raise Unsupported("global statement")

    def x_Expr(self, st, env):
        if isinstance(st.value, ast.Constant):
            return None
        self.eval(st.value, env)

    def x_Import(self, st, env):
        for a in st.names:
            self.bind_import(env, a)

    def x_ImportFrom(self, st, env):
        for a in st.names:
            CTX.set(env, a.asname or a.name, LibFn("%s.%s" % (self.modname(st.module), a.name)))

    def x_Assign(self, st, env):
        v = self.eval(st.value, env)
        for t in st.targets:
            self.assign(t, v, env)

    def x_AnnAssign(self, st, env):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, env), env)

    def x_AugAssign(self, st, env):
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, env)
            v = self.eval(st.value, env)
            if isinstance(cur, PList) and isinstance(st.op, ast.Add):
                self.lib.list_extend(self, cur, v)
                return
            if isinstance(cur, Tensor) and cur.kind == "np" and cur.rank:
                if cur.view:
                    raise Unsupported("in-place operation on an array view")
                r = self.lib.binop(self, type(st.op).__name__, cur, v)
                r = self.lib.broadcast_to(self, r, cur.dims)
                CTX.set(cur, "f", r.f)
                self.touch(cur)
                return
            self.assign(t, self.lib.binop(self, type(st.op).__name__, cur, v), env)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            cur = self.getattr(o, t.attr, env.cls)
            v = self.eval(st.value, env)
            if isinstance(cur, PList) and isinstance(st.op, ast.Add):
                self.lib.list_extend(self, cur, v)
                return
            if isinstance(cur, Tensor) and cur.kind == "np" and cur.rank:
                if cur.view:
                    raise Unsupported("in-place operation on an array view")
                r = self.lib.broadcast_to(self, self.lib.binop(self, type(st.op).__name__, cur, v), cur.dims)
                CTX.set(cur, "f", r.f)
                self.touch(cur)
                return
            self.setattr(o, t.attr, self.lib.binop(self, type(st.op).__name__, cur, v), env.cls)
        elif isinstance(t, ast.Subscript):
            o = self.force(self.eval(t.value, env))
            idx = self.eval_index(t.slice, env)
            cur = self.lib.getitem(self, o, idx)
            v = self.eval(st.value, env)
            if isinstance(o, (PList, PDict)) and not isinstance(idx, Slice):
                # the element itself is changed in place
                cur = self.force(cur)
                if isinstance(cur, PList) and not cur.tup and isinstance(st.op, ast.Add):
                    self.lib.list_extend(self, cur, v)
                    return
                if isinstance(cur, Tensor) and cur.kind == "np" and cur.rank:
                    if cur.view:
                        raise Unsupported("in-place operation on an array view")
                    r = self.lib.broadcast_to(self, self.lib.binop(self, type(st.op).__name__, cur, v), cur.dims)
                    CTX.set(cur, "f", r.f)
                    self.touch(cur)
                    return
            self.lib.setitem(self, o, idx, self.lib.binop(self, type(st.op).__name__, cur, v))
        else:
            raise Unsupported("augmented assignment")

    def touch(self, o):
        """propagate an in-place change of a derived element to its parent container"""
        org = getattr(o, "origin", None)
        if org is not None:
            lst, i = org
            if isinstance(lst, PList):
                if "seen" in o.d:
                    if o.d["seen"] is not lst.d["v"]:
                        raise Unsupported("in-place change of an element of a list that was changed since")
                    CTX.set(lst, "v", pstore(lst.v, i, o))
                    CTX.note(o, "seen", lst.d["v"])
                    for x in lst.d.get("kids", ()):
                        if x is not o and CTX.decide(eq(num(x.place), num(i))) is not False:
                            CTX.note(x, "stale", True)
                else:
                    CTX.set(lst, "v", pstore(lst.v, i, o))
            elif lst.borrowed or lst.v.get(i) is not o:
                raise Unsupported("in-place change of a value that is no longer in its dictionary")
            self.touch(lst)

    def x_Return(self, st, env):
        return ("ret", None if st.value is None else self.eval(st.value, env))

    def x_If(self, st, env):
        c = self.truth(self.eval(st.test, env))
        if self.choose(c):
            return self.exec_block(st.body, env)
        return self.exec_block(st.orelse, env)

    def x_Assert(self, st, env):
        c = self.truth(self.eval(st.test, env))
        if not self.choose(c):
            raise PyRaise("AssertionError", st)

    def x_Raise(self, st, env):
        nm = "Exception"
        e = st.exc
        if isinstance(e, ast.Call):
            e = e.func
        if isinstance(e, ast.Name):
            nm = e.id
        raise PyRaise(nm, st)

    def x_FunctionDef(self, st, env):
        CTX.set(env, st.name, self.make_func(st, env, st.name))

    def x_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Subscript):
                self.lib.delitem(self, self.eval(t.value, env), self.eval_index(t.slice, env))
            elif isinstance(t, ast.Name):
                CTX.set(env, t.id, Poison("deleted"))
            else:
                raise Unsupported("del")

    def x_Break(self, st, env):
        return ("break",)

    def x_Continue(self, st, env):
        return ("continue",)

    def x_Try(self, st, env):
        raise Unsupported("try statement")

    def x_With(self, st, env):
        raise Unsupported("with statement")

    def x_While(self, st, env):
        n = 0
        if self.while_hint(st, env, symbolic=True):
            return None
        while True:
            c = self.truth(self.eval(st.test, env))
            d = CTX.decide(c) if isinstance(c, Term) else c
            if d is None:
                if self.while_hint(st, env):
                    return None
                raise Unsupported("while loop with a symbolic condition")
            if not d:
                return self.exec_block(st.orelse, env)
            r = self.exec_block(st.body, env)
            if r is not None:
                if r[0] == "ret":
                    return r
                if r[0] == "break":
                    return None
            n += 1
            if n > 200:
                raise Unsupported("while loop: unrolling limit")

    def while_hint(self, st, env, symbolic=False):
        """while i < n: ...; i += 1   with a linear counter is a for loop over the counter"""
        t = st.test
        if st.orelse:
            return False
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name)
                and isinstance(t.ops[0], (ast.Lt, ast.LtE))):
            return False
        name = t.left.id
        last = st.body[-1]
        if not (isinstance(last, ast.AugAssign) and isinstance(last.target, ast.Name) and last.target.id == name
                and isinstance(last.op, ast.Add) and isinstance(last.value, ast.Constant) and last.value.value == 1):
            return False
        for x in st.body[:-1]:
            for y in ast.walk(x):
                if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store) and y.id == name:
                    return False
                if isinstance(y, (ast.Break, ast.Continue, ast.Return)):
                    return False
        i0 = term(self.force(self.lookup(name, env)))
        hi = term(self.force(self.eval(t.comparators[0], env)))
        if symbolic and isnum(sub(hi, i0)):
            return False
        if isinstance(t.ops[0], ast.LtE):
            hi = add(hi, 1)
        body = st.body[:-1]
        target = ast.Name(id=name, ctx=ast.Store())
        from . import loops
        n = sub(hi, i0)
        if not CTX.holds(le(0, n)):
            n = ite(le(0, n), n, ZERO)
        hi_stable = ast.dump(t.comparators[0])
        # the bound must not change inside the body: re-evaluated afterwards
        loops.for_symbolic(self, IterV(n, lambda k: add(i0, k)), target, body, env)
        hi2 = term(self.force(self.eval(t.comparators[0], env)))
        if isinstance(t.ops[0], ast.LtE):
            hi2 = add(hi2, 1)
        if hi2 is not hi and not CTX.holds(eq(hi, hi2)):
            raise Unsupported("while loop whose bound changes")
        CTX.set(env, name, add(i0, n))
        return True

    def x_For(self, st, env):
        g0 = len(CTX.generators)
        v = self.force(self.eval(st.iter, env))
        more = v.gens if isinstance(v, Once) else []
        it = self.iter_of(v)
        gens, mark = CTX.generators[g0:] + more, len(CTX.trail)
        if not gens:
            return self.for_loop(st, it, env)
        r = self.for_loop(st, it, env)
        self.apart(gens, mark)
        return r

    def for_loop(self, st, it, env):
        if isinstance(it, list):
            for v in it:
                self.assign(st.target, v, env)
                r = self.exec_block(st.body, env)
                if r is not None:
                    if r[0] == "ret":
                        return r
                    if r[0] == "break":
                        return None
            return self.exec_block(st.orelse, env)
        from . import loops
        if st.orelse:
            raise Unsupported("for/else over a symbolic iterable")
        for li in self.loop_invariants:
            if li.applies(self, it, st, env):
                return loops.by_invariant(self, li, it, st, env)
        return loops.for_symbolic(self, it, st.target, st.body, env)

    # ------------------------------------------------------------- iteration
    def iter_of(self, v):
        """list of values, IterV, or SymSet"""
        if isinstance(v, Once):
            return self.iter_of(self.consume(v))
        if isinstance(v, IterV):
            if isnum(v.n):
                return [v.fn(num(i)) for i in range(max(0, int(v.n.data)))]
            return v
        if isinstance(v, PList):
            if v.concrete():
                return v.items()
            n = v.length()
            if isnum(n):
                return [v.item(num(i)) for i in range(int(n.data))]
            return IterV(n, lambda k: v.item(k))
        if isinstance(v, tuple) and not isinstance(v, Term):
            return list(v)
        if isinstance(v, Tensor):
            n = v.dims[0].size()
            f = lambda k: self.lib.getitem(self, v, k)
            if isnum(n):
                return [f(num(i)) for i in range(int(n.data))]
            return IterV(n, f)
        if isinstance(v, PDict):
            return list(v.v.keys())
        if isinstance(v, (SymSet, list)):
            return v
        if isinstance(v, str):
            return list(v)
        if v is None:
            raise PyRaise("TypeError: None is not iterable")
        raise Unsupported("iteration over %r" % (v,))

    def consume(self, v):
        """the elements of an iterator, which has none left afterwards"""
        if v.d["spent"] is not False:
            raise Unsupported("an iterator may already be consumed")
        for cont, key, old in CTX.trail[v.mark:] if v.names is not None else ():
            if not (isinstance(cont, Once) or cont.serial > v.serial or isinstance(cont, Env) and key not in v.names):
                raise Unsupported("a generator's inputs change before it is consumed")
        CTX.note(v, "spent", True)
        if v.reads is not None:
            CTX.generators.append(v)
        return v.it

    def apart(self, gens, mark):
        """nothing that a generator reads while it runs was changed since (its body is run in one go here)"""
        for g in gens:
            names, objs = g.reads
            for cont, key, old in CTX.trail[mark:]:
                if isinstance(cont, Inst) and key in names or id(cont) in objs:
                    raise Unsupported("a loop over a generator changes what the generator reads")

    def names_reached(self, node):
        """attribute names in a function and in everything of the module it may call"""
        if not hasattr(self, "_defs"):
            self._defs = {}
            for x in ast.walk(self.tree):
                if isinstance(x, ast.FunctionDef):
                    self._defs.setdefault(x.name, []).append(x)
        out, todo, seen = set(), [node], set()
        while todo:
            f = todo.pop()
            for x in ast.walk(f):
                n = x.attr if isinstance(x, ast.Attribute) else x.id if isinstance(x, ast.Name) else None
                if n is None:
                    continue
                if isinstance(x, ast.Attribute):
                    out.add(n)
                if n not in seen:
                    seen.add(n)
                    todo.extend(self._defs.get(n, ()))
        return out

    def run_generator(self, fv, node, env):
        if not hasattr(node, "_gen"):
            node._gen = Yields().body(node)
        acc = PList([])
        env.d[".yield"] = acc
        env.locals_ = node._locals | {".yield"}
        mark, start = len(CTX.trail), env.serial
        attrs = self.names_reached(node)
        objs, seen, todo = {}, {}, [v for k, v in env.d.items() if k != ".yield"]
        while todo:
            v = todo.pop()
            if isinstance(v, Once):
                raise Unsupported("an iterator given to a generator")
            if isinstance(v, tuple):
                todo.extend(v)
            elif isinstance(v, Union):
                todo.extend(y for c, y in v.alts)
            elif isinstance(v, Obj) and id(v) not in seen:
                seen[id(v)] = v
                if isinstance(v, Inst):
                    todo.extend(y for k, y in v.d.items() if k in attrs)
                    continue
                objs[id(v)] = v
                if isinstance(v, PList):
                    todo.extend(q[1] for q in v.v if q[0] == "i")
                elif isinstance(v, PDict) and isinstance(v.v, dict):
                    todo.extend(v.v.values())
        self.exec_block(node._gen, env)
        for cont, key, old in CTX.trail[mark:]:
            if not (cont is env or isinstance(cont, Once) or cont.serial > start):
                raise Unsupported("a generator with side effects")
        r = Once(env.d[".yield"], set())
        r.reads = attrs, objs
        return r

    # ------------------------------------------------------------- assignment
    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            CTX.set(env, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            els = list(t.elts)
            star = [i for i, x in enumerate(els) if isinstance(x, ast.Starred)]
            if star:
                it = self.iter_of(self.force(v))
                if not isinstance(it, list):
                    raise Unsupported("starred assignment")
                i, tail = star[0], len(els) - star[0] - 1
                if len(it) < len(els) - 1:
                    raise PyRaise("ValueError: unpack")
                els[i] = els[i].value
                vals = it[:i] + [PList(it[i:len(it) - tail])] + it[len(it) - tail:]
            else:
                vals = self.unpack(v, len(els), t)
            for x, y in zip(els, vals):
                self.assign(x, y, env)
        elif isinstance(t, ast.Attribute):
            if isinstance(v, Once):
                raise Unsupported("an iterator kept in an attribute")
            self.setattr(self.force(self.eval(t.value, env)), t.attr, v, env.cls)
        elif isinstance(t, ast.Subscript):
            o = self.force(self.eval(t.value, env))
            self.lib.setitem(self, o, self.eval_index(t.slice, env), v)
        elif isinstance(t, ast.Starred):
            raise Unsupported("starred assignment")
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, n, t=None):
        v = self.force(v)
        it = self.iter_of(v)
        if isinstance(it, IterV):
            CTX.oblige("unpack", eq(it.n, n))
            return [it.fn(num(i)) for i in range(n)]
        if len(it) != n:
            raise PyRaise("ValueError: unpack")
        return it

    # ------------------------------------------------------------- names
    def lookup(self, name, env):
        e = env
        while e is not None:
            if name in e.d:
                v = e.d[name]
                return v
            if name in e.locals_:
                raise PyRaise("UnboundLocalError: %s" % name)
            if name in e.gone:
                raise Unsupported("late use of the comprehension variable " + name)
            e = e.parent
        raise PyRaise("NameError: %s" % name)

    # ------------------------------------------------------------- expressions
    def eval(self, e, env):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression %s" % type(e).__name__)
        return m(e, env)

    def ev(self, e, env):
        return self.force(self.eval(e, env))

    def e_Constant(self, e, env):
        v = e.value
        if isinstance(v, float):
            return Fraction(repr(v))
        if isinstance(v, (int, str, bool)) or v is None:
            return v
        if v is Ellipsis:
            return Opaque("...")
        raise Unsupported("constant %r" % (v,))

    def e_Name(self, e, env):
        return current(self.lookup(e.id, env))

    def e_Attribute(self, e, env):
        return current(self.getattr(self.ev(e.value, env), e.attr, env.cls))

    def e_Tuple(self, e, env):
        return self.seq(e.elts, env, True)

    def e_List(self, e, env):
        return self.seq(e.elts, env, False)

    def seq(self, elts, env, tup):
        pieces = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, env)
                it = self.iter_of(v)
                if isinstance(it, IterV):
                    pieces.append(self.lib.frozen(self, v, it))
                else:
                    pieces += [("i", y) for y in it]
            else:
                pieces.append(("i", self.eval(x, env)))
        if tup and all(p[0] == "i" for p in pieces):
            return tuple(p[1] for p in pieces)
        return PList(pieces=pieces, tup=tup)

    def e_Set(self, e, env):
        return PList([self.eval(x, env) for x in e.elts])

    def e_Dict(self, e, env):
        d = {}
        sym = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.ev(v, env)
                if not isinstance(src, PDict):
                    raise Unsupported("dict unpacking")
                d.update(src.v)
                continue
            kk = self.eval(k, env)
            kv = self.lib.dkey(kk)
            d[kv] = self.eval(v, env)
        return PDict(d)

    def e_Lambda(self, e, env):
        return self.make_func(e, env, "<lambda>")

    def make_func(self, node, env, name):
        a = node.args
        fv = FuncVal(node, env, env.cls, name)
        fv.defaults = [self.eval(d, env) for d in a.defaults]
        fv.kwdefaults = {p.arg: self.eval(d, env) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        fv.evaluated = True
        return fv

    def e_IfExp(self, e, env):
        c = self.truth(self.eval(e.test, env))
        if isinstance(c, Term) and CTX.decide(c) is None:
            # evaluate both sides when they are plain scalars, else fork
            if self.pure(e.body) and self.pure(e.orelse):
                try:
                    with CTX.under(c):
                        a = self.eval(e.body, env)
                    with CTX.under(not_(c)):
                        b = self.eval(e.orelse, env)
                    if (is_scalar(a) or is_bool(a)) and (is_scalar(b) or is_bool(b)):
                        return vite(c, a, b)
                except (Unsupported, PyRaise):
                    pass
        if self.choose(c):
            return self.eval(e.body, env)
        return self.eval(e.orelse, env)

    def pure(self, e):
        return not any(isinstance(x, (ast.Call, ast.NamedExpr, ast.ListComp)) for x in ast.walk(e))

    def e_NamedExpr(self, e, env):
        v = self.eval(e.value, env)
        self.assign(e.target, v, env)
        return v

    def e_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        acc = None
        r = None
        vals = None
        for x in e.values:
            if acc is None:
                v = self.eval(x, env)
            else:
                with CTX.under(acc if isand else not_(acc)):
                    try:
                        v = self.eval(x, env)
                    except PyRaise:
                        if CTX.decide(FALSE) is True:
                            break
                        raise
            c = self.truth(v)
            t = c if isinstance(c, Term) else (TRUE if c else FALSE)
            d = True if t is TRUE else False if t is FALSE else None
            if d is None:
                d0 = CTX.decide(t)
                if d0 is not None:
                    d = d0
                    t = TRUE if d0 else FALSE
            if d is not None and acc is None:
                if d != isand:
                    return v
                r = v
                continue
            if not is_bool(v) or vals is not None:
                # the value of the last evaluated operand is the result
                if vals is None:
                    vals = []
                    if acc is not None:
                        vals.append((acc, acc))
                vals.append((t, v))
            acc = t if acc is None else (and_(acc, t) if isand else or_(acc, t))
        if acc is None:
            return r
        if vals is not None:
            for t, v in vals[:-1]:
                if self.choose(not_(t) if isand else t):
                    return v
            return vals[-1][1]
        return acc

    def e_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not):
            c = self.truth(v)
            return not_(c) if isinstance(c, Term) else (not c)
        return self.lib.unop(self, type(e.op).__name__, v)

    def e_BinOp(self, e, env):
        a = self.eval(e.left, env)
        b = self.eval(e.right, env)
        return self.lib.binop(self, type(e.op).__name__, a, b)

    def e_Compare(self, e, env):
        left = self.eval(e.left, env)
        acc = []
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, env)
            v = self.lib.compare(self, type(op).__name__, left, right)
            if len(e.ops) == 1:
                return v
            acc.append(v)
            left = right
        ts = []
        for v in acc:
            c = self.truth(v)
            ts.append(c if isinstance(c, Term) else (TRUE if c else FALSE))
        return and_(*ts)

    def e_Subscript(self, e, env):
        o = self.ev(e.value, env)
        return self.lib.getitem(self, o, self.eval_index(e.slice, env))

    def eval_index(self, s, env):
        if isinstance(s, ast.Slice):
            f = lambda x: None if x is None else self.ev(x, env)
            return Slice(f(s.lower), f(s.upper), f(s.step))
        if isinstance(s, ast.Tuple):
            return tuple(self.eval_index(x, env) for x in s.elts)
        return self.ev(s, env)

    def e_JoinedStr(self, e, env):
        return Opaque("fstring")

    def e_FormattedValue(self, e, env):
        return Opaque("fstring")

    def e_Starred(self, e, env):
        return Star(self.eval(e.value, env))

    def e_ListComp(self, e, env):
        return self.comp(e.elt, e.generators, env)

    def e_GeneratorExp(self, e, env):
        return Once(self.comp(e.elt, e.generators, env), {x.id for x in ast.walk(e) if isinstance(x, ast.Name)})

    def e_SetComp(self, e, env):
        return SymSet(self.comp(e.elt, e.generators, env))

    def e_DictComp(self, e, env):
        from . import loops
        g, = e.generators
        if g.ifs:
            raise Unsupported("filtered dict comprehension")
        it = self.iter_of(self.ev(g.iter, env))
        cenv = Env(env, set(), env.cls)
        d = PDict({})
        if isinstance(it, list):
            for v in it:
                self.assign(g.target, v, cenv)
                self.lib.setitem(self, d, self.ev(e.key, cenv), self.eval(e.value, cenv))
            return d
        tmp = "%dict"
        CTX.set(cenv, tmp, d)
        st = ast.Assign(targets=[ast.Subscript(value=ast.Name(id=tmp, ctx=ast.Load()), slice=e.key, ctx=ast.Store())], value=e.value)
        ast.fix_missing_locations(ast.copy_location(st, e))
        loops.for_symbolic(self, it, g.target, [st], cenv)
        return d

    def comp(self, elt, gens, env):
        g = gens[0]
        g0 = len(CTX.generators)
        v = self.ev(g.iter, env)
        more = v.gens if isinstance(v, Once) else []
        it = self.iter_of(v)
        taken, mark = CTX.generators[g0:] + more, len(CTX.trail)
        cenv = Env(env, set(), env.cls)
        rest = gens[1:]
        if isinstance(it, SymSet):
            raise Unsupported("comprehension over a set")
        if isinstance(it, list):
            out = []
            for v in it:
                self.assign(g.target, v, cenv)
                ok = True
                for c in g.ifs:
                    if not self.choose(self.truth(self.eval(c, cenv))):
                        ok = False
                        break
                if not ok:
                    continue
                if rest:
                    out += list(self.comp(elt, rest, cenv).v)
                else:
                    out.append(("i", self.eval(elt, cenv)))
            if taken:
                self.apart(taken, mark)
            return PList(pieces=out)
        if rest:
            raise Unsupported("nested symbolic comprehension")
        from . import loops
        cenv.gone = loops.st_names(g.target)
        return loops.comprehension(self, it, g, elt, cenv)

    # ------------------------------------------------------------- calls
    def e_Call(self, e, env):
        f = self.ev(e.func, env)
        if isinstance(f, LibFn) and f.name == "super" and not e.args:
            cls = env.cls
            en = env
            while en is not None and "self" not in en.d:
                en = en.parent
            return SuperV(en.d["self"], cls)
        if isinstance(f, LibFn) and f.name == "print":
            return None
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, env)
                if isinstance(v, Once):
                    v = self.consume(v)
                it = self.iter_of(v)
                if isinstance(it, list):
                    args += it
                elif isinstance(it, IterV) and not isinstance(v, (PList, Tensor)):
                    args.append(Star(PList(n=it.n, fn=it.fn)))
                else:
                    args.append(Star(v))
            else:
                args.append(self.eval(a, env))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value, env)
                if isinstance(d, PDict):
                    for kk, vv in d.v.items():
                        kwargs[kk] = vv
                else:
                    kwargs["**%d" % len(kwargs)] = d
            else:
                kwargs[k.arg] = self.eval(k.value, env)
        line = self.stmt_line
        r = self.call(f, args, kwargs)
        self.stmt_line = line
        return r

    def call(self, f, args, kwargs):
        f = self.force(f)
        if isinstance(f, Bound):
            return self.call_func(f.fn, [f.self_] + list(args), kwargs)
        if isinstance(f, FuncVal):
            return self.call_func(f, args, kwargs)
        if isinstance(f, PyFn):
            return f.f(self, args, kwargs)
        if isinstance(f, ClassVal):
            return self.construct(f.name, args, kwargs)
        if isinstance(f, (LibFn, Module)):
            return self.lib.call(self, f.name, args, kwargs)
        if isinstance(f, PolyV):
            return self.lib.call_poly(self, f, args)
        if isinstance(f, CaFun):
            return self.lib.call_cafun(self, f, args, kwargs)
        if f is None:
            raise PyRaise("TypeError: None is not callable")
        raise Unsupported("call of %r" % (f,))

    def construct(self, cls, args, kwargs):
        q = cls + ".__init__"
        o = Inst(cls)
        c, m = self.find_method(cls, "__init__")
        if m is not None:
            self.call_func(FuncVal(m, self.glob, c, c + ".__init__"), [o] + list(args), kwargs)
        return o

    def bind(self, fv, args, kwargs):
        node = fv.node
        a = node.args
        defaults = fv.defaults if getattr(fv, "evaluated", False) else None
        names = [p.arg for p in a.posonlyargs + a.args]
        out = {}
        args = list(args)
        if any(isinstance(x, Star) for x in args):
            raise Unsupported("starred symbolic arguments")
        if len(args) > len(names) and a.vararg is None:
            raise PyRaise("TypeError: too many arguments")
        for nme, v in zip(names, args):
            out[nme] = v
        if a.vararg is not None:
            out[a.vararg.arg] = tuple(args[len(names):])
        extra = {}
        for k, v in kwargs.items():
            if k in names and k not in out or k in [p.arg for p in a.kwonlyargs]:
                out[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                raise PyRaise("TypeError: unexpected argument %s" % k)
        if a.kwarg is not None:
            out[a.kwarg.arg] = PDict(extra)
        nd = len(a.defaults)
        for i, nme in enumerate(names):
            if nme not in out:
                j = i - (len(names) - nd)
                if j < 0:
                    raise PyRaise("TypeError: missing argument %s" % nme)
                out[nme] = defaults[j] if defaults is not None else self.default_value(fv, j)
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if p.arg not in out:
                if d is None:
                    raise PyRaise("TypeError: missing argument")
                out[p.arg] = self.eval(d, fv.env)
        return out

    def default_value(self, fv, j):
        """default values of module level functions are objects created once"""
        key = (fv.node, j)
        if not hasattr(self, "_defaults"):
            self._defaults = {}
        if key not in self._defaults:
            v = self.eval(fv.node.args.defaults[j], Env(self.glob, set(), fv.cls))
            if isinstance(v, Obj):
                v.is_default = True
            self._defaults[key] = v
        return self._defaults[key]

    def call_func(self, fv, args, kwargs):
        q = fv.name
        con = self.contracts.get(q)
        if con is not None and fv.env is self.glob and not (self.verifying == q and self.depth == 0):
            vals = self.bind(fv, args, kwargs)
            self.assumed.add(q)
            return con.apply(self, vals)
        return self.run_func(fv, args, kwargs)

    def run_func(self, fv, args, kwargs):
        if self.depth > 30:
            raise Unsupported("call depth")
        vals = self.bind(fv, args, kwargs)
        node = fv.node
        env = Env(fv.env, set(), fv.cls)
        if fv.env is self.glob and self.depth > 0:
            self.inlined.add(fv.name)
        for k, v in vals.items():
            env.d[k] = v
        if self.frame is not None and self.depth == 0:
            mark, start = len(CTX.trail), CTX.serial
            try:
                r = self.run_body(fv, node, env)
            except PyRaise:
                self.frame(fv, vals, mark, start)
                raise
            self.frame(fv, vals, mark, start)
            return r
        return self.run_body(fv, node, env)

    frame = None

    def run_body(self, fv, node, env):
        self.depth += 1
        try:
            if isinstance(node, ast.Lambda):
                return self.eval(node.body, env)
            if not hasattr(node, "_locals"):
                node._locals = assigned_names(node)
            env.locals_ = node._locals
            if not hasattr(node, "_yields"):
                node._yields = bool(Yields.own(node))
            if node._yields:
                return self.run_generator(fv, node, env)
            r = self.exec_block(node.body, env)
            if r is not None and r[0] == "ret":
                return r[1]
            return None
        finally:
            self.depth -= 1

    def snippet(self, text, **names):
        """value of a Python expression over the given names"""
        env = Env(self.glob, set(names))
        env.d.update(names)
        return self.eval(ast.parse(text, mode="eval").body, env)

    # ------------------------------------------------------------- truth
    def truth(self, v):
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, Term):
            if v.sort == "B":
                return v
            return ne(v, 0)
        if isinstance(v, (int, Fraction)):
            return v != 0
        if isinstance(v, str):
            return len(v) > 0
        if isinstance(v, PList):
            return gt(v.length(), 0)
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, PDict):
            return len(v.v) > 0
        if isinstance(v, Union):
            r = None
            for c, x in reversed(v.alts):
                t = self.truth(x)
                t = t if isinstance(t, Term) else (TRUE if t else FALSE)
                r = t if r is None else or_(and_(c, t), and_(not_(c), r))
            return r
        if isinstance(v, Tensor):
            if all(CTX.holds(eq(d.size(), 1)) for d in v.dims):
                return self.truth(v.get(*[ZERO for d in v.dims]))
            raise PyRaise("ValueError: truth value of an array")
        if isinstance(v, (Inst, ClassVal, FuncVal, Bound, PyFn, LibFn, CaFun, PolyV, Opaque)):
            return True
        if isinstance(v, Poison):
            raise Unsupported("use of an undetermined value: %s" % v.why)
        raise Unsupported("truth value of %r" % (v,))

