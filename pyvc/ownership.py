"""Ownership rules: a function may change in place only what it allocated itself.

For functions whose values are out of the symbolic interpreter's reach (drawing, the outer ph-adaptive loop) the
frame condition `modifies none of its arguments, defaults or class attributes' is decided by a type-and-effect
argument over their source: every value is
    2  allocated by this call, with everything inside it
    1  allocated by this call, its elements may be shared
    0  possibly shared with the caller
and each in-place effect is an obligation on the ownership of its target.  Joins take the minimum; loop bodies are
checked at a fixpoint.  Calls to functions of the library rely on their own frame condition (they modify nothing that
was passed to them) or, for helpers without one, pass their effects on to the argument; attributes of self may be re-bound."""
import ast

ALLOC2 = {"np.array", "np.zeros", "np.ones", "np.linspace", "np.hstack", "np.vstack", "np.concatenate", "np.append", "np.full", "np.empty", "np.arange", "np.eye",
          "np.sort", "np.cumsum", "np.abs", "np.linalg.norm", "np.sum", "np.max", "np.min", "np.round", "np.sqrt", "copy.deepcopy", "abs", "len", "range", "sum", "int",
          "float", "str", "bool", "round", "any", "all", "isinstance", "time.monotonic", "time.time", "np.argmax", "np.where", "np.ones_like", "np.zeros_like", "print", "type"}
ALLOC1 = {"list", "dict", "tuple", "set", "sorted", "zip", "enumerate", "map", "filter", "reversed", "copy.copy", "min", "max"}
METH2 = {"max", "min", "argmax", "argmin", "sum", "any", "all", "copy", "tolist", "flatten", "astype", "full", "format", "join", "split", "mean", "cumsum", "round",
         "size1", "size2", "startswith", "endswith", "lower", "upper", "index", "count"}
METH1 = {"items", "keys", "values"}
EFFECT = {"append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "update", "setdefault", "popitem", "fill", "put", "resize", "itemset", "partition",
          "add", "discard", "__setitem__", "__delitem__", "setfield", "byteswap"}
NPEFFECT = {"np.copyto": 0, "np.put": 0, "np.place": 0, "np.fill_diagonal": 0, "np.putmask": 0, "np.random.shuffle": 0, "np.put_along_axis": 0}
IMMUTABLE = (ast.Constant, ast.JoinedStr, ast.Compare, ast.Lambda)


def dotted(n):
    if isinstance(n, ast.Name):
        return n.id
    if isinstance(n, ast.Attribute):
        b = dotted(n.value)
        return b and b + "." + n.attr
    return None


class Check:
    def __init__(self, fn, name, helpers=None):
        self.name, self.fn, self.helpers = name, fn, helpers or {}
        self.on_params = set()                # parameters changed in place
        self.found = {}                       # (line, column, what) -> owned
        a = fn.args
        self.params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]
        env = {p: 0 for p in self.params}
        if a.kwarg:
            env[a.kwarg.arg] = 1              # the dictionary of keyword arguments is made by the call
        deco = {d.id for d in fn.decorator_list if isinstance(d, ast.Name)}
        self.this = self.params[0] if self.params and "staticmethod" not in deco and "." in name else None
        self.cls = "classmethod" in deco
        self.helper = name in self.helpers
        self.block(fn.body, env)

    def need(self, n, what, level, target=None):
        if level <= 0 and target is not None:
            while isinstance(target, (ast.Subscript, ast.Attribute)):
                target = target.value
            if isinstance(target, ast.Name) and target.id in self.params and target.id != self.this:
                self.on_params.add(target.id)
                if self.helper:
                    return
        k = (n.lineno, n.col_offset, what)
        self.found[k] = self.found.get(k, True) and level > 0

    # ------------------------------------------------------------ expressions
    def ev(self, n, env):
        if n is None:
            return 2
        if isinstance(n, ast.Lambda):
            inner = dict(env, **{x.arg: 0 for x in n.args.args})
            self.ev(n.body, inner)
            return 2
        if isinstance(n, IMMUTABLE):
            for c in ast.iter_child_nodes(n):
                if isinstance(c, ast.expr):
                    self.ev(c, env)
            return 2
        if isinstance(n, ast.Name):
            return env.get(n.id, 0)
        if isinstance(n, ast.NamedExpr):
            env[n.target.id] = self.ev(n.value, env)
            return env[n.target.id]
        if isinstance(n, ast.Attribute):
            b = self.ev(n.value, env)
            return 2 if n.attr in ("shape", "size", "ndim", "dtype") or b == 2 else 0
        if isinstance(n, ast.Subscript):
            b = self.ev(n.value, env)
            self.ev(n.slice, env)
            return 2 if b == 2 else 0
        if isinstance(n, ast.Starred):
            return self.ev(n.value, env)
        if isinstance(n, (ast.BinOp, ast.UnaryOp)):
            for c in (n.left, n.right) if isinstance(n, ast.BinOp) else (n.operand,):
                s = self.ev(c, env)
            return 1 if isinstance(n, ast.BinOp) and min(self.ev(n.left, env), self.ev(n.right, env)) < 2 else 2
        if isinstance(n, ast.BoolOp):
            return min(self.ev(v, env) for v in n.values)
        if isinstance(n, ast.IfExp):
            self.ev(n.test, env)
            return min(self.ev(n.body, env), self.ev(n.orelse, env))
        if isinstance(n, (ast.List, ast.Set, ast.Tuple)):
            return 1 if min([self.ev(e, env) for e in n.elts] or [2]) < 2 else 2
        if isinstance(n, ast.Dict):
            return 1 if min([self.ev(e, env) for e in n.values + [k for k in n.keys if k is not None]] or [2]) < 2 else 2
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            inner = dict(env)
            for g in n.generators:
                self.bind(g.target, self.item(self.ev(g.iter, inner)), inner)
                for c in g.ifs:
                    self.ev(c, inner)
            es = [n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]
            return 1 if min(self.ev(e, inner) for e in es) < 2 else 2
        if isinstance(n, ast.Slice):
            for c in (n.lower, n.upper, n.step):
                self.ev(c, env)
            return 2
        if isinstance(n, ast.Call):
            return self.call(n, env)
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.expr):
                self.ev(c, env)
        return 0

    def item(self, level):
        return 2 if level == 2 else 0

    def call(self, n, env):
        args = [self.ev(a, env) for a in n.args] + [self.ev(k.value, env) for k in n.keywords]
        for k in n.keywords:
            if k.arg == "out":
                self.need(n, "out= of " + ast.unparse(n.func), self.ev(k.value, env))
            if k.arg == "copy" and isinstance(k.value, ast.Constant) and not k.value.value:
                return min(args or [0])
        f = dotted(n.func)
        if isinstance(n.func, ast.Attribute):
            m, recv = n.func.attr, dotted(n.func.value)
            lib = recv in ("np", "ca", "plt", "copy", "math", "itertools", "time", "np.linalg", "np.random")
            if f in NPEFFECT:
                self.need(n, "%s writes into %s" % (f, ast.unparse(n.args[0])), self.ev(n.args[0], env), n.args[0])
                return 2
            if not lib:
                b = self.ev(n.func.value, env)
                if m in EFFECT:
                    self.need(n, "%s changes %s" % (m, ast.unparse(n.func.value)), b, n.func.value)
                    if m in ("append", "extend", "insert", "add", "update", "setdefault") and min(args or [2]) < 2:
                        self.lower(n.func.value, env)
                    return 2 if b == 2 else 0
                if m in METH2:
                    return 2
                if m in METH1:
                    return 2 if b == 2 else 1
                if m in ("reshape", "ravel", "squeeze", "transpose", "view", "get"):
                    return b if b == 2 else 0
        h = f and self.helpers.get(f, self.helpers.get(self.name.split(".")[0] + "." + f.split(".")[-1]))
        if h is not None and h[0] is not None:
            fn, bad = h
            ps = [x.arg for x in fn.args.args]
            if isinstance(n.func, ast.Attribute) and not any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in fn.decorator_list):
                ps = ps[1:]
            for p, a in list(zip(ps, n.args)) + [(k.arg, k.value) for k in n.keywords]:
                if p in bad:
                    self.need(n, "%s changes %s" % (f, ast.unparse(a)), self.ev(a, env), a)
        if f == "setattr" or f == "delattr":
            self.need(n, "%s on %s" % (f, ast.unparse(n.args[0])), 2 if self.own_object(n.args[0]) else self.ev(n.args[0], env))
            return 2
        if f in ALLOC2 or f and f.split(".")[0] in ("plt", "math"):
            return 2
        if f in ALLOC1:
            return 2 if min(args or [2]) == 2 else 1
        return 0

    def own_object(self, n):
        return isinstance(n, ast.Name) and n.id == self.this and not self.cls

    def lower(self, n, env):
        """something shared was put into the container n"""
        while isinstance(n, (ast.Subscript, ast.Attribute)):
            n = n.value
        if isinstance(n, ast.Name) and n.id in env:
            env[n.id] = min(env[n.id], 1)

    # ------------------------------------------------------------ statements
    def bind(self, t, level, env):
        if isinstance(t, ast.Name):
            env[t.id] = level
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                self.bind(e, self.item(level), env)
        elif isinstance(t, ast.Starred):
            self.bind(t.value, min(level, 1), env)
        elif isinstance(t, ast.Subscript):
            self.need(t, "store into %s" % ast.unparse(t.value), self.ev(t.value, env), t.value)
            if level < 2:
                self.lower(t.value, env)
        elif isinstance(t, ast.Attribute):
            self.need(t, "store into attribute %s of %s" % (t.attr, ast.unparse(t.value)), 2 if self.own_object(t.value) else self.ev(t.value, env))

    def assign(self, t, v, env):
        if isinstance(t, (ast.Tuple, ast.List)) and isinstance(v, (ast.Tuple, ast.List)) and len(t.elts) == len(v.elts) and \
                not any(isinstance(x, ast.Starred) for x in t.elts + v.elts):
            ls = [self.ev(x, env) for x in v.elts]
            for e, l in zip(t.elts, ls):
                self.bind(e, l, env)
        else:
            self.bind(t, self.ev(v, env), env)

    def block(self, body, env):
        for st in body:
            self.stmt(st, env)

    def join(self, env, *others):
        for k in set(env) | {k for o in others for k in o}:
            env[k] = min([o[k] for o in others if k in o])

    def loop(self, go, env):
        while True:
            e = dict(env)
            go(e)
            before = dict(env)
            for k in e:
                env[k] = min(env.get(k, e[k]), e[k])
            if env == before:
                return

    def stmt(self, st, env):
        if isinstance(st, ast.Assign):
            for t in st.targets:
                self.assign(t, st.value, env)
        elif isinstance(st, ast.AnnAssign):
            if st.value is not None:
                self.assign(st.target, st.value, env)
        elif isinstance(st, ast.AugAssign):
            v = self.ev(st.value, env)
            t = st.target
            if isinstance(t, ast.Name):
                self.need(st, "in-place change of %s" % t.id, env.get(t.id, 0), t)
                if v < 2:
                    env[t.id] = min(env.get(t.id, 0), 1)
            else:
                if isinstance(t, ast.Attribute) and not (self.ev(t, env) > 0):
                    self.need(st, "in-place change of %s" % ast.unparse(t), 0)
                self.bind(t, v, env)
        elif isinstance(st, (ast.Expr, ast.Return)):
            self.ev(st.value, env)
        elif isinstance(st, ast.Delete):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    env.pop(t.id, None)
                else:
                    self.bind(t, 2, env)
        elif isinstance(st, ast.If):
            self.ev(st.test, env)
            a, b = dict(env), dict(env)
            self.block(st.body, a)
            self.block(st.orelse, b)
            self.join(env, a, b)
        elif isinstance(st, (ast.For, ast.AsyncFor)):
            it = self.ev(st.iter, env)
            pair = isinstance(st.iter, ast.Call) and dotted(st.iter.func) in ("enumerate", "zip", "range")

            def go(e):
                if pair and isinstance(st.target, (ast.Tuple, ast.List)):
                    for k, x in enumerate(st.target.elts):
                        if dotted(st.iter.func) == "enumerate":
                            l = 2 if k == 0 else self.item(self.ev(st.iter.args[0], e))
                        else:
                            l = self.item(self.ev(st.iter.args[k], e)) if k < len(st.iter.args) else 0
                        self.bind(x, l, e)
                else:
                    self.bind(st.target, self.item(it), e)
                self.block(st.body, e)
            self.loop(go, env)
            self.block(st.orelse, env)
        elif isinstance(st, ast.While):
            def go(e):
                self.ev(st.test, e)
                self.block(st.body, e)
            self.loop(go, env)
            self.block(st.orelse, env)
        elif isinstance(st, ast.With):
            for w in st.items:
                l = self.ev(w.context_expr, env)
                if w.optional_vars is not None:
                    self.bind(w.optional_vars, l, env)
            self.block(st.body, env)
        elif isinstance(st, ast.Try):
            pre = dict(env)
            self.block(st.body, env)
            outs = [dict(env)]
            for h in st.handlers:
                e = {k: min(v, env.get(k, v)) for k, v in pre.items()}
                self.block(h.body, e)
                outs.append(e)
            self.join(env, *outs)
            self.block(st.orelse, env)
            self.block(st.finalbody, env)
        elif isinstance(st, ast.FunctionDef):
            env[st.name] = 2
            inner = {k: min(v, 1) for k, v in env.items()}
            inner.update({x.arg: 0 for x in st.args.args})
            self.block(st.body, inner)
        elif isinstance(st, (ast.Global, ast.Nonlocal)):
            self.need(st, "assignment to names outside the function: %s" % ", ".join(st.names), 0)
        elif isinstance(st, ast.Assert):
            self.ev(st.test, env)
        elif isinstance(st, (ast.Pass, ast.Break, ast.Continue, ast.Import, ast.ImportFrom, ast.Raise)):
            pass
        else:
            self.need(st, "statement %s" % type(st).__name__, 0)


def functions(src):
    for n in ast.parse(src).body:
        if isinstance(n, ast.FunctionDef):
            yield n.name, n
        elif isinstance(n, ast.ClassDef):
            for f in n.body:
                if isinstance(f, ast.FunctionDef):
                    yield n.name + "." + f.name, f


def effects(src, known):
    """{qualname: [(line, effect, owned)]}; functions outside `known' have no frame condition of their own:
    what they change in their parameters is checked where they are called"""
    fs = dict(functions(src))
    helpers = {q: (f, set()) for q, f in fs.items() if q not in known}
    while True:
        cs = {q: Check(f, q, helpers) for q, f in fs.items()}
        new = {q: (fs[q], cs[q].on_params) for q in helpers}
        if all(new[q][1] == helpers[q][1] for q in helpers):
            break
        helpers = new
    return {q: [(l, w, ok) for (l, c, w), ok in sorted(cs[q].found.items())] for q in fs}
