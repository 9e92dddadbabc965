"""Name resolution and simple type inference over the whole package (no execution).

Types are sets of
  ("inst", Class)   an instance of a class of the package
  ("class", Class)  the class itself
  ("func", Def)     a function of the package
  ("mod", name)     a module of the package
  ("ext", dotted)   something of another library, by its dotted name
  ("list", frozenset) a sequence with elements of these types
  ("none",)         None
  ("data",)         a plain value (number, text, ...)
  ("?",)            anything else
"""
import ast
import builtins

from .program import target_names

ANY = frozenset({("?",)})
OPERATORS = {ast.Add: "__add__", ast.Sub: "__sub__", ast.Mult: "__mul__", ast.Div: "__truediv__", ast.FloorDiv: "__floordiv__", ast.Mod: "__mod__", ast.Pow: "__pow__", ast.MatMult: "__matmul__"}
DATA = frozenset({("data",)})
NONE = frozenset({("none",)})


class Class:
    def __init__(self, node, mod, qual):
        self.node, self.mod, self.qual, self.name = node, mod, qual, node.name
        self.methods, self.attrs, self.ann, self.class_attrs = {}, {}, {}, {}
        self.base_types, self.all_methods = [], []
        self.subs = []

    def __repr__(self):
        return f"<{self.qual}>"


class Def:
    def __init__(self, node, mod, qual, cls, outer):
        self.node, self.mod, self.qual, self.cls, self.outer = node, mod, qual, cls, outer
        self.name = getattr(node, "name", "<lambda>")
        self.scope = None
        self.deco = [ast.unparse(d) for d in getattr(node, "decorator_list", [])]

    @property
    def static(self):
        return "staticmethod" in self.deco

    @property
    def classm(self):
        return "classmethod" in self.deco

    @property
    def prop(self):
        return any(d in ("property", "functools.cached_property", "cached_property") or d.endswith((".setter", ".getter")) for d in self.deco)

    @property
    def plain(self):
        return all(d in ("staticmethod", "classmethod", "abstractmethod", "abc.abstractmethod", "override", "typing.override") for d in self.deco)

    def __repr__(self):
        return f"<{self.qual}>"


class Scope:
    def __init__(self, owner, mod, outer, node):
        self.owner, self.mod, self.outer, self.node = owner, mod, outer, node
        self.names = {}  # name -> list of bindings
        self.globals = set()
        self.nonlocals = set()
        self.cache = {}
        self.tested = set()  # names examined with isinstance/hasattr

    def bind(self, name, how):
        if name in self.globals:
            s = self
            while s.outer is not None:
                s = s.outer
            s.names.setdefault(name, []).append(how)
            return
        self.names.setdefault(name, []).append(how)


class World:
    def __init__(self, program):
        self.program = program
        self.modules, self.defs, self.classes = {}, [], []
        self.nodescope = {}
        self.typing_stack = set()
        for m in program.modules.values():
            self.load(m)
        self.link()

    # ------------------------------------------------------------ scopes
    def load(self, m):
        sc = Scope(None, m, None, m.tree)
        self.modules[m.name] = sc
        for n in ("__name__", "__file__", "__doc__", "__package__", "__spec__", "__path__", "__builtins__"):
            sc.bind(n, ("type", DATA))
        self.body(m.tree.body, sc, None, "")

    def body(self, stmts, sc, cls, prefix):
        for s in stmts:
            self.stmt(s, sc, cls, prefix)

    def stmt(self, s, sc, cls, prefix):
        self.nodescope[id(s)] = sc
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            d = Def(s, sc.mod, prefix + s.name, cls, sc)
            self.defs.append(d)
            if cls is not None:
                cls.all_methods.append(d)
                old = cls.methods.get(s.name)
                if old is None or not d.prop:
                    cls.methods[s.name] = d
            sc.bind(s.name, ("def", d))
            for x in s.decorator_list + s.args.defaults + [k for k in s.args.kw_defaults if k]:
                self.expr(x, sc)
            self.annotations(s, sc)
            self.function(d, sc)
        elif isinstance(s, ast.ClassDef):
            c = Class(s, sc.mod, prefix + s.name)
            self.classes.append(c)
            c.outer = sc
            sc.bind(s.name, ("cls", c))
            for b in s.bases + [k.value for k in s.keywords] + s.decorator_list:
                self.expr(b, sc)
            csc = Scope(c, sc.mod, sc, s)
            csc.is_class = True
            c.scope = csc
            self.body(s.body, csc, c, prefix + s.name + ".")
            for n, hows in csc.names.items():
                c.class_attrs.setdefault(n, []).extend(hows)
        else:
            if isinstance(s, ast.Global):
                sc.globals |= set(s.names)
                return
            if isinstance(s, ast.Nonlocal):
                sc.nonlocals |= set(s.names)
                return
            if isinstance(s, (ast.Import, ast.ImportFrom)):
                self.imp(s, sc)
                return
            if isinstance(s, ast.Assign):
                for t in s.targets:
                    self.assign(t, ("expr", s.value, sc), sc)
            elif isinstance(s, ast.AnnAssign):
                self.assign(s.target, ("ann", s.annotation, sc), sc)
            elif isinstance(s, ast.AugAssign):
                self.assign(s.target, ("expr", ast.BinOp(s.target, s.op, s.value), sc), sc, aug=True)
            elif isinstance(s, (ast.For, ast.AsyncFor)):
                self.assign(s.target, ("elem", s.iter, sc), sc)
            elif isinstance(s, (ast.With, ast.AsyncWith)):
                for i in s.items:
                    if i.optional_vars is not None:
                        self.assign(i.optional_vars, ("with", i.context_expr, sc), sc)
            elif isinstance(s, ast.Try):
                for h in s.handlers:
                    self.nodescope[id(h)] = sc
                    if h.name:
                        sc.bind(h.name, ("type", ANY))
                    if h.type:
                        self.expr(h.type, sc)
            elif isinstance(s, ast.Match):
                for case in s.cases:
                    for n in ast.walk(case.pattern):
                        for f in ("name", "rest"):
                            if isinstance(getattr(n, f, None), str):
                                sc.bind(getattr(n, f), ("type", ANY))
                        if isinstance(n, ast.expr):
                            self.nodescope[id(n)] = sc
            for f, v in ast.iter_fields(s):
                for x in v if isinstance(v, list) else [v]:
                    if isinstance(x, ast.stmt):
                        self.stmt(x, sc, cls, prefix)
                    elif isinstance(x, ast.expr):
                        self.expr(x, sc)
                    elif isinstance(x, ast.ExceptHandler):
                        self.body(x.body, sc, cls, prefix)
                    elif isinstance(x, ast.withitem):
                        self.expr(x.context_expr, sc)
                        if x.optional_vars is not None:
                            self.expr(x.optional_vars, sc)
                    elif isinstance(x, ast.match_case):
                        if x.guard:
                            self.expr(x.guard, sc)
                        self.body(x.body, sc, cls, prefix)

    def annotations(self, s, sc):
        a = s.args
        for p in a.posonlyargs + a.args + a.kwonlyargs + [x for x in (a.vararg, a.kwarg) if x]:
            if p.annotation is not None:
                self.expr(p.annotation, sc)
        if s.returns is not None:
            self.expr(s.returns, sc)

    def function(self, d, outer):
        node = d.node
        o = outer
        fs = Scope(d, d.mod, o, node)
        d.scope = fs
        a = node.args
        ps = a.posonlyargs + a.args
        for i, p in enumerate(ps + a.kwonlyargs):
            if i == 0 and d.cls is not None and not d.static and p in ps:
                fs.bind(p.arg, ("type", frozenset({("class" if d.classm or d.name in ("__new__", "__init_subclass__", "__class_getitem__") else "inst", d.cls)})))
            elif p.annotation is not None:
                fs.bind(p.arg, ("ann", p.annotation, o))
            else:
                fs.bind(p.arg, ("type", ANY))
        for p in (a.vararg, a.kwarg):
            if p:
                fs.bind(p.arg, ("type", ANY))
        if isinstance(node, ast.Lambda):
            self.expr(node.body, fs)
        else:
            # declarations first: they hold for the whole body
            for n in ast.walk(node):
                if isinstance(n, ast.Global):
                    fs.globals |= set(n.names)
                if isinstance(n, ast.Nonlocal):
                    fs.nonlocals |= set(n.names)
            self.body(node.body, fs, None, d.qual + ".<locals>.")

    def expr(self, x, sc):
        self.nodescope[id(x)] = sc
        if isinstance(x, ast.Lambda):
            d = Def(x, sc.mod, "<lambda>", None, sc)
            x._def = d
            for k in x.args.defaults + [k for k in x.args.kw_defaults if k]:
                self.expr(k, sc)
            self.function(d, sc)
            return
        if isinstance(x, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            cs = Scope(sc.owner, sc.mod, sc, x)
            cs.comp = True
            for i, g in enumerate(x.generators):
                self.nodescope[id(g)] = cs
                self.expr(g.iter, sc if i == 0 else cs)
                self.assign(g.target, ("elem", g.iter, sc if i == 0 else cs), cs)
                self.expr(g.target, cs)
                for c in g.ifs:
                    self.expr(c, cs)
            for f in ("elt", "key", "value"):
                if hasattr(x, f):
                    self.expr(getattr(x, f), cs)
            return
        if isinstance(x, ast.NamedExpr):
            s = sc
            while getattr(s, "comp", False):
                s = s.outer
            self.assign(x.target, ("expr", x.value, sc), s)
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("isinstance", "hasattr", "getattr", "issubclass", "callable", "type") and x.args:
            n = x.args[0]
            if isinstance(n, ast.Name):
                s = sc
                while s is not None and n.id not in s.names:
                    s = s.outer
                (s or sc).tested.add(n.id)
            if isinstance(n, ast.Attribute):
                sc.tested.add(ast.dump(n))
        for ch in ast.iter_child_nodes(x):
            if isinstance(ch, (ast.expr, ast.keyword, ast.comprehension)):
                if isinstance(ch, ast.keyword):
                    self.nodescope[id(ch)] = sc
                    self.expr(ch.value, sc)
                elif isinstance(ch, ast.expr):
                    self.expr(ch, sc)

    def assign(self, t, how, sc, aug=False):
        if isinstance(t, ast.Name):
            sc.bind(t.id, how)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, e in enumerate(t.elts):
                self.assign(e.value if isinstance(e, ast.Starred) else e, ("item", how, i if not isinstance(e, ast.Starred) else None, len(t.elts)), sc)
        elif isinstance(t, ast.Attribute):
            self.attr_sets = getattr(self, "attr_sets", [])
            self.attr_sets.append((t, how, sc, aug))

    def imp(self, s, sc):
        pk = self.program.package
        if isinstance(s, ast.Import):
            for a in s.names:
                if a.asname:
                    sc.bind(a.asname, ("module", a.name))
                else:
                    sc.bind(a.name.split(".")[0], ("module", a.name.split(".")[0]))
            return
        base = self.import_base(s, sc.mod)
        for a in s.names:
            if a.name == "*":
                sc.star = True
                continue
            sc.bind(a.asname or a.name, ("from", base, a.name))

    def import_base(self, s, m):
        if not s.level:
            return s.module
        parts = m.name.split(".")
        if not m.is_pkg:
            parts = parts[:-1]
        parts = parts[: len(parts) - (s.level - 1)]
        return ".".join(parts + ([s.module] if s.module else []))

    # ------------------------------------------------------------ linking
    def link(self):
        for c in self.classes:
            for b in c.node.bases:
                t = self.type(b, c.outer)
                for x in t:
                    if x[0] == "class":
                        c.base_types.append(x[1])
                        x[1].subs.append(c)
                    elif x[0] == "ext" and x[1] in ("builtins.object", "abc.ABC"):
                        pass
                    else:
                        c.base_types.append(None)
        for t, how, sc, aug in getattr(self, "attr_sets", []):
            if aug:
                continue
            own = self.owner_of(t.value, sc)
            if own is not None:
                own.attrs.setdefault(t.attr, []).append((how, sc, t))
        # attributes set through other receivers
        for t, how, sc, aug in getattr(self, "attr_sets", []):
            if aug or self.owner_of(t.value, sc) is not None:
                continue
            for x in self.type(t.value, sc):
                if x[0] == "inst":
                    x[1].attrs.setdefault(t.attr, []).append((how, sc, t))
        for c in self.classes:
            for s in c.scope.names.values():
                for s in s:
                    pass
        for s in self.all_scopes():
            s.cache.clear()

    def all_scopes(self):
        seen = {}
        for s in list(self.modules.values()) + [d.scope for d in self.defs if d.scope] + list(self.nodescope.values()):
            seen[id(s)] = s
        return list(seen.values())

    def owner_of(self, v, sc):
        if isinstance(v, ast.Name):
            s = sc
            while s is not None:
                if v.id in s.names:
                    for how in s.names[v.id]:
                        if how[0] == "type" and len(how[1]) == 1:
                            x = next(iter(how[1]))
                            if x[0] in ("inst", "class"):
                                return x[1]
                    return None
                s = s.outer
        return None

    # ------------------------------------------------------------ lookup
    def find(self, name, sc):
        """The scope that binds a name as seen from sc; None if no scope does."""
        s = sc
        first = True
        while s is not None:
            if s.outer is None:
                return s if name in s.names else None
            if getattr(s, "is_class", False) and not first:
                s = s.outer
                continue
            if name in s.globals:
                while s.outer is not None:
                    s = s.outer
                return s if name in s.names else None
            if name in s.names and name not in s.nonlocals:
                return s
            if not getattr(s, "comp", False):
                first = False
            s = s.outer
        return None

    def name_type(self, name, sc):
        s = self.find(name, sc)
        if s is None:
            return frozenset({("ext", f"builtins.{name}")}) if hasattr(builtins, name) else ANY
        if name in s.cache:
            return s.cache[name]
        key = (id(s), name)
        if key in self.typing_stack:
            return frozenset()
        self.typing_stack.add(key)
        out = set()
        hows = s.names[name]
        if any(h[0] == "ann" for h in hows):
            hows = [h for h in hows if h[0] != "expr"]
        for h in hows:
            out |= self.bound(h)
        self.typing_stack.discard(key)
        r = frozenset(out)
        if not self.typing_stack:
            s.cache[name] = r
        return r

    def bound(self, how):
        k = how[0]
        if k == "type":
            return how[1]
        if k == "def":
            return frozenset({("func", how[1])})
        if k == "cls":
            return frozenset({("class", how[1])})
        if k == "expr":
            return self.type(how[1], how[2])
        if k == "ann":
            return self.ann(how[1], how[2])
        if k == "elem":
            return self.elem(self.type(how[1], how[2]))
        if k == "with":
            t = self.type(how[1], how[2])
            return frozenset(x if x[0] == "ext" else ("?",) for x in t)
        if k == "item":
            return self.nth(self.bound(how[1]), how[2])
        if k == "module":
            return frozenset({("mod", how[1])}) if how[1] in self.modules else frozenset({("ext", how[1])})
        if k == "from":
            if how[1] in self.modules:
                s = self.modules[how[1]]
                if how[2] in s.names:
                    return self.name_type(how[2], s)
                sub = f"{how[1]}.{how[2]}"
                return frozenset({("mod", sub)}) if sub in self.modules else ANY
            return frozenset({("ext", f"{how[1]}.{how[2]}")})
        return ANY

    def elem(self, t):
        out = set()
        for x in t:
            if x[0] == "list":
                out |= x[1]
            elif x[0] == "tuple":
                for e in x[1]:
                    out |= e
            elif x[0] == "none":
                continue
            else:
                out |= ANY
        return frozenset(out)

    def nth(self, t, i):
        out = set()
        for x in t:
            if x[0] == "tuple":
                out |= x[1][i] if i is not None and i < len(x[1]) else ANY
            elif x[0] == "list":
                out |= x[1]
            elif x[0] == "none":
                continue
            else:
                out |= ANY
        return frozenset(out)

    def ann(self, a, sc):
        if isinstance(a, ast.Constant):
            if a.value is None:
                return NONE
            if isinstance(a.value, str):
                try:
                    e = ast.parse(a.value, mode="eval").body
                except SyntaxError:
                    return ANY
                for n in ast.walk(e):
                    self.nodescope[id(n)] = sc
                return self.ann(e, sc)
            return ANY
        if isinstance(a, ast.Subscript):
            h = {x[1].split(".")[-1] for x in self.type(a.value, sc) if x[0] == "ext"}
            arg = a.slice.elts if isinstance(a.slice, ast.Tuple) else [a.slice]
            if h & {"Optional"}:
                return self.ann(arg[0], sc) | NONE
            if h & {"Union"}:
                out = set()
                for x in arg:
                    out |= self.ann(x, sc)
                return frozenset(out)
            if h & {"List", "list", "Sequence", "Iterable", "Set", "set"}:
                return frozenset({("list", self.ann(arg[0], sc))})
            if h & {"Tuple", "tuple"}:
                if len(arg) == 2 and isinstance(arg[1], ast.Constant) and arg[1].value is Ellipsis:
                    return frozenset({("list", self.ann(arg[0], sc))})
                return frozenset({("tuple", tuple(self.ann(x, sc) for x in arg))})
            if h & {"Final", "ClassVar", "Annotated"}:
                return self.ann(arg[0], sc)
            return ANY
        if isinstance(a, ast.BinOp) and isinstance(a.op, ast.BitOr):
            return self.ann(a.left, sc) | self.ann(a.right, sc)
        out = set()
        for x in self.type(a, sc):
            if x[0] == "class":
                out.add(("inst", x[1]))
            elif x[0] == "ext" and x[1] in ("builtins.int", "builtins.float", "builtins.str", "builtins.bool", "builtins.bytes"):
                out.add(("data",))
            else:
                out.add(("?",))
        return frozenset(out)

    # ------------------------------------------------------------ expressions
    def type(self, x, sc):
        sc = self.nodescope.get(id(x), sc)
        if isinstance(x, ast.Name):
            return self.name_type(x.id, sc)
        if isinstance(x, ast.Constant):
            return NONE if x.value is None else DATA
        if isinstance(x, ast.Attribute):
            out = set()
            for t in self.type(x.value, sc):
                out |= self.member(t, x.attr)
            return frozenset(out)
        if isinstance(x, ast.Call):
            if isinstance(x.func, ast.Name) and x.func.id == "super" and not x.args:
                d = sc
                while d is not None and not (isinstance(d.owner, Def) and d.owner.cls):
                    d = d.outer
                if d is not None:
                    return frozenset({("super", d.owner.cls)})
            out = set()
            for t in self.type(x.func, sc):
                out |= self.result(t, x, sc)
            return frozenset(out)
        if isinstance(x, ast.IfExp):
            return self.type(x.body, sc) | self.type(x.orelse, sc)
        if isinstance(x, ast.BoolOp):
            out = set()
            for v in x.values:
                out |= self.type(v, sc)
            return frozenset(out)
        if isinstance(x, (ast.List, ast.Set)):
            out = set()
            for e in x.elts:
                out |= self.type(e, sc) if not isinstance(e, ast.Starred) else self.elem(self.type(e.value, sc))
            if not x.elts:
                return frozenset({("list", frozenset())}) | ANY
            return frozenset({("list", frozenset(out))})
        if isinstance(x, ast.Tuple):
            if any(isinstance(e, ast.Starred) for e in x.elts):
                return ANY
            return frozenset({("tuple", tuple(self.type(e, sc) for e in x.elts))})
        if isinstance(x, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
            return frozenset({("list", self.type(x.elt, sc))})
        if isinstance(x, ast.Subscript):
            t = self.type(x.value, sc)
            if isinstance(x.slice, ast.Slice):
                return t
            i = x.slice.value if isinstance(x.slice, ast.Constant) and isinstance(x.slice.value, int) and x.slice.value >= 0 else None
            return self.nth(t, i)
        if isinstance(x, ast.NamedExpr):
            return self.type(x.value, sc)
        if isinstance(x, (ast.Compare, ast.JoinedStr)):
            return DATA
        if isinstance(x, ast.BinOp):
            m = OPERATORS.get(type(x.op))
            out = set()
            for t in self.type(x.left, sc):
                got = self.member(t, m) if m and t[0] == "inst" else ANY
                for b in got:
                    out |= self.result(b, None, sc) if b[0] == "bound" else ANY
            return frozenset(out) or ANY
        if isinstance(x, ast.Lambda):
            return frozenset({("func", x._def)}) if hasattr(x, "_def") else ANY
        return ANY

    def member(self, t, attr):
        if attr == "__class__" and t[0] == "inst":
            return frozenset({("class", t[1])})
        if t[0] == "mod":
            s = self.modules[t[1]]
            if attr in s.names:
                return self.name_type(attr, s)
            sub = f"{t[1]}.{attr}"
            return frozenset({("mod", sub)}) if sub in self.modules else ANY
        if t[0] == "ext":
            return frozenset({("ext", f"{t[1]}.{attr}")})
        if t[0] in ("inst", "class", "super"):
            seq = self.mro(t[1])
            if t[0] == "super":
                seq = seq[1:]
            for c in seq:
                if c is None:
                    return ANY
                if attr in c.methods:
                    d = c.methods[attr]
                    if d.prop:
                        return self.ann(d.node.returns, d.outer) if d.node.returns is not None else ANY
                    return frozenset({("bound" if t[0] != "class" and not d.static else ("bound" if d.classm else "func"), d)})
                if attr in c.attrs:
                    key = (id(c), attr)
                    if key in self.typing_stack:
                        return frozenset()
                    self.typing_stack.add(key)
                    out = set()
                    hows = [h for h, _, _ in c.attrs[attr]]
                    if any(h[0] == "ann" for h in hows):
                        hows = [h for h in hows if h[0] == "ann"]
                    for h in hows:
                        out |= self.bound(h)
                    for h in c.class_attrs.get(attr, []):
                        out |= self.bound(h)
                    self.typing_stack.discard(key)
                    return frozenset(out)
                if attr in c.class_attrs:
                    out = set()
                    for h in c.class_attrs[attr]:
                        out |= self.bound(h)
                    return frozenset(out)
            return ANY
        return ANY

    def result(self, t, call, sc):
        if t[0] == "class":
            return frozenset({("inst", t[1])})
        if t[0] in ("func", "bound"):
            d = t[1]
            if isinstance(d.node, ast.Lambda):
                return self.type(d.node.body, d.scope)
            if d.node.returns is not None:
                return self.ann(d.node.returns, d.outer)
            return self.returned(d)
        if t[0] == "ext":
            n = t[1]
            if n in ("builtins.enumerate",) and call.args:
                return frozenset({("list", frozenset({("tuple", (DATA, self.elem(self.type(call.args[0], sc))))}))})
            if n == "builtins.zip" and not any(isinstance(a, ast.Starred) for a in call.args):
                return frozenset({("list", frozenset({("tuple", tuple(self.elem(self.type(a, sc)) for a in call.args))}))})
            if n in ("builtins.reversed", "builtins.list", "builtins.tuple", "builtins.sorted", "copy.copy", "copy.deepcopy", "builtins.iter") and call.args:
                return self.type(call.args[0], sc)
            if n == "builtins.next" and call.args:
                return self.elem(self.type(call.args[0], sc)) | (self.type(call.args[1], sc) if len(call.args) > 1 else frozenset())
            if n == "builtins.type" and call is not None and len(call.args) == 1:
                return frozenset({("class", x[1]) if x[0] == "inst" else ("?",) for x in self.type(call.args[0], sc)})
            if n in ("builtins.len", "builtins.abs", "builtins.round", "builtins.str", "builtins.float", "builtins.int", "builtins.sum", "builtins.bool"):
                return DATA
        return ANY

    def returned(self, d):
        """Types of the values a function without annotation returns."""
        if not hasattr(d, "_ret"):
            key = ("ret", id(d))
            if key in self.typing_stack:
                return ANY
            self.typing_stack.add(key)
            out, exits = set(), 0
            stack = list(d.node.body)
            while stack:
                n = stack.pop()
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
                    continue
                if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)):
                    out |= ANY
                if isinstance(n, ast.Return):
                    exits += 1
                    out |= NONE if n.value is None else self.type(n.value, d.scope)
                stack.extend(ast.iter_child_nodes(n))
            if not d.plain:
                out |= ANY
            if not exits or not isinstance(d.node.body[-1], (ast.Return, ast.Raise)):
                out |= NONE
            self.typing_stack.discard(key)
            if self.typing_stack:
                return frozenset(out)
            d._ret = frozenset(out)
        return d._ret

    def mro(self, c, seen=()):
        if c is None or c in seen:
            return [None] if c is None else []
        out = [c]
        for b in c.base_types:
            for x in self.mro(b, (*seen, c)):
                if x is None:
                    out.append(None)
                    continue
                if x in out:
                    out.remove(x)
                out.append(x)
        if any(self.dynamic(x) for x in out if x is not None):
            out.append(None)
        return out

    def dynamic(self, c):
        return "__getattr__" in c.methods or "__getattribute__" in c.methods or any("namedtuple" in ast.unparse(d) for d in c.node.decorator_list)

    def subclasses(self, c):
        out = [c]
        for s in c.subs:
            out += self.subclasses(s)
        return out

    def dotted(self, x, sc=None):
        """Dotted names an expression may stand for (library objects), functions of the package as their qualified name."""
        out = set()
        for t in self.type(x, sc):
            if t[0] == "ext":
                out.add(t[1])
            elif t[0] in ("func", "bound"):
                out.add(f"{t[1].mod.name}.{t[1].qual}")
            elif t[0] == "class":
                out.add(f"{t[1].mod.name}.{t[1].qual}")
            elif t[0] == "mod":
                out.add(t[1])
        return out

    def calls(self):
        """Every call: (module, enclosing definition or None, call node, scope)."""
        for m in self.program.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Call) and id(n) in self.nodescope:
                    sc = self.nodescope[id(n)]
                    yield m, self.enclosing(sc), n, sc

    def enclosing(self, sc):
        while sc is not None and not isinstance(sc.owner, Def):
            sc = sc.outer
        return sc.owner if sc is not None else None

    def place(self, m, node, sc):
        d = self.enclosing(sc)
        return f"{m.path}:{getattr(node, 'lineno', 0)} {d.qual if d else '<module>'}"
