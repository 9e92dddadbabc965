"""Source loading: modules of the package, functions, classes (with MRO), import resolution."""
import ast
import os
import hashlib


class AnalysisError(Exception):
    """The analysis lost an anchor it needs: the check ends with an error, never with a silent pass."""


class Module:
    def __init__(self, name, path, src, tree):
        self.name, self.path, self.src, self.tree = name, path, src, tree
        self.ns = None
        self.evaluating = False

    def __repr__(self):
        return f"<module {self.name}>"


class Func:
    def __init__(self, node, module, qualname, frame=None, cls=None):
        self.node, self.module, self.qualname, self.frame, self.cls = node, module, qualname, frame, cls
        self.name = getattr(node, "name", "<lambda>")
        self.defaults = []
        self.kw_defaults = {}
        self.memo = False  # keeps results (functools.cache)
        self.kind = "function"  # function | static | class
        body = node.body if isinstance(node.body, list) else [node.body]
        self.is_gen = not isinstance(node, ast.Lambda) and _has_yield(body)
        self.nonlocals = set()
        self.globals = set()
        if not isinstance(node, ast.Lambda):
            for n in _own_nodes(body):
                if isinstance(n, ast.Nonlocal):
                    self.nonlocals |= set(n.names)
                elif isinstance(n, ast.Global):
                    self.globals |= set(n.names)
        self.locals = local_names(node)

    def __repr__(self):
        return f"<func {self.module.name}.{self.qualname}>"


class Cls:
    def __init__(self, name, module, qualname, bases, node):
        self.name, self.module, self.qualname, self.bases, self.node = name, module, qualname, bases, node
        self.ns = {}
        self.dataclass = None
        self.fields = []

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, Cls):
                for c in b.mro():
                    if c in out:
                        out.remove(c)
                    out.append(c)
        return out

    def lookup(self, name):
        for c in self.mro():
            if name in c.ns:
                return c.ns[name], c
        return None, None

    def external_bases(self):
        return [b for c in self.mro() for b in c.bases if not isinstance(b, Cls)]

    def __repr__(self):
        return f"<class {self.qualname}>"


def _own_nodes(body):
    """Nodes of a function body without nested function/class bodies."""
    stack = list(body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


def _has_yield(body):
    return any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in _own_nodes(body))


def target_names(t):
    if isinstance(t, ast.Name):
        yield t.id
    elif isinstance(t, (ast.Tuple, ast.List)):
        for e in t.elts:
            yield from target_names(e)
    elif isinstance(t, ast.Starred):
        yield from target_names(t.value)


def local_names(fn):
    a = fn.args
    names = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
    if a.vararg:
        names.add(a.vararg.arg)
    if a.kwarg:
        names.add(a.kwarg.arg)
    if isinstance(fn, ast.Lambda):
        return names
    glob = set()
    comp = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)
    stack = list(fn.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            names.add(n.name)
            continue
        if isinstance(n, ast.Lambda):
            continue
        if isinstance(n, comp):
            for sub in ast.walk(n):
                if isinstance(sub, ast.NamedExpr):
                    names |= set(target_names(sub.target))
            continue
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            glob |= set(n.names)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                names.add((al.asname or al.name).split(".")[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        stack.extend(ast.iter_child_nodes(n))
    return names - glob


class Program:
    def __init__(self, root, package="pyGCodeDecode"):
        self.root, self.package = root, package
        self.modules = {}
        base = os.path.join(root, package)
        if not os.path.isdir(base):
            raise AnalysisError(f"package directory {base} not found")
        self.digest = hashlib.sha256()
        for d, dirs, files in sorted(os.walk(base)):
            dirs[:] = sorted(x for x in dirs if x != "__pycache__" and x != "data")
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                path = os.path.join(d, f)
                rel = os.path.relpath(path, root)[:-3].split(os.sep)
                if rel[-1] == "__init__":
                    rel = rel[:-1]
                with open(path, encoding="utf-8") as fh:
                    src = fh.read()
                self.digest.update(src.encode())
                name = ".".join(rel)
                tree = ast.parse(src, path)
                m = Module(name, os.path.relpath(path, root), src, tree)
                m.is_pkg = f == "__init__.py"
                self.modules[name] = m

    def mod(self, short):
        name = f"{self.package}.{short}" if short else self.package
        if name not in self.modules:
            raise AnalysisError(f"module {name} not found")
        return self.modules[name]

    def functions(self):
        """Every function definition: (module, qualname, node, class node or None)."""
        out = []

        def walk(m, node, prefix, cls):
            for ch in ast.iter_child_nodes(node):
                if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    q = prefix + ch.name
                    out.append((m, q, ch, cls))
                    walk(m, ch, q + ".<locals>.", None)
                elif isinstance(ch, ast.ClassDef):
                    walk(m, ch, prefix + ch.name + ".", ch)
                elif not isinstance(ch, ast.Lambda):
                    walk(m, ch, prefix, cls)

        for m in self.modules.values():
            walk(m, m.tree, "", None)
        return out
