"""L02-L06, S04, X05: facts about the whole package, read off the resolved program."""
import ast
import builtins
import importlib
import inspect
import os
import sys

from .. import resolve
from ..resolve import World, Class, Def


def world(lab):
    if not hasattr(lab, "_world"):
        lab._world = World(lab.program)
        lab.functions |= {f"{d.mod.name}.{d.qual}" for d in lab._world.defs}
        lab.callsites += sum(1 for _ in lab._world.calls())
    return lab._world


def at(w, m, node, sc):
    return w.place(m, node, sc)


# ---------------------------------------------------------------- L03
def l03(lab):
    w = world(lab)
    names(lab, w)
    imports(lab, w)
    attributes(lab, w)
    signatures(lab, w)
    built_blocks(lab, w)
    documented(lab)


def names(lab, w):
    """Every name that is read is bound somewhere it can be seen from."""
    count = 0
    for m in lab.program.modules.values():
        star = getattr(w.modules[m.name], "star", False)
        for n in ast.walk(m.tree):
            if not isinstance(n, ast.Name) or not isinstance(n.ctx, ast.Load) or id(n) not in w.nodescope:
                continue
            sc = w.nodescope[id(n)]
            count += 1
            s = w.find(n.id, sc)
            ok = s is not None or hasattr(builtins, n.id) or star
            if not ok:
                lab.structural(f"name {n.id} in {at(w, m, n, sc).split(' ', 1)[-1]}", False, at(w, m, n, sc), f"name '{n.id}' is not defined")
    lab.structural("every name is bound", True, "pyGCodeDecode", detail=f"{count} names")
    lab.extra["names"] = count


def imports(lab, w):
    count = 0
    for m in lab.program.modules.values():
        for n in ast.walk(m.tree):
            if not isinstance(n, ast.ImportFrom):
                continue
            base = w.import_base(n, m)
            if not base or base.split(".")[0] != lab.program.package:
                continue
            sc = w.nodescope.get(id(n), w.modules[m.name])
            if base not in w.modules:
                lab.structural(f"{m.name} imports {base}", False, at(w, m, n, sc), f"module {base} does not exist")
                continue
            for a in n.names:
                count += 1
                t = w.modules[base]
                ok = a.name == "*" or a.name in t.names or f"{base}.{a.name}" in w.modules
                lab.structural(f"{m.name} imports {a.name} from {base}", ok, at(w, m, n, sc), f"{base} does not define {a.name}")
    lab.extra["package imports"] = count


def defined_in(w, c, attr):
    """Is the attribute defined by the class, its bases or a subclass?  None when the class is not fully known."""
    for x in w.mro(c):
        if x is None:
            return None
        if attr in x.methods or attr in x.attrs or attr in x.class_attrs:
            return True
    if hasattr(object, attr) or attr in ("__dict__", "__module__", "__annotations__", "__name__", "__qualname__"):
        return True
    return False


def initialised(w, c):
    """Attributes every instance has after construction: class level, __init__ and what it calls on self; and alternative
    constructors of the class."""
    out = set()
    for x in w.mro(c):
        if x is None:
            return None
        out |= set(x.class_attrs) | set(x.methods)
        if x.node.decorator_list:
            return None
    seen = set()
    work = ["__init__", "__new__", "__post_init__"]
    while work:
        name = work.pop()
        if name in seen:
            continue
        seen.add(name)
        for x in w.mro(c):
            ds = [d for d in x.all_methods if d.name == name]
            for d in ds:
                me = d.node.args.args[0].arg if d.node.args.args else None
                for n in ast.walk(d.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me:
                        if isinstance(n.ctx, ast.Store):
                            out.add(n.attr)
                        work.append(n.attr)
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("setattr", "vars") or isinstance(n, ast.Attribute) and n.attr == "__dict__":
                        return None
            if ds and (name != "__init__" or not any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "super" for d in ds for n in ast.walk(d.node))):
                break
    return out


def asked(w, fn_node):
    """Attribute names a function tests before use, and those it assigns itself."""
    tested, own = set(), set()
    for n in ast.walk(fn_node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("hasattr", "getattr", "setattr") and len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
            tested.add(n.args[1].value)
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
            own.add(n.attr)
        if isinstance(n, ast.ExceptHandler) and n.type is not None and "AttributeError" in ast.unparse(n.type):
            tested.add("*")
    return tested, own


def attributes(lab, w):
    count, undecided = 0, 0
    per = {}
    for m in lab.program.modules.values():
        for n in ast.walk(m.tree):
            if not isinstance(n, ast.Attribute) or not isinstance(n.ctx, ast.Load) or id(n) not in w.nodescope:
                continue
            sc = w.nodescope[id(n)]
            ts = w.type(n.value, sc)
            d = w.enclosing(sc)
            tested = asked(w, d.node)[0] if d else set()
            if n.attr in tested or "*" in tested:
                continue
            if isinstance(n.value, ast.Name):
                s = w.find(n.value.id, sc)
                if s is not None and n.value.id in s.tested:
                    continue
            place = at(w, m, n, sc)
            for t in ts:
                if t[0] == "mod":
                    count += 1
                    ok = n.attr in w.modules[t[1]].names or f"{t[1]}.{n.attr}" in w.modules or getattr(w.modules[t[1]], "star", False)
                    lab.structural(f"{ast.unparse(n)} in {place.split(' ', 1)[-1]}", ok, place, f"module {t[1]} does not define '{n.attr}'")
                elif t[0] == "ext":
                    r = library(t[1] + "." + n.attr)
                    if r is None:
                        r = dependency(t[1], n.attr)
                    if r is not None:
                        count += 1
                        lab.structural(f"{ast.unparse(n)} in {place.split(' ', 1)[-1]}", r, place, f"{t[1]} has no '{n.attr}'")
            known = [t for t in ts if t[0] in ("inst", "class", "super")]
            if known and all(t[0] in ("inst", "class", "super", "none") for t in ts):
                res = []
                for t in known:
                    c = t[1]
                    r = defined_in(w, c, n.attr)
                    if r is False and any(defined_in(w, s, n.attr) is not False for s in w.subclasses(c)[1:]):
                        r = None
                    res.append(r)
                count += 1
                key = f"{'/'.join(sorted(t[1].name for t in known))}.{n.attr} in {place.split(' ', 1)[-1]}"
                if all(r is False for r in res):
                    lab.structural(key, False, place, f"attribute '{n.attr}' is not defined by {'/'.join(sorted(t[1].name for t in known))}")
                elif all(r is True for r in res):
                    per.setdefault(key, 0)
                    for t in known:
                        if t[0] == "inst" and (d is None or d.cls is not t[1]) and n.attr in t[1].attrs:
                            w.outside = getattr(w, "outside", {})
                            w.outside.setdefault((t[1].name, n.attr), place)
                    late(lab, w, m, n, sc, known, place, key)
                else:
                    undecided += 1
            elif ts:
                undecided += 1
    for k in sorted(per):
        lab.structural(k, True, "")
    lab.extra["attribute reads"] = {"decided": count, "receiver type not known": undecided}


def late(lab, w, m, n, sc, known, place, key):
    """An attribute of the class that no instance gets when it is constructed, read where it was not set before."""
    d = w.enclosing(sc)
    if d is None:
        return
    tested, own = asked(w, d.node)
    if n.attr in own:
        return
    for t in known:
        if t[0] != "inst":
            continue
        init = initialised(w, t[1])
        if init is None or n.attr in init:
            continue
        # set by another function through the instance: a two-step protocol we do not judge, unless nobody sets it
        setters = [x for x in w.mro(t[1]) if x is not None and n.attr in x.attrs]
        if not setters:
            continue
        outside = [h for x in setters for h in x.attrs[n.attr] if w.enclosing(h[1]) is None or w.enclosing(h[1]).cls is not t[1]]
        if outside:
            continue
        lab.structural(f"{key}: set at construction", False, place, f"attribute '{n.attr}' of {t[1].name} is read, but no constructor sets it and this function does not set it before")


def built_blocks(lab, w):
    """Every block the planner keeps carries the attributes that other parts read from a block."""
    from .common import p_settings, make_state, link, ZERO
    from ..terms import const
    from fractions import Fraction

    want = {a: pl for (c, a), pl in getattr(w, "outside", {}).items() if c == "planner_block"}
    where = lab.where("planner_block.planner_block.__init__")
    O, X, XE, E = [ZERO] * 4, [1, 0, 0, 0], [1, 0, 0, 1], [0, 0, 0, 1]
    kinds = {
        "a travel move": (O, X, False, False), "a printing move": (O, XE, False, False), "an extrusion-only move": (O, E, False, False),
        "a dwell": (O, O, True, False), "a move with a dwell": (O, X, True, False), "a dwell after a move": (O, X, True, True),
    }
    for label, (a, b, dwell, after) in kinds.items():
        def go():
            sc = lab.scene(normalize=True)
            ps = p_settings(sc, sc.sym("acc", "pos"), sc.sym("jerk", "pos"), sc.sym("spd", "pos"))
            L = sc.sym("L", "pos")
            from ..engine import mul

            P = [[mul(L, const(Fraction(x))) if not hasattr(x, "op") else x for x in p] for p in (a, b)]
            st = [make_state(sc, p, ps) for p in P + ([P[1]] if after else [])]
            for x, y in zip(st, st[1:]):
                link(sc, x, y)
            if dwell:
                sc.set(st[-1], "pause", sc.sym("dur", "pos"))
            blocks = sc.call(sc.name("gcode_interpreter", "generate_planner_blocks"), sc.list(st))
            items = sc.items(blocks) if blocks is not None else []
            if not items:
                lab.undecided(f"attributes of the block of {label}", where, "no block derivable")
                return
            o = sc.obj(items[-1][1])
            for attr, place in sorted(want.items()):
                ok = attr in o.fields or o.cls.lookup(attr)[0] is not None
                lab.structural(f"the block of {label} has {attr}", ok, place, f"attribute '{attr}' of planner_block is read, but the block of {label} does not have it")

        lab.attempt(f"attributes of the block of {label}", where, go)


def documented(lab):
    """The Python statements of the README and the signatures of doc.md fit the package."""
    import copy
    import re
    from ..program import Module

    path = os.path.join(lab.root, "README.md")
    calls = 0
    if os.path.exists(path):
        with open(path, encoding="utf-8") as fh:
            text = fh.read()
        src, line = [], 1
        for part in re.split(r"(^```python\n.*?^```)", text, flags=re.S | re.M):
            n = part.count("\n")
            if part.startswith("```python\n"):
                code = part[len("```python\n"):-3]
                try:
                    ast.parse(code)
                except SyntaxError:
                    code = "\n" * (n - 1)
                src.append("\n" + code)
            else:
                src.append("\n" * n)
        prog = copy.copy(lab.program)
        src = "".join(src)
        m = Module("README", "README.md", src, ast.parse(src))
        m.is_pkg = False
        prog.modules = {**lab.program.modules, "README": m}
        w = World(prog)
        one = copy.copy(lab)
        one.program = copy.copy(prog)
        one.program.modules = {"README": m}
        one.extra = {}
        names(one, w)
        imports_of(one, w, m)
        attributes(one, w)
        full = w.calls
        w.calls = lambda: (c for c in full() if c[0] is m)
        signatures(one, w)
        calls = one.extra.get("calls matched", {}).get("package", 0)
    lab.extra["documented calls"] = calls
    interface(lab)


def imports_of(lab, w, m):
    for n in ast.walk(m.tree):
        if isinstance(n, ast.ImportFrom) and n.module and n.module.split(".")[0] == lab.program.package:
            for a in n.names:
                ok = n.module in w.modules and (a.name in w.modules[n.module].names or f"{n.module}.{a.name}" in w.modules)
                lab.structural(f"README imports {a.name} from {n.module}", ok, f"README.md:{n.lineno}", f"{n.module} does not define {a.name}")


# what a user of the package calls; the rest of doc.md describes internals
INTERFACE = ("gcode_interpreter.simulation", "gcode_interpreter.setup", "tools", "abaqus_file_generator", "examples", "utils.segment")


def interface(lab):
    import re

    w = world(lab)
    path = os.path.join(lab.root, "doc.md")
    if not os.path.exists(path):
        return
    with open(path, encoding="utf-8") as fh:
        secs = re.split(r'<a id="([^"]+)"></a>', fh.read())
    count = 0
    for name, body in zip(secs[1::2], secs[2::2]):
        code = re.search(r"```python\n(.*?)```", body, re.S)
        rel = name[len(lab.program.package) + 1:]
        if not code or not name.startswith(lab.program.package + ".") or not any(rel == i or rel.startswith(i + ".") for i in INTERFACE):
            continue
        try:
            n = ast.parse(code.group(1).rstrip() + ": pass").body[0]
        except SyntaxError:
            continue
        d = documented_def(w, name)
        place = f"doc.md {name}"
        if isinstance(n, ast.ClassDef):
            lab.structural(f"{rel} exists", d is not None, place, f"the documented class {rel} does not exist")
            continue
        if not isinstance(n, ast.FunctionDef):
            continue
        count += 1
        if not isinstance(d, Def):
            if d is None:
                lab.structural(f"{rel} exists", False, place, f"the documented operation {rel} does not exist")
            continue
        if not d.plain or n.name.startswith("__") and n.name != "__init__":
            continue
        a = n.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        if d.cls is not None and not d.static and pos[:1] in (["self"], ["cls"]):
            pos = pos[1:]
        need = pos[: len(pos) - len(a.defaults)]
        skip = d.cls is not None and not d.static
        for label, call in (
            ("with its required arguments", ast.Call(ast.Name(n.name), [ast.Name(x) for x in need], [])),
            ("with every argument in order", ast.Call(ast.Name(n.name), [ast.Name(x) for x in pos], [])),
            ("with every argument by name", ast.Call(ast.Name(n.name), [], [ast.keyword(x, ast.Name(x)) for x in pos + [x.arg for x in a.kwonlyargs]])),
        ):
            ok, why = fits(d.node.args, call, None, skip)
            lab.structural(f"{rel} can be called {label}", ok, f"{d.mod.path}:{d.node.lineno} {d.qual}", f"the documented call of {rel} {label} does not fit: {why}")
        real = [x.arg for x in d.node.args.posonlyargs + d.node.args.args][1 if skip else 0:]
        ok = real[: len(pos)] == pos
        lab.structural(f"{rel} takes its arguments in the documented order", ok, f"{d.mod.path}:{d.node.lineno} {d.qual}", f"documented {', '.join(pos)}; defined {', '.join(real)}")
    lab.extra["documented operations"] = count


def documented_def(w, name):
    """The definition a dotted name stands for, looked up through modules, re-exports and bases."""
    parts = name.split(".")
    for i in range(len(parts), 0, -1):
        mod = ".".join(parts[:i])
        if mod in w.modules:
            ts = frozenset({("mod", mod)})
            for p in parts[i:]:
                out = set()
                for t in ts:
                    if t[0] == "class":
                        for c in w.mro(t[1]):
                            if c is None:
                                return "?"
                            if p in c.methods:
                                out.add(("func", c.methods[p]))
                                break
                            if p in c.class_attrs or p in c.attrs:
                                return "?"
                    elif t[0] == "mod" and p in w.modules[t[1]].names:
                        out |= set(w.member(t, p))
                    elif t[0] not in ("mod",):
                        return "?"
                ts = out
            for t in ts:
                return t[1] if t[0] in ("func", "bound", "class") else "?"
            return None
    return None


STDLIB = set(getattr(sys, "stdlib_module_names", ()))


def library(dotted):
    """Does a name of the standard library exist?  None for anything else."""
    parts = dotted.split(".")
    if parts[0] not in STDLIB or parts[0] == "builtins" and len(parts) > 2:
        return None
    obj = None
    for i in range(1, len(parts) + 1):
        if obj is not None and hasattr(obj, parts[i - 1]):
            obj = getattr(obj, parts[i - 1])
            if not inspect.ismodule(obj):
                # an attribute of a class or object: known only while we stay with classes and functions
                if i < len(parts):
                    if inspect.isclass(obj):
                        return hasattr(obj, parts[i]) or None
                    return None
            continue
        try:
            obj = importlib.import_module(".".join(parts[:i]))
        except Exception:
            return False if i == len(parts) and i > 1 else None
    return True


_stubs = {}


def site_names(module):
    """Names a module of an installed dependency defines, read from its stub or source; None if not readable."""
    import glob

    if module in _stubs:
        return _stubs[module]
    _stubs[module] = None
    out = None
    for base in sorted(glob.glob("/opt/venv/lib/python3*/site-packages")):
        stem = os.path.join(base, *module.split("."))
        for p in (stem + "/__init__.pyi", stem + "/__init__.py", stem + ".pyi", stem + ".py"):
            if not os.path.isfile(p):
                continue
            try:
                with open(p, encoding="utf-8") as fh:
                    tree = ast.parse(fh.read())
            except (SyntaxError, OSError, UnicodeDecodeError):
                break
            names, whole = set(), True
            for n in ast.walk(tree):
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    names.add(n.name)
                elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    names.add(n.id)
                elif isinstance(n, ast.Import):
                    names |= {(x.asname or x.name).split(".")[0] for x in n.names}
                elif isinstance(n, ast.ImportFrom):
                    if any(x.name == "*" for x in n.names):
                        parts = module.split(".")
                        if n.level:
                            keep = parts if "__init__" in p else parts[:-1]
                            keep = keep[: len(keep) - (n.level - 1)]
                            src = ".".join(keep + ([n.module] if n.module else []))
                        else:
                            src = n.module
                        more = site_names(src)
                        if more is None:
                            whole = False
                        else:
                            names |= more
                    else:
                        names |= {x.asname or x.name for x in n.names}
            if any(isinstance(n, ast.FunctionDef) and n.name == "__getattr__" for n in tree.body):
                whole = False
            if whole:
                d = os.path.dirname(p) if "__init__" in p else None
                if d:
                    names |= {f.split(".")[0] for f in os.listdir(d)}
                out = names
            break
        if out is not None:
            break
    _stubs[module] = out
    return out


DEPENDENCY_MODULES = ("numpy", "numpy.linalg", "matplotlib.pyplot", "yaml")


def dependency(module, attr):
    if module not in DEPENDENCY_MODULES:
        return None
    names = site_names(module)
    return None if names is None else attr in names


def lib_object(dotted):
    if library(dotted) is not True:
        return None
    parts = dotted.split(".")
    for i in range(len(parts), 0, -1):
        try:
            obj = importlib.import_module(".".join(parts[:i]))
        except Exception:
            continue
        for p in parts[i:]:
            obj = getattr(obj, p, None)
        return obj
    return None


def fits(args, call, bound, skip_first):
    """Does the call match the parameters?  (ok, why)"""
    pos = [a.arg for a in args.posonlyargs + args.args]
    ponly = {a.arg for a in args.posonlyargs}
    kwonly = [a.arg for a in args.kwonlyargs]
    if skip_first and pos:
        pos = pos[1:]
    star = any(isinstance(a, ast.Starred) for a in call.args)
    dstar = any(k.arg is None for k in call.keywords)
    npos = len([a for a in call.args if not isinstance(a, ast.Starred)])
    if npos > len(pos) and args.vararg is None:
        return False, f"{npos} positional arguments, at most {len(pos)} accepted"
    given = set(pos[:npos])
    for k in call.keywords:
        if k.arg is None:
            continue
        if k.arg in given:
            return False, f"argument '{k.arg}' given twice"
        if (k.arg not in pos and k.arg not in kwonly or k.arg in ponly) and args.kwarg is None:
            return False, f"no parameter '{k.arg}'"
        given.add(k.arg)
    if star or dstar:
        return True, ""
    nd = len(args.defaults)
    all_pos = [a.arg for a in args.posonlyargs + args.args]
    need = [p for p in all_pos[: len(all_pos) - nd]]
    if skip_first and need and all_pos:
        need = [p for p in need if p != all_pos[0]]
    need += [a for a, dflt in zip(kwonly, args.kw_defaults) if dflt is None]
    miss = [p for p in need if p not in given]
    if miss:
        return False, "missing argument" + ("s " if len(miss) > 1 else " ") + ", ".join(f"'{p}'" for p in miss)
    return True, ""


def signatures(lab, w):
    count, lib = 0, 0
    for m, d, call, sc in w.calls():
        ts = w.type(call.func, sc)
        place = at(w, m, call, sc)
        name = ast.unparse(call.func)
        if len([t for t in ts if t[0] != "none"]) != 1:
            continue
        t = next(t for t in ts if t[0] != "none")
        if t[0] in ("func", "bound"):
            f = t[1]
            if not f.plain:
                continue
            skip = t[0] == "bound" and not f.static or (t[0] == "func" and f.classm)
            ok, why = fits(f.node.args, call, None, skip)
            count += 1
            lab.structural(f"call of {name} in {place.split(' ', 1)[-1]} matches {f.qual}", ok, place, f"call {ast.unparse(call)[:100]} does not match {f.qual}: {why}")
        elif t[0] == "class":
            c = t[1]
            init = None
            chain = w.mro(c)
            if any(x is None for x in chain) or c.node.decorator_list or c.node.keywords:
                continue
            if any("__new__" in x.methods for x in chain):
                continue
            for x in chain:
                if "__init__" in x.methods:
                    init = x.methods["__init__"]
                    break
            count += 1
            if init is None:
                ok, why = (not call.args and not call.keywords), "the constructor takes no arguments"
            elif not init.plain:
                continue
            else:
                ok, why = fits(init.node.args, call, None, True)
            lab.structural(f"construction {name} in {place.split(' ', 1)[-1]} matches {c.name}", ok, place, f"call {ast.unparse(call)[:100]} does not match {c.name}: {why}")
        elif t[0] == "ext":
            obj = lib_object(t[1])
            if obj is None or any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords):
                continue
            if inspect.isclass(obj):
                continue
            try:
                sig = inspect.signature(obj)
            except (TypeError, ValueError):
                continue
            lib += 1
            try:
                sig.bind(*call.args, **{k.arg: k.value for k in call.keywords})
                ok, why = True, ""
            except TypeError as e:
                ok, why = False, str(e)
            lab.structural(f"call of {t[1]} in {place.split(' ', 1)[-1]}", ok, place, f"call {ast.unparse(call)[:100]} does not match {t[1]}: {why}")
    lab.extra["calls matched"] = {"package": count, "standard library": lib}


# ---------------------------------------------------------------- S04
SAFE_LOADERS = {"SafeLoader", "CSafeLoader", "BaseLoader", "CBaseLoader"}
YAML_UNSAFE = {"load", "load_all", "unsafe_load", "unsafe_load_all", "full_load", "full_load_all", "UnsafeLoader", "FullLoader", "Loader", "CLoader"}
RUNS_TEXT = {
    "builtins.eval": "evaluates text", "builtins.exec": "executes text", "builtins.compile": "compiles text", "builtins.__import__": "imports by name",
    "pickle.load": "instantiates objects", "pickle.loads": "instantiates objects", "pickle.Unpickler": "instantiates objects",
    "marshal.load": "loads code", "marshal.loads": "loads code", "shelve.open": "instantiates objects", "dill.load": "instantiates objects", "dill.loads": "instantiates objects",
    "os.system": "runs a command", "os.popen": "runs a command", "subprocess.run": "runs a command", "subprocess.call": "runs a command",
    "subprocess.Popen": "runs a command", "subprocess.check_output": "runs a command", "subprocess.check_call": "runs a command", "subprocess.getoutput": "runs a command",
    "importlib.import_module": "imports by name", "runpy.run_path": "executes a file", "runpy.run_module": "executes a module", "code.interact": "executes text",
    "os.execv": "runs a command", "os.execvp": "runs a command", "os.spawnv": "runs a command", "os.startfile": "runs a command", "types.FunctionType": "builds code",
    "numexpr.evaluate": "evaluates text", "joblib.load": "instantiates objects", "jsonpickle.decode": "instantiates objects", "builtins.globals().__getitem__": "",
    "ruamel.yaml.YAML": "", "pandas.eval": "evaluates text", "sympy.sympify": "evaluates text", "timeit.timeit": "executes text",
}


def s04(lab):
    w = world(lab)
    calls = 0
    loads = 0
    for m, d, call, sc in w.calls():
        calls += 1
        place = at(w, m, call, sc)
        fn = place.split(" ", 1)[-1]
        for dot in sorted(w.dotted(call.func, sc)):
            if dot in RUNS_TEXT and RUNS_TEXT[dot]:
                if constant_text(call):
                    lab.structural(f"{dot} in {fn} has a constant argument", True, place)
                    continue
                lab.structural(f"{dot} in {fn}", False, place, f"{ast.unparse(call)[:80]} {RUNS_TEXT[dot]} from outside the program")
            if dot in ("numpy.load",) and any(k.arg == "allow_pickle" and not (isinstance(k.value, ast.Constant) and k.value.value is False) for k in call.keywords):
                lab.structural(f"{dot} in {fn}", False, place, f"{ast.unparse(call)[:80]} instantiates objects from the file")
            head, _, last = dot.rpartition(".")
            if head == "yaml" and last in ("safe_load", "safe_load_all"):
                loads += 1
                lab.structural(f"YAML is read safely in {fn}", True, place)
            elif head == "yaml" and last in ("load", "load_all", "unsafe_load", "unsafe_load_all", "full_load", "full_load_all"):
                loads += 1
                ok = False
                loader = next((k.value for k in call.keywords if k.arg == "Loader"), call.args[1] if len(call.args) > 1 else None)
                kinds = set()
                if last in ("load", "load_all") and loader is not None:
                    kinds = loader_kinds(w, loader, sc)
                    ok = True if kinds == {"safe"} else (None if "?" in kinds and "unsafe" not in kinds else False)
                lab.structural(f"YAML is read safely in {fn}", ok, place, f"{ast.unparse(call)[:100]} can build arbitrary objects from the file's tags")
    lab.extra["calls examined"] = calls
    # a loader that is extended with constructors is not safe any more
    for m, d, call, sc in w.calls():
        f = call.func
        if isinstance(f, ast.Attribute) and f.attr in ("add_constructor", "add_multi_constructor"):
            place = at(w, m, call, sc)
            lab.structural(f"constructors in {place.split(' ', 1)[-1]}", None, place, "the YAML reader is extended with constructors")
    lab.structural("every call examined", True, "pyGCodeDecode", detail=f"{calls} calls")
    # the presets reach the setup through one of the safe readers
    presets(lab, loads)


def constant_text(call):
    return bool(call.args) and all(isinstance(a, ast.Constant) for a in call.args) and all(isinstance(k.value, ast.Constant) for k in call.keywords)


def loader_kinds(w, x, sc):
    out = set()
    if isinstance(x, ast.IfExp):
        return loader_kinds(w, x.body, sc) | loader_kinds(w, x.orelse, sc)
    for t in w.type(x, sc):
        if t[0] == "ext" and t[1].startswith("yaml."):
            out.add("safe" if t[1].split(".")[-1] in SAFE_LOADERS else "unsafe")
        elif t[0] == "class":
            bases = [b for b in t[1].node.bases]
            out |= set().union(*[loader_kinds(w, b, t[1].outer) for b in bases]) if bases else {"?"}
        elif t[0] == "none":
            out.add("unsafe")
        elif t[0] == "ext" and t[1] == "builtins.getattr":
            out.add("?")
        else:
            out.add("?")
    return out or {"?"}


def presets(lab, loads):
    from ..terms import const, show, subterms, is_const, cval

    wh = lab.where("gcode_interpreter.setup.load_setup")

    def go():
        sc = lab.scene()
        used = []
        sc.e.effects.clear()
        stp = sc.call(sc.name("gcode_interpreter", "setup"), const("presets.yaml"))
        for e in sc.e.effects:
            if e.name.startswith("yaml."):
                used.append(e.name)
        v = sc.get(stp, "setup_dict") if stp is not None and sc.has(stp, "setup_dict") else None
        names = set()
        if v is not None:
            for x in subterms(v):
                names.add(str(x.op))
                for a in x.args:
                    if isinstance(a, str):
                        names.add(a)
        got = sorted({n.split(".")[-1] for n in [*names, *used] if isinstance(n, str) and n.startswith("yaml.")})
        if not got:
            lab.undecided("presets are read with a safe reader", wh, "the reader of the presets is not visible")
            return
        bad = [n for n in got if n in YAML_UNSAFE and n not in ("load", "load_all")]
        lab.structural("presets are read with a safe reader", False if bad else (True if all(n in ("safe_load", "safe_load_all") for n in got) else None), wh, f"presets are read with yaml.{', '.join(bad)}")

    lab.attempt("presets", wh, go)


# ---------------------------------------------------------------- L05
NEW_NAMES = {  # standard-library names by the version that introduced them (newer than 3.9)
    (3, 10): ["itertools.pairwise", "types.NoneType", "types.UnionType", "types.EllipsisType", "typing.TypeAlias", "typing.ParamSpec", "typing.Concatenate", "typing.TypeGuard", "typing.is_typeddict",
              "contextlib.aclosing", "statistics.correlation", "statistics.covariance", "statistics.linear_regression", "inspect.get_annotations", "builtins.aiter", "builtins.anext", "builtins.EncodingWarning",
              "sys.orig_argv", "sys.stdlib_module_names", "dataclasses.KW_ONLY", "glob.root_dir", "bisect.key", "operator.is_none"],
    (3, 11): ["enum.StrEnum", "enum.verify", "enum.ReprEnum", "typing.Self", "typing.LiteralString", "typing.Never", "typing.assert_never", "typing.assert_type", "typing.reveal_type", "typing.Required", "typing.NotRequired",
              "typing.Unpack", "typing.TypeVarTuple", "typing.dataclass_transform", "math.cbrt", "math.exp2", "datetime.UTC", "contextlib.chdir", "operator.call", "hashlib.file_digest", "asyncio.TaskGroup", "asyncio.timeout", "asyncio.Runner",
              "builtins.ExceptionGroup", "builtins.BaseExceptionGroup", "importlib.resources.abc", "logging.getLevelNamesMapping", "string.Template.get_identifiers", "sys.exception", "locale.getencoding", "time.nanosleep", "wsgiref.types"],
    (3, 12): ["itertools.batched", "typing.override", "typing.TypeAliasType", "collections.abc.Buffer", "math.sumprod", "calendar.Month", "calendar.Day", "pathlib.Path.walk", "inspect.markcoroutinefunction", "sys.monitoring", "shutil.NoneType"],
    (3, 13): ["copy.replace", "warnings.deprecated", "typing.ReadOnly", "typing.TypeIs", "typing.NoDefault", "queue.ShutDown", "math.fma", "glob.translate", "pathlib.UnsupportedOperation", "builtins.PythonFinalizationError", "os.process_cpu_count"],
}
NEW_MODULES = {(3, 11): {"tomllib", "wsgiref.types"}, (3, 13): set(), (3, 14): {"annotationlib", "compression", "concurrent.interpreters"}}
NEW_ARGS = {  # keyword arguments newer than 3.9
    "builtins.zip": {"strict": (3, 10)}, "dataclasses.dataclass": {"slots": (3, 10), "kw_only": (3, 10), "match_args": (3, 10), "weakref_slot": (3, 11)}, "dataclasses.field": {"kw_only": (3, 10)},
    "bisect.bisect": {"key": (3, 10)}, "bisect.bisect_left": {"key": (3, 10)}, "bisect.bisect_right": {"key": (3, 10)}, "bisect.insort": {"key": (3, 10)},
    "glob.glob": {"root_dir": (3, 10), "include_hidden": (3, 11)}, "builtins.sum": {}, "datetime.datetime.now": {}, "statistics.fmean": {"weights": (3, 11)}, "math.nextafter": {"steps": (3, 12)},
    "pathlib.Path.read_text": {"newline": (3, 13)}, "random.sample": {"counts": (3, 9)}, "random.Random.sample": {}, "argparse.ArgumentParser": {"exit_on_error": (3, 9)}, "shutil.rmtree": {"onexc": (3, 12), "dir_fd": (3, 11)},
    "tempfile.TemporaryDirectory": {"ignore_cleanup_errors": (3, 10), "delete": (3, 12)}, "tempfile.NamedTemporaryFile": {"delete_on_close": (3, 12)}, "logging.basicConfig": {}, "enum.Enum": {}, "copy.deepcopy": {},
}
NEW_METHODS = {"bit_count": (3, 10), "walk": None, "hardlink_to": (3, 10), "add_note": (3, 11), "is_junction": (3, 12), "with_segments": (3, 12)}
NEW_METHOD_ARGS = {("relative_to", "walk_up"): (3, 12), ("glob", "case_sensitive"): (3, 12), ("rglob", "case_sensitive"): (3, 12), ("exists", "follow_symlinks"): (3, 12), ("is_file", "follow_symlinks"): (3, 13),
                   ("is_dir", "follow_symlinks"): (3, 13), ("write_text", "newline"): (3, 10), ("stat", "follow_symlinks"): (3, 10), ("chmod", "follow_symlinks"): (3, 10), ("read_text", "newline"): (3, 13), ("add_subparsers", "suggest"): (3, 14)}
DIST = {"PyYAML": ["yaml"], "numpy": ["numpy"], "matplotlib": ["matplotlib", "mpl_toolkits", "pylab"], "pyvista": ["pyvista"], "scipy": ["scipy"], "pandas": ["pandas"], "vtk": ["vtk", "vtkmodules"], "Pillow": ["PIL"]}


def pyproject(lab):
    p = os.path.join(lab.root, "pyproject.toml")
    if not os.path.exists(p):
        from ..program import AnalysisError

        raise AnalysisError("pyproject.toml not found")
    import tomllib

    with open(p, "rb") as f:
        return tomllib.load(f)


def l05(lab):
    import re

    w = world(lab)
    cfg = pyproject(lab)
    proj = cfg.get("project", {})
    req = re.search(r">=\s*3\.(\d+)", proj.get("requires-python", "") or "")
    minor = int(req.group(1)) if req else 9
    lab.extra["oldest declared version"] = f"3.{minor}"
    low = (3, minor)
    for m in lab.program.modules.values():
        syntax(lab, w, m, low)
    library_names(lab, w, low)
    run_time_imports(lab, w, proj, low)
    data_files(lab, w, cfg)


def syntax(lab, w, m, low):
    try:
        ast.parse(m.src, m.path, feature_version=low)
        ok, why = True, ""
    except SyntaxError as e:
        ok, why = False, f"line {e.lineno}: {e.msg}"
    lab.structural(f"{m.name}: grammar of 3.{low[1]}", ok, m.path, f"{m.path} uses syntax newer than 3.{low[1]}: {why}")
    future = any(isinstance(n, ast.ImportFrom) and n.module == "__future__" and any(a.name == "annotations" for a in n.names) for n in m.tree.body)
    for n in ast.walk(m.tree):
        new = None
        if isinstance(n, ast.Match):
            new = (3, 10)
        elif n.__class__.__name__ == "TryStar":
            new = (3, 11)
        elif n.__class__.__name__ == "TypeAlias" or getattr(n, "type_params", None):
            new = (3, 12)
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Tuple) and any(isinstance(e, ast.Starred) for e in n.slice.elts):
            new = (3, 11)
        if new and new > low:
            lab.structural(f"{m.name}: {n.__class__.__name__}", False, f"{m.path}:{getattr(n, 'lineno', 0)}", f"syntax newer than 3.{low[1]}: {ast.unparse(n)[:60]}")
    fstrings(lab, m, low)
    managers(lab, m, low)
    # annotations that are evaluated
    if low < (3, 10):
        n_ann = 0
        for n in ast.walk(m.tree):
            anns = []
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                a = n.args
                anns = [p.annotation for p in a.posonlyargs + a.args + a.kwonlyargs + [x for x in (a.vararg, a.kwarg) if x] if p.annotation is not None]
                anns += [n.returns] if n.returns is not None else []
            elif isinstance(n, ast.AnnAssign) and evaluated(m, n):
                anns = [n.annotation]
            if future:
                continue
            for x in anns:
                n_ann += 1
                for b in ast.walk(x):
                    if isinstance(b, ast.BinOp) and isinstance(b.op, ast.BitOr) and not inside_text(x, b):
                        lab.structural(f"{m.name}: annotation {ast.unparse(x)}", False, f"{m.path}:{x.lineno}", f"the union '{ast.unparse(x)}' is evaluated and fails before 3.10")
        lab.structural(f"{m.name}: annotations", True, m.path, detail=f"{n_ann} evaluated annotations")
        for mm, d, call, sc in w.calls():
            if mm is m and w.dotted(call.func, sc) & {"builtins.isinstance", "builtins.issubclass"} and len(call.args) == 2 and isinstance(call.args[1], ast.BinOp):
                lab.structural(f"{m.name}: {ast.unparse(call)[:60]}", False, at(w, m, call, sc), f"a union of types in {ast.unparse(call)[:60]} fails before 3.10")


def evaluated(m, n):
    """Annotations of local variables are not evaluated."""
    for f in ast.walk(m.tree):
        if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
            stack = list(f.body)
            while stack:
                x = stack.pop()
                if x is n:
                    return not isinstance(n.target, ast.Name) and not isinstance(n.target, ast.Name)
                if isinstance(x, (ast.ClassDef, ast.FunctionDef)):
                    continue
                stack.extend(ast.iter_child_nodes(x))
    return True


def inside_text(root, b):
    return False


def fstrings(lab, m, low):
    """Quotes, backslashes and comments inside the braces of an f-string need 3.12."""
    if low >= (3, 12):
        return
    import io
    import tokenize

    if not hasattr(tokenize, "FSTRING_START"):
        return
    stack = []
    try:
        for t in tokenize.generate_tokens(io.StringIO(m.src).readline):
            if t.type == tokenize.FSTRING_START:
                q = t.string.lstrip("fFrRbBuU")
                if stack and stack[-1][1] > 0 and q[0] == stack[-1][0][0] and (len(q) == len(stack[-1][0]) or len(stack[-1][0]) == 1):
                    lab.structural(f"{m.name}: nested quotes", False, f"{m.path}:{t.start[0]}", "an f-string reuses its own quotes inside the braces (3.12)")
                stack.append([q, 0])
            elif t.type == tokenize.FSTRING_END:
                stack.pop()
            elif stack:
                if t.type == tokenize.OP and t.string == "{":
                    stack[-1][1] += 1
                elif t.type == tokenize.OP and t.string == "}":
                    stack[-1][1] -= 1
                elif stack[-1][1] > 0 and t.type == tokenize.STRING:
                    q = t.string.lstrip("fFrRbBuU")
                    o = stack[-1][0]
                    if len(o) == 1 and o in t.string or q.startswith(o):
                        lab.structural(f"{m.name}: nested quotes", False, f"{m.path}:{t.start[0]}", f"an f-string reuses its own quotes inside the braces: {t.string[:30]} (3.12)")
                    if "\\" in t.string:
                        lab.structural(f"{m.name}: backslash in braces", False, f"{m.path}:{t.start[0]}", "a backslash inside the braces of an f-string needs 3.12")
                elif stack[-1][1] > 0 and t.type in (tokenize.COMMENT,):
                    lab.structural(f"{m.name}: comment in braces", False, f"{m.path}:{t.start[0]}", "a comment inside the braces of an f-string needs 3.12")
                elif stack[-1][1] > 0 and t.type == tokenize.NL and len(stack[-1][0]) == 1:
                    lab.structural(f"{m.name}: line break in braces", False, f"{m.path}:{t.start[0]}", "a line break inside the braces of a one-line f-string needs 3.12")
    except tokenize.TokenError:
        pass
    lab.structural(f"{m.name}: f-strings", True, m.path)


def managers(lab, m, low):
    """Nothing to do from 3.9 on: its parser accepts parenthesised context managers."""


def library_names(lab, w, low):
    new = {n: v for v, ns in NEW_NAMES.items() if v > low for n in ns}
    count = 0
    for m in lab.program.modules.values():
        guarded = guarded_nodes(m)
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.Import, ast.ImportFrom)) and id(n) not in guarded:
                sc = w.nodescope.get(id(n), w.modules[m.name])
                mods = [a.name for a in n.names] if isinstance(n, ast.Import) else [f"{n.module}.{a.name}" for a in n.names] if not n.level else []
                for x in mods:
                    count += 1
                    if x in new:
                        lab.structural(f"{m.name}: import {x}", False, at(w, m, n, sc), f"{x} exists from {new[x][0]}.{new[x][1]} on only")
            if isinstance(n, (ast.Attribute, ast.Name)) and id(n) in w.nodescope and id(n) not in guarded:
                sc = w.nodescope[id(n)]
                if isinstance(n, ast.Name) and not (w.find(n.id, sc) is None):
                    continue
                for x in w.dotted(n, sc):
                    count += 1
                    if x in new:
                        lab.structural(f"{m.name}: {x}", False, at(w, m, n, sc), f"{x} exists from {new[x][0]}.{new[x][1]} on only")
    for m, d, call, sc in w.calls():
        if id(call) in guarded_nodes(m):
            continue
        place = at(w, m, call, sc)
        kws = {k.arg for k in call.keywords}
        for dot in w.dotted(call.func, sc):
            for k, v in NEW_ARGS.get(dot, {}).items():
                if k in kws and v > low:
                    lab.structural(f"{m.name}: {dot}({k}=)", False, place, f"argument {k} of {dot} exists from {v[0]}.{v[1]} on only")
        if isinstance(call.func, ast.Attribute):
            recv = w.type(call.func.value, sc)
            if not any(t[0] in ("inst", "class", "mod", "super") for t in recv):
                v = NEW_METHODS.get(call.func.attr)
                if v and v > low:
                    lab.structural(f"{m.name}: .{call.func.attr}()", False, place, f"method {call.func.attr} exists from {v[0]}.{v[1]} on only")
                for k in kws:
                    v = NEW_METHOD_ARGS.get((call.func.attr, k))
                    if v and v > low:
                        lab.structural(f"{m.name}: .{call.func.attr}({k}=)", False, place, f"argument {k} of {call.func.attr} exists from {v[0]}.{v[1]} on only")
    lab.structural("library names exist in the oldest version", True, "pyGCodeDecode", detail=f"{count} names")


def guarded_nodes(m):
    """Code under a version test, a TYPE_CHECKING test or a try that handles the failure."""
    if hasattr(m, "_guarded"):
        return m._guarded
    out = set()
    for n in ast.walk(m.tree):
        if isinstance(n, ast.If):
            t = ast.unparse(n.test)
            if "version_info" in t or "TYPE_CHECKING" in t or "hasattr" in t:
                for b in n.body + n.orelse:
                    out |= {id(x) for x in ast.walk(b)}
        if isinstance(n, ast.Try) and any(h.type is None or any(k in ast.unparse(h.type) for k in ("ImportError", "ModuleNotFoundError", "AttributeError", "Exception", "NameError")) for h in n.handlers):
            for b in n.body:
                out |= {id(x) for x in ast.walk(b)}
            for h in n.handlers:
                out |= {id(x) for x in ast.walk(h)}
    m._guarded = out
    return out


def run_time_imports(lab, w, proj, low):
    import re

    deps = [re.split(r"[\s<>=!~\[;(]", d)[0] for d in proj.get("dependencies", [])]
    allowed = set()
    for d in deps:
        allowed |= set(DIST.get(d, [])) | {d.replace("-", "_").lower(), d}
    std = set(STDLIB) - set().union(*[v for k, v in NEW_MODULES.items() if k > low])
    for m in lab.program.modules.values():
        guarded = guarded_nodes(m)
        for n in ast.walk(m.tree):
            if not isinstance(n, (ast.Import, ast.ImportFrom)) or id(n) in guarded:
                continue
            if isinstance(n, ast.ImportFrom) and n.level:
                continue
            for x in [a.name for a in n.names] if isinstance(n, ast.Import) else [n.module]:
                top = x.split(".")[0]
                ok = top in std or top in allowed or top == lab.program.package or x in std
                lab.structural(f"{m.name} imports {x}", ok, f"{m.path}:{n.lineno}", f"{x} is neither part of the oldest declared Python nor a declared dependency")


def data_files(lab, w, cfg):
    import fnmatch

    pkg = lab.program.package
    base = os.path.join(lab.root, pkg)
    pats = cfg.get("tool", {}).get("setuptools", {}).get("package-data", {})
    pats = pats.get(pkg, []) + pats.get("*", [])
    where_pkgs = cfg.get("tool", {}).get("setuptools", {}).get("packages", {})
    seen = set()
    for m in lab.program.modules.values():
        for n in ast.walk(m.tree):
            if not isinstance(n, (ast.Call, ast.BinOp)) or id(n) not in w.nodescope:
                continue
            sc = w.nodescope[id(n)]
            p = resource(w, n, sc)
            if p is None or (m.name, p) in seen:
                continue
            seen.add((m.name, p))
            full = os.path.join(base, p)
            place = at(w, m, n, sc)
            ok = os.path.exists(full)
            lab.structural(f"{m.name}: data file {p}", ok, place, f"{pkg}/{p} does not exist")
            if ok and os.path.isfile(full):
                inc = any(matches(p, q) for q in pats)
                lab.structural(f"{m.name}: data file {p} is packaged", inc, place, f"{pkg}/{p} is not covered by the package data {pats}")
    lab.extra["data files"] = sorted(p for _, p in seen)
    # every data file the package declares patterns for
    for q in pats:
        d = os.path.join(base, os.path.dirname(q))
        lab.structural(f"package data {q} exists", os.path.isdir(d) and bool(os.listdir(d)), "pyproject.toml", f"no file matches the package data {q}")


def matches(path, pattern):
    import fnmatch

    a, b = path.split("/"), pattern.split("/")
    if "**" in b:
        return fnmatch.fnmatch(path, pattern)
    return len(a) == len(b) and all(fnmatch.fnmatch(x, y) for x, y in zip(a, b))


def resource(w, n, sc, depth=0):
    """Path inside the package an expression looks up, if it is a constant one."""
    if depth > 6:
        return None
    if isinstance(n, ast.Call):
        d = w.dotted(n.func, sc)
        if d & {"importlib.resources.files"}:
            a = n.args[0] if n.args else None
            if isinstance(a, ast.Constant) and a.value == w.program.package:
                return ""
            if isinstance(a, ast.Constant) and isinstance(a.value, str) and a.value.startswith(w.program.package + "."):
                return a.value[len(w.program.package) + 1:].replace(".", "/")
            return None
        if isinstance(n.func, ast.Attribute) and n.func.attr == "joinpath":
            b = resource(w, n.func.value, sc, depth + 1)
            if b is None or not all(isinstance(a, ast.Constant) and isinstance(a.value, str) for a in n.args):
                return None
            return "/".join([x for x in [b, *[a.value.strip("/") for a in n.args]] if x])
        return None
    if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Div):
        b = resource(w, n.left, sc, depth + 1)
        if b is None or not (isinstance(n.right, ast.Constant) and isinstance(n.right.value, str)):
            return None
        return "/".join([x for x in [b, n.right.value.strip("/")] if x])
    if isinstance(n, ast.Name):
        s = w.find(n.id, sc)
        if s is None:
            return None
        hows = s.names[n.id]
        if len(hows) == 1 and hows[0][0] == "expr":
            return resource(w, hows[0][1], hows[0][2], depth + 1)
    return None
