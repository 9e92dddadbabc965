"""L02: results are a function of the program, the setup and the arguments."""
import ast

from .common import *  # noqa: F401,F403
from .effects import CALLS, held, differences, scene_for
from .generator import open_lines
from .lints import world, at
from .parser import Text
from .settings import setup_of, snapshot
from ..resolve import Class, Def
from ..terms import T, mk, const, TRUE, FALSE, NONE, AND, OR, NOT, show, is_const, cval, subterms

IMPURE = ("time.", "datetime.", "random.", "numpy.random.", "os.environ", "os.getenv", "os.getcwd", "os.getpid", "os.urandom", "os.name", "os.uname", "os.listdir", "os.scandir", "os.stat", "os.path.getmtime",
          "os.getlogin", "os.cpu_count", "uuid.", "secrets.", "socket.", "platform.", "getpass.", "locale.getlocale", "locale.getdefaultlocale", "locale.localeconv", "sys.argv", "sys.platform",
          "sys.version", "sys.getrefcount", "sys.executable", "sys.flags", "threading.", "tempfile.", "pathlib.Path.cwd", "pathlib.Path.home", "glob.", "gc.", "sys.stdin", "builtins.input",
          "builtins.id", "builtins.hash", "inspect.stack", "sys.getswitchinterval", "multiprocessing.", "concurrent.", "psutil.", "shutil.disk_usage", "resource.")
IMPURE_METHODS = {".cwd", ".home", ".stat", ".iterdir", ".glob", ".rglob", ".getmtime"}
HARMLESS = ("time.sleep", "time.strftime", "datetime.timedelta")
MUTATORS = {"append", "extend", "insert", "remove", "pop", "clear", "update", "setdefault", "popitem", "add", "discard", "sort", "reverse", "appendleft", "popleft", "extendleft", "rotate",
            "intersection_update", "difference_update", "symmetric_difference_update", "__setitem__", "__setattr__", "__delitem__", "write", "move_to_end", "subtract", "fill", "put", "resize"}


def impure_name(n):
    n = str(n)
    if n in ("id", "hash", "input"):
        return True
    return n not in HARMLESS and (n in IMPURE_METHODS or any(n == x.rstrip(".") or n.startswith(x) for x in IMPURE))


def impure_in(t):
    """An outside source inside a value."""
    for x in [t, *subterms(t)]:
        if x.op in ("ext", "call", "extbound") and x.args and isinstance(x.args[0], str) and impure_name(x.args[0]):
            return x
    return None


def leaves(x):
    if isinstance(x, T):
        yield x
    elif isinstance(x, tuple):
        for y in x:
            yield from leaves(y)


# ---------------------------------------------------------------- histories of simulations
SETTINGS = {
    "marlin": dict(p_vel=35, p_acc=500, jerk=10, vX=180, vY=180, vZ=30, vE=33, X=0, Y=0, Z=0, E=0, printer_name="a", firmware="marlin_jerk"),
}
# what the simulation under test reads; numbers in braces are any number
SUBJECT = [["G1 X", 1, " Y", 2, " F", 3], ["G1 E", 4], ["G1 X", 5, " E", 6], ["G4 P", 7], ["G28"], ["; LAYER"], ["G92 X", 8], ["G1 X", 9], [";LAYER"], ["G1 Z", 10]]
OTHERS = {
    "the same program": SUBJECT,
    "modes": [["G91"], ["M83"], ["G20"], ["G1 X", 11, " E", 12, " F", 13]],
    "settings": [["M204 P", 11], ["M205 X", 12], ["M203 X", 13, " Y", 14, " Z", 15, " E", 16], ["G1 F", 17]],
    "positions": [["G92 X", 11, " Y", 12, " Z", 13, " E", 14], ["G1 X", 15], ["G92"]],
    "dwells and unsupported commands": [["G4 S", 11], ["G28 X", 12], ["G2 X", 13], ["G10"], ["M82"], ["G90"], ["G21"]],
    "layers and comments": [["; LAYER"], ["; LAYER"], ["G1 X", 11, " ; LAYER"], ["; other"]],
    "nothing": [],
}


def text(sc, t, lines):
    chunks = {}
    out = []
    for l in lines:
        parts = []
        for p in l:
            if isinstance(p, int):
                if p not in t.table:
                    t.table[p] = t.num(f"n{p}")
                p = t.table[p]
            parts.append(p)
        out.append(t.join([*parts, "\n"]))
    return out


def states_of(t, lines, cue, keys):
    """Interpretation of a program in the scene of t; nothing is shared with earlier ones but the numbers."""
    sc = t.sc
    open_lines(sc, text(sc, t, lines))
    pairs = [(const(k), const(v)) if not isinstance(v, T) else (const(k), v) for k, v in keys.items()]
    if cue is not None:
        pairs.append((const("layer_cue"), const(cue)))
    d = sc.e.new_dict(sc.st, pairs)
    out = sc.call(sc.name("state_generator", "generate_states"), const("part.gcode"), d)
    if out is None or sc.dead:
        return None
    return out


def histories(lab):
    w = lab.where("state_generator.generate_states")
    for name, other in OTHERS.items():
        for cue in (None, "LAYER"):
            def go():
                t = Text(lab)
                t.table = {}
                sc = t.sc
                keys = {k: (sc.sym("k_" + k, "pos") if isinstance(v, (int, float)) else v) for k, v in SETTINGS["marlin"].items()}
                keys2 = {k: (sc.sym("o_" + k, "pos") if isinstance(v, (int, float)) else v + "2") for k, v in SETTINGS["marlin"].items()}
                a = states_of(t, SUBJECT, cue, keys)
                if a is None:
                    lab.undecided(f"states after {name}", w, "interpretation not derivable")
                    return
                before = snapshot(sc, a, {})
                b = states_of(t, other, None if cue else "LAYER", keys2)
                same(lab, sc, f"states kept while {name} is read (cue {cue})", before, snapshot(sc, a, {}), w, "reading another program changes the states of an earlier one")
                c = states_of(t, SUBJECT, cue, keys)
                if b is None or c is None:
                    lab.undecided(f"states after {name}", w, "second interpretation not derivable")
                    return
                same(lab, sc, f"states after {name} was read (cue {cue})", before, snapshot(sc, c, {}), w, "the states depend on the program read before")
                pure(lab, sc, f"states (cue {cue}, {name})", before, w)
                sc.finish()

            lab.attempt(f"states after {name} (cue {cue})", w, go)
    wp = lab.where("gcode_interpreter.simulation.__init__")
    for fw in ("marlin_jerk", "klipper", "MKA"):
        def plan():
            sc = lab.scene(normalize=True)
            one = [["G1 X10 Y0 F1200"], ["G1 X10 Y10 E1"], ["G4 P500"], ["G1 E0.5"], ["G1 X0 Y12"]]
            two = [["G91"], ["M204 P900"], ["M205 X3"], ["G1 X7 F900"], ["G1 Y-7"], ["G92 E3"], ["G1 X-3 E5"]]
            a = simulate(sc, one, fw, "my_printer", 500)
            if a is None:
                lab.undecided(f"trajectory with {fw}", wp, "not derivable")
                return
            before = held(sc, a)
            b = simulate(sc, two, "MKA" if fw != "MKA" else "marlin_jerk", "other", 900, cue="LAYER")
            same(lab, sc, f"trajectory with {fw} kept while another is simulated", before, held(sc, a), wp, "a second simulation changes the first")
            for label, target, name, args in CALLS:
                if target == "sim" and b is not None and name in ("get_values", "extrusion_extent", "save_summary", "refresh", "recalculate_trajectory"):
                    s2 = {"sim": b, "t": const(0)}
                    x, kw = args(sc, s2)
                    sc.meth(b, name, *x, **kw)
                    if sc.dead:
                        break
            if sc.dead:
                lab.undecided(f"trajectory with {fw} after queries of another", wp, "queries not derivable")
                return
            c = simulate(sc, one, fw, "my_printer", 500)
            if b is None or c is None:
                lab.undecided(f"trajectory with {fw}", wp, "second simulation not derivable")
                return
            same(lab, sc, f"trajectory with {fw} after another simulation and its queries", before, held(sc, c), wp, "the trajectory depends on what was simulated before")
            pure(lab, sc, f"trajectory with {fw}", tuple(before.values()), wp)
            sc.finish()

        lab.attempt(f"trajectory with {fw}", wp, plan)


def simulate(sc, lines, fw, printer, acc, cue=None):
    vals = dict(p_vel=35, p_acc=acc, jerk=10, vX=180, vY=170, vZ=30, vE=33)
    vals["firmware"] = fw
    p = sc.dict([(const(k), const(v)) for k, v in vals.items()])
    kw = {"layer_cue": cue} if cue else {}
    st = setup_of(sc, [(printer, p)], printer, **kw)
    if st is None or sc.dead:
        return None
    open_lines(sc, [const("".join(l) + "\n") for l in lines])
    r = sc.call(sc.name("gcode_interpreter", "simulation"), const("part.gcode"), initial_machine_setup=st)
    return None if sc.dead else r


def same(lab, sc, name, a, b, where, what):
    if isinstance(a, dict):
        pairs = [(a[k], b.get(k), k) for k in a]
    else:
        pairs = [(a, b, "states")]
    clean = True
    for x, y, k in pairs:
        for path, u, v in list(differences(x, y, k))[:6]:
            if isinstance(u, T) and isinstance(v, T) and not (u.op in ("ref",) or v.op in ("ref",)):
                clean = sc.prove(f"{name}: {path}", eq=(v, u), where=where, what=what) is True and clean
            else:
                clean = False
                lab.structural(f"{name}: {path}", False, where, what, f"{u if not isinstance(u, T) else show(u)} -> {v if not isinstance(v, T) else show(v)}"[:300])
    if clean:
        lab.structural(name, True, where)


def pure(lab, sc, name, snap, where):
    for t in leaves(snap):
        x = impure_in(t)
        if x is not None:
            lab.structural(f"{name}: no outside source", False, where, f"a result depends on {show(x)[:60]}", show(t)[:300])
            return
    for t in leaves(tuple(pc for pc, *_ in sc.raises())):
        x = impure_in(t)
        if x is not None:
            lab.structural(f"{name}: no outside source decides whether it completes", False, where, f"whether it fails depends on {show(x)[:60]}")
            return
    lab.structural(f"{name}: no outside source", True, where)


# ---------------------------------------------------------------- results of queries
def results(lab, visited):
    """Nothing a query returns or an export writes contains an outside source."""
    for label, target, name, args in CALLS:
        if target == "setup" or name.startswith(("plot_", "print_")):
            continue
        a = {"sim": f"gcode_interpreter.simulation.{name}", "block": f"planner_block.planner_block.{name}", "segment": f"utils.segment.{name}"}.get(target, f"{target}.{name}")
        w = lab.where(a)

        def go():
            sc, sim, blocks, states = scene_for(lab, concrete="submodel" in name or "inverse" in name)
            c = {"sim": sim, "t": sc.sym("t", "nonneg")}
            first = [v for _, v in sc.items(sc.get(blocks[0], "segments"))][0]
            x, kw = args(sc, c)
            n0 = len(sc.e.effects)
            obj = {"sim": sim, "block": blocks[0], "segment": first}.get(target)
            r = sc.meth(obj, name, *x, **kw) if obj is not None else sc.call(sc.name(target, name), *x, **kw)
            visited.update(sc.e.visited)
            vals = [snapshot(sc, r, {})] if r is not None and not sc.dead else []
            for ef in sc.e.effects[n0:]:
                if ef.name in (".write", "yaml.dump", "numpy.savetxt", ".write_text", ".writelines") and not (ef.args and ef.args[0].op == "ext" and str(ef.args[0].args[0]).startswith("sys.")):
                    vals += [snapshot(sc, v, {}) for v in list(ef.args) + list(ef.kw.values())]
            pure(lab, sc, label, tuple(vals), w)
            sc.finish()

        lab.attempt(label, w, go)


def sources(lab, visited):
    """Every use of an outside source: in code whose results were examined, or in code that only prints."""
    w = world(lab)
    n = 0
    done = set()
    for m in lab.program.modules.values():
        if ".examples" in m.name or m.name.endswith((".cli", ".__main__")):
            continue
        for node in ast.walk(m.tree):
            if not isinstance(node, (ast.Attribute, ast.Name, ast.Call)) or id(node) not in w.nodescope:
                continue
            sc = w.nodescope[id(node)]
            if isinstance(node, ast.Call):
                names = {f"builtins.{node.func.id}"} if isinstance(node.func, ast.Name) and node.func.id in ("id", "hash", "input") and w.find(node.func.id, sc) is None else set()
                if isinstance(node.func, ast.Attribute) and "." + node.func.attr in IMPURE_METHODS and any("pathlib" in d for d in w.dotted(node.func.value, sc)):
                    names = {"pathlib.Path." + node.func.attr}
            else:
                if not isinstance(getattr(node, "ctx", None), ast.Load):
                    continue
                names = {x for x in w.dotted(node, sc) if impure_name(x) and x.count(".") >= 1}
                if isinstance(node, ast.Name) and names and all(x.rstrip(".") in [i.rstrip(".") for i in IMPURE if i.endswith(".")] for x in names):
                    continue  # the module itself
            for x in sorted(names):
                d = w.enclosing(sc)
                key = (x, d)
                if key in done:
                    continue
                done.add(key)
                n += 1
                home = f"{d.mod.name}.{d.qual}" if d is not None else None
                pl = at(w, m, node, sc)
                if d is None:
                    ok = module_level(w, m, node, lab)
                    lab.structural(f"{x} at import of {m.name}", ok, pl, f"{x} is read when the module is imported and its value is used outside printing")
                elif home in visited or sinks(w, d):
                    lab.structural(f"{x} in {d.qual} reaches no result", True, pl)
                elif d.name.startswith(("plot_", "print_")):
                    lab.structural(f"{x} in {d.qual} reaches no result", True, pl, detail="display only")
                else:
                    lab.undecided(f"{x} in {d.qual}", pl, "this function is not reached by any analysed operation")
    lab.extra["outside sources"] = n


def module_level(w, m, node, lab):
    """Value read at import: the module variables set from it (or under it) must only be read by printing functions."""
    stmt = next((s for s in m.tree.body if any(n is node for n in ast.walk(s))), None)
    if stmt is None:
        return None
    names = {n.id for n in ast.walk(stmt) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    if isinstance(stmt, (ast.FunctionDef, ast.ClassDef)):
        return False
    for name in names:
        for d in readers(w, m, name):
            if d is None or not sinks(w, d):
                return False
    return True


# ---------------------------------------------------------------- shared data
def readers(w, m, name):
    """Functions that read a module variable, from wherever it is visible (None: module level of another place)."""
    out = set()
    for m2 in w.program.modules.values():
        for n in ast.walk(m2.tree):
            if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load) and id(n) in w.nodescope:
                sc = w.nodescope[id(n)]
                s = w.find(name, sc)
                if s is None:
                    continue
                mine = s is w.modules[m.name]
                if not mine and s.outer is None:
                    mine = any(h[0] == "from" and h[1] == m.name and h[2] == name for h in s.names.get(name, []))
                if mine:
                    d = w.enclosing(sc)
                    if d is None and m2 is m:
                        continue
                    out.add(d)
            elif isinstance(n, ast.Attribute) and n.attr == name and isinstance(n.ctx, ast.Load) and id(n) in w.nodescope:
                sc = w.nodescope[id(n)]
                if any(t == ("mod", m.name) for t in w.type(n.value, sc)):
                    out.add(w.enclosing(sc))
    return out


PURE_CALLS = {"int", "float", "str", "round", "len", "abs", "min", "max", "isinstance", "print", "range", "format", "repr", "bool", "sum", "list", "tuple", "zip", "enumerate", "sorted", "any", "all", "map"}


def sinks(w, d, stack=()):
    """Does this function only print: no result, no change of anything but locals and module variables?"""
    if d in stack:
        return True
    own = set()
    g = set()
    for n in ast.walk(d.node):
        if isinstance(n, ast.Global):
            g |= set(n.names)
    for n in ast.walk(d.node):
        if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Raise, ast.Nonlocal, ast.Lambda, ast.Await)):
            return False
        if isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            return False
        if isinstance(n, ast.FunctionDef) and n is not d.node:
            return False
        if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)):
            root = n
            while isinstance(root, (ast.Attribute, ast.Subscript)):
                root = root.value
            if not (isinstance(root, ast.Name) and local(d, root.id) and fresh(d, root.id)):
                return False
        if isinstance(n, ast.Call):
            f = n.func
            sc = w.nodescope.get(id(n))
            if isinstance(f, ast.Name) and f.id in PURE_CALLS:
                continue
            dots = w.dotted(f, sc) if sc is not None else set()
            ts = [t for t in w.type(f, sc) if t[0] in ("func", "bound")] if sc is not None else []
            if ts:
                if all(sinks(w, t[1], stack + (d,)) for t in ts):
                    continue
                return False
            if dots and all(x.startswith(("sys.stdout", "sys.stderr", "builtins.print", "time.", "sys.", "builtins.")) for x in dots):
                continue
            if isinstance(f, ast.Attribute):
                root = f.value
                while isinstance(root, (ast.Attribute, ast.Subscript, ast.Call)):
                    root = root.func if isinstance(root, ast.Call) else root.value
                if f.attr not in MUTATORS:
                    if isinstance(root, ast.Constant) or isinstance(root, ast.JoinedStr):
                        continue
                    if isinstance(root, ast.Name) and (local(d, root.id) or f.attr in dir(str)):
                        continue
                    if isinstance(root, ast.Name) and root.id in PURE_CALLS:
                        continue
                elif isinstance(root, ast.Name) and local(d, root.id) and fresh(d, root.id):
                    continue
                elif f.attr == "write" and any("stdout" in x or "stderr" in x for x in dots):
                    continue
            return False
    return True


def local(d, name):
    return any(isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store) for n in ast.walk(d.node)) or any(a.arg == name for a in all_args(d.node))


def all_args(node):
    a = node.args
    return a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else [])


def fresh(d, name):
    """A local that is always a newly made list, dictionary or text."""
    vals = [n.value for n in ast.walk(d.node) if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets)]
    packed = {a.arg for a in (d.node.args.vararg, d.node.args.kwarg) if a}
    vals = [v for v in vals if not (isinstance(v, ast.Name) and v.id in packed)]
    return bool(vals) and not any(a.arg == name for a in all_args(d.node)) and all(isinstance(v, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp, ast.Constant, ast.JoinedStr, ast.BinOp)) for v in vals)


class Datum:
    """Data that outlives a call: a module variable, a class attribute, a default argument or an attribute of a function."""

    def __init__(self, kind, mod, name, owner=None):
        self.kind, self.mod, self.name, self.owner = kind, mod, name, owner

    def key(self):
        return (self.kind, self.mod.name, getattr(self.owner, "qual", None), self.name)

    def text(self):
        if self.kind == "module":
            return f"module variable {self.name}"
        if self.kind == "class":
            return f"class attribute {self.owner.name}.{self.name}"
        if self.kind == "default":
            return f"default of parameter {self.name} of {self.owner.qual}"
        return f"attribute {self.name} of function {self.owner.qual}"


def instance_sets(c, name):
    """Do all instances get their own attribute of this name (assigned on self in the constructor)?"""
    for d in c.all_methods:
        if d.name in ("__init__", "__new__", "__post_init__"):
            me = d.node.args.args[0].arg if d.node.args.args else None
            for n in d.node.body:
                for x in ast.walk(n):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr == name and isinstance(x.value, ast.Name) and x.value.id == me:
                        return True
    return False


def mutable(v):
    if isinstance(v, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return True
    return isinstance(v, ast.Call) and not (isinstance(v.func, ast.Name) and v.func.id in ("frozenset", "tuple", "int", "float", "str", "namedtuple", "property", "TypeVar", "bool"))


def class_of_expr(w, x, sc, d):
    """Class whose attributes an expression addresses: the class itself, cls, type(self), self.__class__."""
    if isinstance(x, ast.Name):
        for t in w.type(x, sc):
            if t[0] == "class":
                return t[1]
        if d is not None and d.cls is not None and d.classm and d.node.args.args and d.node.args.args[0].arg == x.id:
            return d.cls
    for t in w.type(x, sc):
        if t[0] == "class":
            return t[1]
    if isinstance(x, ast.Attribute) and x.attr == "__class__" or isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "type":
        inner = x.value if isinstance(x, ast.Attribute) else (x.args[0] if x.args else None)
        if inner is not None:
            for t in w.type(inner, sc):
                if t[0] == "inst":
                    return t[1]
        if d is not None and d.cls is not None:
            return d.cls
    return None


def datum(w, m, x, sc, d, rebinding=False, depth=0):
    """The long-lived datum an expression stands for; None for anything else."""
    if depth > 6:
        return None
    if isinstance(x, ast.Name):
        s = w.find(x.id, sc)
        if s is None:
            return None
        if s.outer is None:
            hows = s.names.get(x.id, [])
            if any(h[0] in ("def", "cls", "module") for h in hows):
                return None
            for h in hows:
                if h[0] == "from" and h[1] in w.modules and h[2] in w.modules[h[1]].names:
                    src = w.modules[h[1]]
                    if any(k[0] in ("def", "cls", "module") for k in src.names[h[2]]):
                        return None
                    return Datum("module", src.mod, h[2])
                if h[0] == "from":
                    return None
            return Datum("module", s.mod, x.id)
        if isinstance(s.owner, Def):
            o = s.owner
            if not rebinding:
                a = o.node.args
                names = [p.arg for p in a.posonlyargs + a.args]
                dv = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
                dv.update({k.arg: v for k, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
                if x.id in dv and mutable(dv[x.id]):
                    return Datum("default", o.mod, x.id, o)
                # an alias of long-lived data
                vals = [h for h in s.names.get(x.id, []) if h[0] != "ann"]
                if vals and all(h[0] == "expr" for h in vals):
                    ds = [datum(w, m, h[1], h[2], o, False, depth + 1) for h in vals if isinstance(h[1], (ast.Name, ast.Attribute))]
                    if ds and len(ds) == len(vals) and all(ds):
                        return ds[0]
        return None
    if isinstance(x, ast.Attribute):
        ts = w.type(x.value, sc)
        for t in ts:
            if t[0] == "mod" and t[1] in w.modules:
                s = w.modules[t[1]]
                if x.attr in s.names and any(h[0] in ("def", "cls", "module") for h in s.names[x.attr]) and not rebinding:
                    return None
                return Datum("module", s.mod, x.attr)
            if t[0] in ("func",) and x.attr not in ("__dict__", "__doc__", "__name__", "__wrapped__"):
                return Datum("function", t[1].mod, x.attr, t[1])
        c = class_of_expr(w, x.value, sc, d)
        if c is not None:
            return Datum("class", c.mod, x.attr, c)
        if not rebinding:
            # self.attr that exists on the class only
            cs = [t[1] for t in ts if t[0] == "inst"]
            if isinstance(x.value, ast.Name) and d is not None and d.cls is not None and d.node.args.args and d.node.args.args[0].arg == x.value.id:
                cs = cs or [d.cls]
            for c in cs:
                for k in w.mro(c):
                    if k is not None and x.attr in k.class_attrs and x.attr not in k.methods and not any(instance_sets(j, x.attr) for j in w.mro(c) if j is not None):
                        return Datum("class", k.mod, x.attr, k)
    return None


def root_of(x):
    """Object an in-place change is applied to, peeled of items and attributes of items."""
    while isinstance(x, (ast.Subscript, ast.Call)) or isinstance(x, ast.Attribute) and isinstance(x.value, (ast.Subscript,)):
        if isinstance(x, ast.Call):
            if isinstance(x.func, ast.Attribute) and x.func.attr in ("get", "setdefault", "values", "items", "__getitem__"):
                x = x.func.value
                continue
            return x
        x = x.value
    return x


def shared(lab):
    """No data that outlives a call is changed after import, unless only printing depends on it."""
    w = world(lab)
    sites = {}
    checked = 0
    for m in lab.program.modules.values():
        if ".examples" in m.name:
            continue
        for n in ast.walk(m.tree):
            if id(n) not in w.nodescope:
                continue
            sc = w.nodescope[id(n)]
            d = w.enclosing(sc)
            if d is None:
                continue
            hits = []
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and n.id in declared_global(sc):
                hits.append(Datum("module", m, n.id))
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                checked += 1
                x = datum(w, m, n, sc, d, rebinding=True)
                if x is not None:
                    hits.append(x)
                else:
                    x = datum(w, m, root_of(n.value), sc, d)
                    # an attribute of an object that is a module variable
                    if x is not None and not (isinstance(n.value, ast.Name) and d.cls is not None and d.node.args.args and n.value.id == d.node.args.args[0].arg):
                        hits.append(x)
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                checked += 1
                x = datum(w, m, root_of(n), sc, d)
                if x is not None:
                    hits.append(x)
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                x = datum(w, m, n.target, sc, d)
                if x is not None and x.kind == "default":
                    hits.append(x)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                checked += 1
                x = datum(w, m, root_of(n.func.value), sc, d)
                if x is not None and not (n.func.attr in ("write", "update", "sort", "add", "pop") and external(w, n.func.value, sc)):
                    hits.append(x)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and len(n.args) > 2:
                c = class_of_expr(w, n.args[0], sc, d)
                if c is not None:
                    hits.append(Datum("class", c.mod, n.args[1].value if isinstance(n.args[1], ast.Constant) else "?", c))
                if any(t[0] in ("mod",) for t in w.type(n.args[0], sc)):
                    hits.append(Datum("module", m, "?"))
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id == "globals":
                hits.append(Datum("module", m, "?"))
            for x in hits:
                sites.setdefault(x.key(), (x, []))[1].append((m, n, sc, d))
    lab.extra["stores examined"] = checked
    for x, where in sites.values():
        m, n, sc, d = where[0]
        pl = at(w, m, n, sc)
        ok, why = harmless(w, lab, x, where)
        lab.structural(f"{x.text()} does not influence results", ok, pl, f"{x.text()} is changed by {', '.join(sorted({q.qual for _, _, _, q in where}))} and {why}")
    lab.structural("data that outlives a call", True, "pyGCodeDecode", detail=f"{checked} stores, {len(sites)} shared data changed")


def declared_global(sc):
    s = sc
    while s is not None:
        if isinstance(s.owner, Def) and s.globals:
            return s.globals
        if isinstance(s.owner, Def):
            return s.globals
        s = s.outer
    return ()


def external(w, x, sc):
    ds = w.dotted(x, sc)
    return bool(ds) and all(a.split(".")[0] in ("sys", "matplotlib", "plt", "logging", "warnings") for a in ds)


def touched_root(n):
    """The expression a write goes through, when nothing else is done with it."""
    if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)):
        yield root_of(n)
        yield root_of(n.value)


def memoised(w, x, sites):
    """A store of results under a key made of everything the result is computed from, read by the storing function only."""
    funcs = {id(d.node): d for _, _, _, d in sites}
    if len(funcs) != 1:
        return False
    d = next(iter(funcs.values()))
    if any(r is not d for r in readers(w, x.mod, x.name)):
        return False
    params = {a.arg for a in d.node.args.posonlyargs + d.node.args.args + d.node.args.kwonlyargs}
    local = {}
    for s in ast.walk(d.node):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            local.setdefault(s.targets[0].id, []).append(s.value)

    def deps(e, seen=()):
        out = set()
        for y in ast.walk(e):
            if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Load):
                if y.id in params:
                    out.add(y.id)
                elif y.id in local and y.id not in seen:
                    for v in local[y.id]:
                        out |= deps(v, (*seen, y.id))
                elif y.id not in local and w.find(y.id, w.nodescope.get(id(y))) is not None and w.find(y.id, w.nodescope.get(id(y))).outer is not None:
                    out.add("?")
        return out

    for _, n, _, _ in sites:
        if not isinstance(n, ast.Subscript):
            return False
        stmt = next((s for s in ast.walk(d.node) if isinstance(s, ast.Assign) and any(t is n for t in s.targets)), None)
        if stmt is None:
            return False
        key = n.slice
        for _ in range(3):
            if isinstance(key, ast.Name) and key.id not in params and len(local.get(key.id, [])) == 1:
                key = local[key.id][0]
        parts = key.elts if isinstance(key, ast.Tuple) else [key]
        whole = {p.id for p in parts if isinstance(p, ast.Name) and p.id in params}
        if not deps(stmt.value) <= whole:
            return False
    return True


def harmless(w, lab, x, sites):
    if x.kind == "module":
        rs = readers(w, x.mod, x.name)
        if x.name != "?" and all(r is not None and sinks(w, r) for r in rs):
            return True, ""
        if lazily(w, x, sites):
            return True, ""
        if memoised(w, x, sites):
            return None, ""
        return False, f"read by {', '.join(sorted(r.qual if r is not None else 'module level code' for r in rs)) or 'others'}"
    if x.kind in ("class", "function"):
        used = set()
        written = {id(root) for site in sites for root in touched_root(site[1])}
        for m in w.program.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and n.attr == x.name and isinstance(n.ctx, ast.Load) and id(n) in w.nodescope and id(n) not in written:
                    used.add(w.enclosing(w.nodescope[id(n)]))
        if all(u is not None and sinks(w, u) for u in used):
            return True, ""
        return False, "every later call and instance sees the change"
    return False, "every later call that omits the argument sees the change"


def lazily(w, x, sites):
    """Filled on first use with a value that depends on nothing but constants."""
    for m, n, sc, d in sites:
        if not isinstance(n, ast.Name):
            return False
        stmt = next((s for s in ast.walk(d.node) if isinstance(s, ast.Assign) and any(t is n for t in s.targets)), None)
        if stmt is None:
            return False
        guard = next((i for i in ast.walk(d.node) if isinstance(i, ast.If) and stmt in i.body and isinstance(i.test, ast.Compare) and isinstance(i.test.left, ast.Name) and i.test.left.id == x.name
                      and isinstance(i.test.ops[0], ast.Is) and isinstance(i.test.comparators[0], ast.Constant) and i.test.comparators[0].value is None), None)
        if guard is None:
            return False
        for y in ast.walk(stmt.value):
            if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Load):
                s = w.find(y.id, w.nodescope.get(id(y), sc))
                if s is not None and s.outer is not None and not getattr(s, "comp", False):
                    return False
                if y.id == x.name:
                    return False
    return True


# ---------------------------------------------------------------- order of sets
ORDER_FREE = {"sorted", "set", "frozenset", "any", "all", "len", "min", "max", "sum"}


def setlike(w, x, sc, depth=0):
    """Is this expression a set (of anything but small integers)?"""
    if depth > 5:
        return False
    if isinstance(x, (ast.Set, ast.SetComp)):
        if isinstance(x, ast.Set) and all(isinstance(e, ast.Constant) and isinstance(e.value, (int, bool)) for e in x.elts):
            return False
        return True
    if isinstance(x, ast.Call):
        if isinstance(x.func, ast.Name) and x.func.id in ("set", "frozenset") and w.find(x.func.id, sc) is None:
            return bool(x.args)
        if isinstance(x.func, ast.Attribute) and x.func.attr in ("union", "intersection", "difference", "symmetric_difference", "copy"):
            return setlike(w, x.func.value, sc, depth + 1) or keys(x.func.value)
        return False
    if isinstance(x, ast.BinOp) and isinstance(x.op, (ast.BitAnd, ast.BitOr, ast.Sub, ast.BitXor)):
        return any(setlike(w, y, sc, depth + 1) or keys(y) for y in (x.left, x.right))
    if isinstance(x, ast.IfExp):
        return setlike(w, x.body, sc, depth + 1) or setlike(w, x.orelse, sc, depth + 1)
    if isinstance(x, ast.Name):
        s = w.find(x.id, sc)
        if s is None:
            return False
        vals = [h for h in s.names.get(x.id, []) if h[0] == "expr"]
        return any(setlike(w, h[1], h[2], depth + 1) for h in vals if h[1] is not x)
    return False


def keys(x):
    return isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("keys", "items")


def ordering(lab):
    w = world(lab)
    count = 0
    for m in lab.program.modules.values():
        if ".examples" in m.name:
            continue
        par = {}
        for n in ast.walk(m.tree):
            for c in ast.iter_child_nodes(n):
                par[id(c)] = n
        for n in ast.walk(m.tree):
            its = []
            if isinstance(n, ast.For):
                its = [(n.iter, n)]
            elif isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.DictComp)):
                its = [(g.iter, n) for g in n.generators]
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("list", "tuple", "enumerate", "iter", "next", "zip", "dict", "map", "filter", "reversed"):
                its = [(a, n) for a in n.args]
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("join", "extend", "fromkeys", "array"):
                its = [(a, n) for a in n.args]
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "pop" and not n.args:
                its = [(n.func.value, n)]
            elif isinstance(n, ast.Starred):
                its = [(n.value, n)]
            for it, user in its:
                if id(it) not in w.nodescope and not isinstance(it, (ast.Name, ast.Set, ast.Call)):
                    continue
                sc = w.nodescope.get(id(it)) or w.nodescope.get(id(n))
                if sc is None:
                    continue
                count += 1
                if not setlike(w, it, sc):
                    continue
                pl = at(w, m, n, sc)
                p = par.get(id(user))
                if isinstance(p, ast.Call) and isinstance(p.func, ast.Name) and p.func.id in ORDER_FREE:
                    continue
                if isinstance(user, ast.For):
                    ok = order_free_body(user)
                elif isinstance(user, ast.DictComp):
                    ok = None
                else:
                    ok = None if inside_message(user, par) else False
                lab.structural(f"order of a set in {pl.split(' ', 1)[-1]}", ok, pl, f"{ast.unparse(it)[:60]} is a set of texts: its order changes from run to run")
    lab.structural("iterations examined", True, "pyGCodeDecode", detail=f"{count} iterations")


def inside_message(x, par):
    p = par.get(id(x))
    while p is not None and not isinstance(p, ast.stmt):
        p = par.get(id(p))
    return isinstance(p, ast.Raise) or isinstance(p, ast.Expr) and isinstance(p.value, ast.Call) and "print" in ast.unparse(p.value.func)


def order_free_body(loop):
    """A loop over a set whose iterations do not depend on their order."""
    verdict = True
    for n in ast.walk(ast.Module(loop.body, [])):
        if isinstance(n, (ast.Break, ast.Return, ast.Yield)):
            return None
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "extend", "insert"):
            return False
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            verdict = None
        if isinstance(n, ast.AugAssign):
            verdict = None
    return verdict


def l02(lab):
    visited = set()
    shared(lab)
    ordering(lab)
    histories(lab)
    results(lab, visited)
    sources(lab, visited | lab.analysed)
