"""X05: which files the library opens, writes and creates, and that it closes them."""
import ast
import posixpath
import re

from .common import *  # noqa: F401,F403
from .effects import CALLS, scene_for
from .lints import world, at
from .generator import open_lines
from .queries import motion, simulate
from ..engine import Inst
from ..terms import T, mk, const, TRUE, FALSE, NONE, AND, OR, NOT, show, is_const, cval, subterms

OPENERS = {"builtins.open", "open", "io.open", "codecs.open", "gzip.open", "bz2.open", "lzma.open", "os.fdopen", "zipfile.ZipFile", "tarfile.open",
           "tempfile.TemporaryFile", "tempfile.NamedTemporaryFile", "tempfile.SpooledTemporaryFile", "os.open"}
DESTROY = {"os.remove", "os.unlink", "os.rmdir", "os.removedirs", "os.rename", "os.renames", "os.replace", "os.truncate", "os.chmod", "os.chown", "os.chdir", "os.link",
           "os.symlink", "os.utime", "os.fchdir", "os.system"}
WRITING = {"mkdir", "makedirs", "write_text", "write_bytes", "touch", "savefig", "savetxt", "screenshot", "tofile", "to_csv", "save"}
DESTROY_METHODS = {"unlink", "rmdir", "rename", "symlink_to", "hardlink_to", "link_to", "chmod", "lchmod"}
STRIP = {"Path", "pathlib.Path", "PurePath", "pathlib.PurePath", "str", "builtins.str", "os.fspath", "fspath", "os.path.abspath", "os.path.normpath", "os.path.realpath", "os.path.expanduser"}
STRIP_M = {".resolve", ".absolute", ".expanduser", ".as_posix", ".__str__", ".__fspath__"}


def place(t):
    """Normal form of a path term: ("at", x) or ("parent", x)."""
    if is_const(t) and isinstance(cval(t), str):
        return ("at", posixpath.normpath(cval(t)))
    if t.op == "str" and t.args and isinstance(t.args[0], T):
        return place(t.args[0])
    if t.op == "call":
        n = str(t.args[0])
        if (n in STRIP or n in STRIP_M) and len(t.args) > 1 and isinstance(t.args[1], T):
            return place(t.args[1])
        if n in ("os.path.dirname",) and len(t.args) > 1:
            return up(place(t.args[1]))
        if n in ("open", ".open") and len(t.args) > 1:
            for a in t.args[1:]:
                if isinstance(a, T) and a.op not in ("kw",):
                    return place(a)
    if t.op == "attr" and len(t.args) == 2:
        if t.args[1] == "parent":
            return up(place(t.args[0]))
        if t.args[1] == "name" and t.args[0].op == "call" and str(t.args[0].args[0]) in ("open", ".open"):
            return place(t.args[0])
    if t.op == "item" and t.args[0].op == "call" and str(t.args[0].args[0]) == "os.path.split" and is_const(t.args[1]) and cval(t.args[1]) == 0:
        return up(place(t.args[0].args[1]))
    return ("at", t)


def alternatives(t):
    """Ternaries inside a path term lifted to the top: (condition, path)."""
    if t.op == "ite":
        return [(AND(t.args[0], c), x) for c, x in alternatives(t.args[1])] + [(AND(NOT(t.args[0]), c), x) for c, x in alternatives(t.args[2])]
    if t.op == "call" and len(t.args) == 2 and isinstance(t.args[1], T) and (str(t.args[0]) in STRIP or str(t.args[0]) in STRIP_M):
        return [(c, mk("call", t.args[0], x)) for c, x in alternatives(t.args[1])]
    if t.op == "attr" and t.args[1] == "parent":
        return [(c, mk("attr", x, "parent")) for c, x in alternatives(t.args[0])]
    return [(TRUE, t)]


def up(p):
    if p[0] == "at" and isinstance(p[1], str):
        return ("at", posixpath.dirname(p[1]) or ".")
    return ("parent", *p)


def tell(p):
    if p[0] == "parent":
        return f"parent of {tell(p[1:])}"
    return p[1] if isinstance(p[1], str) else show(p[1])[:70]


def pick(ef, pos, *names):
    for n in names:
        if n in ef.kw:
            return ef.kw[n]
    return ef.args[pos] if pos is not None and len(ef.args) > pos else None


def touched(ef):
    """(kind, path term) for every path an effect creates, changes or deletes; kind: write, dir, destroy."""
    n = ef.name
    last = n.rsplit(".", 1)[-1]
    if n in OPENERS or n == ".open":
        method = n == ".open"
        mode = pick(ef, 1, "mode")
        if method and ef.args and mode is None and not pathlike(ef.args[0]):
            return []
        p = ef.args[0] if method else pick(ef, 0, "file", "filename", "name")
        if n.startswith("tempfile"):
            return [("write", mk("call", n))]
        if mode is None or (is_const(mode) and isinstance(cval(mode), str) and not set(cval(mode)) & set("wax+")):
            return []
        return [("write", p)] if p is not None else []
    if n in (".write_text", ".write_bytes", ".touch"):
        return [("write", ef.args[0])]
    if n == ".mkdir":
        return [("dir", ef.args[0])]
    if n in ("os.makedirs", "os.mkdir"):
        return [("dir", pick(ef, 0, "name", "path"))]
    if n in ("numpy.savetxt", "numpy.save", "numpy.savez", "numpy.savez_compressed"):
        p = pick(ef, 0, "fname", "file")
        return [] if handle(p) else [("write", p)]
    if last == "tofile" or last == "to_csv":
        p = pick(ef, 1, "fid", "path_or_buf")
        return [] if p is None or handle(p) else [("write", p)]
    if last == "savefig":
        p = pick(ef, 0 if n.startswith("matplotlib.pyplot") else 1, "fname", "filename")
        return [] if p is None or handle(p) else [("write", p)]
    if n.startswith(".") and last in ("screenshot", "save", "save_graphic", "export_html", "export_vtksz", "export_gltf", "export_obj", "export_vrml", "write_frame", "open_gif", "open_movie"):
        p = pick(ef, 1, "filename")
        return [] if p is None or p is NONE else [("write", p)]
    if n.startswith(".") and last == "show" and "screenshot" in ef.kw and ef.kw["screenshot"] not in (NONE, FALSE):
        return [("write", ef.kw["screenshot"])]
    if n.startswith(("pyvista.save", "shutil.copy", "shutil.move")):
        p = pick(ef, 0 if n.startswith("pyvista") else 1, "filename", "dst")
        return [("write", p)]
    if n in DESTROY or n.startswith("shutil.rm"):
        return [("destroy", pick(ef, 0, "path", "src") or NONE)]
    if n.startswith(".") and last in DESTROY_METHODS or (n == ".replace" and ef.args and pathlike(ef.args[0])):
        return [("destroy", ef.args[0])]
    return []


def handle(t):
    return isinstance(t, T) and t.op == "call" and str(t.args[0]) in ("open", ".open")


def pathlike(t):
    return isinstance(t, T) and any(x.op == "call" and str(x.args[0]) in ("Path", "pathlib.Path", "pathlib.Path.cwd") or x.op == "sym" and str(x.args[0]).startswith("path:") or x.op == "attr" and x.args[1] == "parent" for x in [t, *subterms(t)])


def missing(sc, exists):
    """Every question whether something exists is answered with `exists`."""
    a = TRUE if exists else FALSE
    for n in ("exists", "is_dir", "is_file"):
        sc.e.method_overrides[n] = lambda e, st, obj, args, kwargs, node: a
    for n in ("os.path.exists", "os.path.isdir", "os.path.isfile"):
        sc.e.ext_overrides[n] = lambda e, st, args, kwargs, node: a


# label, target, function, arguments (without path), name of the path parameter, is a data export
EXPORTS = [
    ("save_summary", "sim", "save_summary", lambda sc, c: ([], {}), "filepath", True),
    ("save_layer_metrics", "tools", "save_layer_metrics", lambda sc, c: ([c["sim"]], {}), "filepath", True),
    ("save_layer_metrics with other locale and delimiter", "tools", "save_layer_metrics", lambda sc, c: ([c["sim"]], {"locale": const("de_DE.utf8"), "delimiter": const(",")}), "filepath", True),
    ("write_submodel_times", "tools", "write_submodel_times", lambda sc, c: ([c["sim"], sc.list([const(5), const(0), const(0)]), const(4), const(4), const(4)], {}), "filename", True),
    ("write_submodel_times with further entries", "tools", "write_submodel_times", lambda sc, c: ([c["sim"], sc.list([const(5), const(0), const(0)]), const(4), const(4), const(4)], {"name": const("part"), "path": const("other"), "filepath": const("other2")}), "filename", True),
    ("generate_abaqus_event_series", "abaqus_file_generator", "generate_abaqus_event_series", lambda sc, c: ([c["sim"]], {}), "filepath", True),
    ("generate_abaqus_event_series in inches", "abaqus_file_generator", "generate_abaqus_event_series", lambda sc, c: ([c["sim"]], {"output_unit_system": const("inch"), "tolerance": const(0)}), "filepath", True),
    ("plot_2d_position", "sim", "plot_2d_position", lambda sc, c: ([], {}), "filepath", False),
    ("plot_2d_position shown, with points", "sim", "plot_2d_position", lambda sc, c: ([], {"show": TRUE, "show_points": TRUE, "colvar": const("Acceleration")}), "filepath", False),
    ("plot_3d screenshot", "sim", "plot_3d", lambda sc, c: ([], {"extrusion_only": FALSE}), "screenshot_path", False),
    ("plot_3d vtk", "sim", "plot_3d", lambda sc, c: ([], {"extrusion_only": FALSE}), "vtk_path", False),
    ("plot_3d of extrusion", "sim", "plot_3d", lambda sc, c: ([], {}), "screenshot_path", False),
    ("plot_vel", "sim", "plot_vel", lambda sc, c: ([], {}), "filepath", False),
    ("plot_vel not shown", "sim", "plot_vel", lambda sc, c: ([], {"show": FALSE, "show_jv": TRUE, "show_segments": TRUE}), "filepath", False),
]


def anchor(target, name):
    return {"sim": f"gcode_interpreter.simulation.{name}", "block": f"planner_block.planner_block.{name}", "segment": f"utils.segment.{name}", "setup": f"gcode_interpreter.setup.{name}"}.get(target, f"{target}.{name}")


def default_of(lab, name, par):
    """Documented default of a parameter (signature, and docstring when it states one): text, None, or False when required."""
    w = world(lab)
    for d in w.defs:
        if d.name != name:
            continue
        a = d.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        dv = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        dv.update({k.arg: v for k, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
        if par not in names + [k.arg for k in a.kwonlyargs]:
            return "?"
        if par not in dv:
            return False
        doc = ast.get_docstring(d.node) or ""
        m = re.search(rf"\b{re.escape(par)}\b[^\n]*default\s*=\s*[\"']([^\"'\n]+)[\"']", doc, re.I)
        if m:
            return posixpath.normpath(m.group(1))
        v = dv[par]
        if isinstance(v, ast.Constant) and v.value is None:
            return None
        texts = [n.value for n in ast.walk(v) if isinstance(n, ast.Constant) and isinstance(n.value, str)]
        return posixpath.normpath(texts[0]) if len(texts) == 1 else "?"
    return "?"


def optional(lab, name, par):
    """May the path be None: by default or by annotation."""
    for d in world(lab).defs:
        if d.name == name:
            a = d.node.args
            for x in a.posonlyargs + a.args + a.kwonlyargs:
                if x.arg == par and x.annotation is not None and ("Optional" in ast.unparse(x.annotation) or "None" in ast.unparse(x.annotation)):
                    return True
    return default_of(lab, name, par) is None


def invoke(sc, target, name, sim, args, kw):
    n0 = len(sc.e.effects)
    if target == "sim":
        r = sc.meth(sim, name, *args, **kw)
    else:
        r = sc.call(sc.name(target, name), *args, **kw)
    return r, [x for x in sc.e.effects[n0:] if x.pc is not FALSE]


def x05(lab):
    visited = set()
    for label, target, name, args, par, data in EXPORTS:
        w = lab.where(anchor(target, name))
        default = default_of(lab, name, par)
        cases = [("a given path", "sym"), ("a path given as text", "text")]
        if default is not False:
            cases.append(("the default path", "default"))
        if optional(lab, name, par):
            cases.append(("no path (None)", "none"))
        for cl, kind in cases:
            for exists in (False, True) if data and kind in ("sym", "text", "default") else (False,):
                tag = f"{label}: {cl}" + (", directory exists" if exists else "")

                def go():
                    if default is False and kind == "none":
                        return
                    sc, sim, blocks, states = scene_for(lab, concrete="submodel" in name)
                    missing(sc, exists)
                    p = sc.e.symbol("path:out", "path") if kind == "sym" else (const("some dir/ü/out.x") if kind == "text" else None)
                    a, kw = args(sc, {"sim": sim})
                    if kind == "none":
                        kw = {**kw, par: NONE}
                    elif p is not None:
                        kw = {**kw, par: p}
                    _, effs = invoke(sc, target, name, sim, a, kw)
                    visited.update(sc.e.visited)
                    want = None
                    if p is not None:
                        want = place(p)
                    elif kind == "default" and isinstance(default, str) and default != "?":
                        want = ("at", default)
                    if kind == "default" and default == "?":
                        lab.undecided(f"{tag}: writes only there", w, "the default is not a constant text")
                        return
                    judge(lab, sc, tag, w, effs, want, data, exists)
                    closed(lab, sc, tag, w, effs)
                    sc.e.method_overrides.clear()
                    sc.finish()

                lab.attempt(tag, w, go)
    quiet_calls(lab, visited)
    constructing(lab, visited)
    command_line(lab)
    opens(lab)
    writers(lab, visited)


def judge(lab, sc, tag, w, effs, want, data, exists):
    """want: place of the file that may be written, None: nothing may be written."""
    writes, dirs = [], []
    bad = False
    whole = [(ef, kind, ef.pc, p) for ef in effs for kind, p in touched(ef)]
    for ef, kind, pc, p in whole:
        if p is None:
            lab.undecided(f"{tag}: path of {ef.name}", ef.where(), "path not visible")
            bad = True
            continue
        if p is NONE:
            continue
        alts = alternatives(p)
        if len(alts) > 1:
            whole.extend((ef, kind, AND(pc, c), q) for c, q in alts)
            continue
        pl = place(p)
        if kind == "destroy":
            ok, what = False, "deletes, renames or changes"
        elif kind == "dir":
            ok, what = want is not None and above(pl, want), "creates the directory"
            dirs.append((ef, pl, pc))
        else:
            ok, what = want is not None and pl == want, "writes"
            writes.append((ef, pl, pc))
        if not ok:
            bad = True
            sc.prove(f"{tag}: {ef.name} {tell(pl)[:40]}", cond=NOT(pc), pc=False, where=ef.where(), what=f"{ef.name} {what} {tell(pl)}; allowed is only {tell(want) if want else 'nothing, no path was given'}")
    if not bad:
        lab.structural(f"{tag}: writes only there" if want else f"{tag}: writes nothing", True, w)
    if want is None:
        return
    if not data:
        return
    hit = [(ef, pc) for ef, pl, pc in writes if pl == want]
    end = sc.st.pc if not sc.dead else FALSE
    if not hit:
        lab.structural(f"{tag}: the file is written", False if not sc.e.notes and end is not FALSE else None, w, "nothing is written at the path asked for")
        return
    sc.prove(f"{tag}: the file is written whenever the call completes", cond=OR(NOT(end), *[pc for _, pc in hit]), pc=False, where=w, what="the call completes without writing the file")
    if not exists:
        for ef, pc in hit[:1]:
            made = [dpc for d, pl, dpc in dirs if pl == up(want) and d.seq < ef.seq and deep(d)]
            sc.prove(f"{tag}: missing parent directories are created first", cond=OR(NOT(pc), *made), pc=False, where=ef.where(), what="the parent directory of the file is not created (with its parents) before it is written")
    else:
        for d, pl, dpc in dirs:
            ok = d.kw.get("exist_ok", (d.args[2] if len(d.args) > 2 else None))
            if ok is None or (is_const(ok) and not cval(ok)):
                sc.prove(f"{tag}: an existing directory is accepted", cond=NOT(dpc), pc=False, where=d.where(), what="creating the directory fails when it exists already")


def above(pl, want):
    if pl == up(want):
        return True
    return False


def deep(d):
    if d.name == "os.makedirs":
        return True
    if d.name == "os.mkdir":
        return False
    v = d.kw.get("parents", d.args[2] if len(d.args) > 2 else None)
    return v is not None and is_const(v) and bool(cval(v))


def closed(lab, sc, tag, w, effs):
    """Every handle opened on the way is closed when the call completes and on every modelled failure."""
    for o in effs:
        if (o.name in OPENERS or o.name == ".open") and o.result is not None:
            cl = [x.pc for x in effs if x.seq > o.seq and x.name in ("with.exit", ".close") and x.args and x.args[0] is o.result]
            sc.prove(f"{tag}: the file is closed", cond=OR(NOT(o.pc), *cl), pc=False, where=o.where(), what="a file that was opened stays open on some path", soft=True)


def quiet_calls(lab, visited):
    """Queries and plots without a path write nothing."""
    for label, target, name, args in CALLS:
        if any(name == e[2] for e in EXPORTS) or target == "setup":
            continue
        w = lab.where(anchor(target, name))

        def go():
            sc, sim, blocks, states = scene_for(lab, concrete="inverse" in name)
            c = {"sim": sim, "t": sc.sym("t", "nonneg")}
            first = [v for _, v in sc.items(sc.get(blocks[0], "segments"))][0]
            a, kw = args(sc, c)
            n0 = len(sc.e.effects)
            obj = {"sim": sim, "block": blocks[0], "segment": first}.get(target)
            if obj is not None:
                sc.meth(obj, name, *a, **kw)
            else:
                sc.call(sc.name(target, name), *a, **kw)
            visited.update(sc.e.visited)
            judge(lab, sc, label, w, [x for x in sc.e.effects[n0:] if x.pc is not FALSE], None, False, False)
            sc.finish()

        lab.attempt(label, w, go)


def constructing(lab, visited):
    """Building a setup and running a simulation writes nothing; the presets and the program are opened for reading only."""
    from .settings import preset, ALLKEYS, setup_of
    w = lab.where("gcode_interpreter.setup.load_setup")

    def setup_():
        sc = lab.scene(normalize=True)
        sc.e.ext_overrides["yaml.safe_load"] = sc.e.ext_overrides["yaml.load"] = lambda e, st, a, k, n: e.new_dict(st, [(const("my_printer"), preset(sc, ALLKEYS))])
        p = sc.e.symbol("path:presets", "path")
        n0 = len(sc.e.effects)
        s = sc.call(sc.name("gcode_interpreter", "setup"), p, const("my_printer"), layer_cue=const("L"))
        for m, a in (("set_initial_position", [sc.list([const(1), const(2), const(3), const(4)], "tuple")]), ("set_property", [sc.dict([(const("jerk"), const(1))])]), ("select_printer", [const("my_printer")]), ("get_dict", [])):
            if sc.has(s, m) is not False:
                sc.meth(s, m, *a)
        visited.update(sc.e.visited)
        effs = [x for x in sc.e.effects[n0:] if x.pc is not FALSE]
        judge(lab, sc, "making a setup", w, effs, None, False, False)
        closed(lab, sc, "making a setup", w, effs)
        sc.finish()

    lab.attempt("making a setup", w, setup_)
    w2 = lab.where("gcode_interpreter.simulation.__init__")

    wr = lab.where("state_generator.read_gcode_to_dict_list")

    def read_():
        sc = lab.scene(normalize=True)
        p = sc.e.symbol("path:part", "path")
        lines = [sc.sym(f"line {i}", "str") for i in range(1, 4)]
        got = []

        open_lines(sc, lines, got)
        sc.e.overrides["arg_extract"] = lambda e, st, f, a, k, node: e.new_dict(st, [(const("G1"), mk("parsed", (list(a) + [k.get("string")])[0]))])
        n0 = len(sc.e.effects)
        sc.call(sc.name("state_generator", "read_gcode_to_dict_list"), p)
        visited.update(sc.e.visited)
        if not got:
            lab.undecided("reading a program: the program is opened", wr, "no open found")
        for pc, a, k, node in got:
            mode = k.get("mode", a[1] if len(a) > 1 else const("r"))
            ok = not set(cval(mode)) & set("wax+") if is_const(mode) and isinstance(cval(mode), str) else None
            lab.structural("reading a program: it is opened for reading only", ok, wr, f"the G-code file is opened with mode {show(mode)}")
            f = k.get("file", a[0] if a else NONE)
            lab.structural("reading a program: the file asked for is opened", place(f) == place(p), wr, f"{show(f)[:60]} is opened instead of the given path")
        judge(lab, sc, "reading a program", wr, [x for x in sc.e.effects[n0:] if x.pc is not FALSE], None, False, False)
        sc.finish()

    lab.attempt("reading a program", wr, read_)

    def run_():
        from .settings import simulation

        sc = lab.scene(normalize=True)
        st = setup_of(sc, [("my_printer", preset(sc, ALLKEYS))])
        n0 = len(sc.e.effects)
        simulation(sc, initial_machine_setup=st)
        visited.update(sc.e.visited)
        effs = [x for x in sc.e.effects[n0:] if x.pc is not FALSE]
        judge(lab, sc, "making a simulation", w2, effs, None, False, False)

    lab.attempt("making a simulation", w2, run_)


def command_line(lab):
    """The command line creates the output directory only, and every output lies in it."""
    from .cli import declared, Plot, paths_of, written

    wm = lab.where("cli._main")

    def go():
        _, options, defaults = declared(lab)
        if "plot" not in options:
            lab.undecided("command line", wm, "no subcommand plot")
            return
        for label, kw in {"directory given": dict(given={"gcode", "presets", "printer_name", "out_dir", "layer_cue"}), "directory accepted": dict(given={"gcode"}, answers=("y",)), "directory declined": dict(given={"gcode"}, answers=("n",))}.items():
            r = Plot(lab, options, defaults, **kw)
            if r.ended:
                lab.undecided(f"command line, {label}", wm, "does not complete")
                continue
            root = r.args.get("out_dir") if "out_dir" in kw["given"] else None
            declined = label == "directory declined"
            n = 0
            for ef in r.sc.e.effects[r.start:]:
                if ef.pc is FALSE:
                    continue
                for kind, p in touched(ef):
                    if p is None or p is NONE:
                        continue
                    ok = kind == "dir" and not declined and (p is root if root is not None else any(x.op == "call" and "cwd" in str(x.args[0]) for x in [p, *subterms(p)]))
                    n += 1
                    lab.structural(f"command line, {label}: {ef.name}", True if ok else False, ef.where(), f"{ef.name} touches {show(p)[:80]}" + (", although the user declined" if declined else ", which is not the output directory"))
            for o in r.live(r.outs):
                if not written(o):
                    continue
                for p in paths_of(o):
                    ok = not declined and (root in [p, *subterms(p)] if root is not None else any(x.op == "call" and "cwd" in str(x.args[0]) for x in [p, *subterms(p)]))
                    n += 1
                    lab.structural(f"command line, {label}: {o[1]}", True if ok else False, wm, f"{o[1]} writes to {show(p)[:80]}")
            lab.structural(f"command line, {label}: outputs lie in the directory", True, wm, detail=f"{n} paths")

    lab.attempt("command line", wm, go)


# ---------------------------------------------------------------- every open() in the sources
def parents(tree):
    out = {}
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            out[id(c)] = n
    return out


def opener(w, call, sc):
    """Name of the opening function; None when the call opens nothing."""
    names = w.dotted(call.func, sc)
    for d in names:
        if d in OPENERS:
            return d
    f = call.func
    if isinstance(f, ast.Name) and f.id == "open" and w.find("open", sc) is None:
        return "open"
    if isinstance(f, ast.Attribute) and f.attr == "open":
        ts = w.type(f.value, sc)
        if any(t[0] in ("inst", "class", "module") for t in ts):
            return None
        base = sorted(w.dotted(f.value, sc))
        if any(b.split(".")[0] not in ("pathlib", "importlib") for b in base):
            return None
        return ".open"
    return None


def opens(lab):
    w = world(lab)
    up_ = {m.name: parents(m.tree) for m in lab.program.modules.values()}
    todo = []
    for m, d, call, sc in w.calls():
        n = opener(w, call, sc)
        if n:
            todo.append((m, call, sc, n))
    seen, count = set(), 0
    while todo:
        m, call, sc, n = todo.pop()
        if id(call) in seen:
            continue
        seen.add(id(call))
        count += 1
        pl = at(w, m, call, sc)
        verdict, more = released(w, m, call, sc, up_[m.name])
        if verdict == "returned":
            fn = more
            for m2, d2, c2, sc2 in w.calls():
                if any(t[0] in ("func", "bound") and t[1].node is fn for t in w.type(c2.func, sc2)):
                    todo.append((m2, c2, sc2, n))
            continue
        lab.structural(f"{ast.unparse(call)[:60]} in {pl.split(' ', 1)[-1]} is closed on every path", {"ok": True, "leak": False}.get(verdict), pl, f"{ast.unparse(call)[:80]}: {more or 'not closed when an error occurs'}")
    lab.extra["opened files"] = count


def released(w, m, call, sc, up_):
    node, p = call, up_.get(id(call))
    # wrappers that pass the handle on
    while isinstance(p, ast.Call) and node in p.args and ast.unparse(p.func).split(".")[-1] in ("closing", "TextIOWrapper", "BufferedReader", "BufferedWriter"):
        node, p = p, up_.get(id(p))
    while isinstance(p, (ast.IfExp, ast.NamedExpr)) :
        node, p = p, up_.get(id(p))
    if isinstance(p, ast.withitem) and p.context_expr is node:
        return "ok", ""
    if isinstance(p, ast.Call) and isinstance(p.func, ast.Attribute) and p.func.attr in ("enter_context", "push") and node in p.args:
        return "ok", ""
    if isinstance(p, ast.Return):
        q = p
        while q is not None and not isinstance(q, (ast.FunctionDef, ast.Lambda)):
            q = up_.get(id(q))
        return ("returned", q) if isinstance(q, ast.FunctionDef) else ("?", "")
    if isinstance(p, ast.Lambda):
        return "?", "opened by a lambda"
    if isinstance(p, (ast.Yield,)):
        q = up_.get(id(p))
        return "?", "yielded"
    if isinstance(p, (ast.Assign, ast.AnnAssign)) or isinstance(p, ast.NamedExpr):
        tg = p.targets[0] if isinstance(p, ast.Assign) else p.target
        if not isinstance(tg, (ast.Name, ast.Attribute)):
            return "?", "stored in a structure"
        text = ast.unparse(tg)
        return assigned(p, text, up_), f"the handle is stored in {text} and not closed when an error occurs"
    return "leak", "the handle is dropped without being closed"


def closes(stmts, text):
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "close" and ast.unparse(n.func.value) == text:
                return True
            if isinstance(n, ast.With) and any(ast.unparse(i.context_expr) in (text, f"closing({text})", f"contextlib.closing({text})") for i in n.items):
                return True
    return False


def assigned(stmt, text, up_):
    """A handle stored in a name: the statement that follows must guard it, or an enclosing try closes it."""
    node = stmt
    while True:
        p = up_.get(id(node))
        if p is None:
            return "leak"
        for f in ("body", "orelse", "finalbody", "handlers"):
            block = getattr(p, f, None)
            if isinstance(block, list) and node in block:
                i = block.index(node)
                for nxt in block[i + 1:]:
                    if isinstance(nxt, ast.With) and closes([nxt], text):
                        return "ok"
                    if isinstance(nxt, ast.Try) and closes(nxt.finalbody, text):
                        return "ok"
                    if not harmless(nxt):
                        break
                    if isinstance(nxt, ast.Return) and nxt.value is not None and ast.unparse(nxt.value) == text:
                        return "?"
                if isinstance(p, ast.Try) and f == "body" and closes(p.finalbody, text):
                    return "ok"
        if isinstance(p, (ast.FunctionDef, ast.Module, ast.ClassDef)):
            return "leak"
        node = p


def harmless(s):
    if isinstance(s, ast.Pass):
        return True
    if isinstance(s, (ast.Assign, ast.AnnAssign)):
        return s.value is None or all(isinstance(n, (ast.Constant, ast.Name, ast.List, ast.Dict, ast.Tuple, ast.expr_context, ast.Set)) for n in ast.walk(s.value))
    return isinstance(s, ast.Return)


def writers(lab, visited):
    """Every function of the library that could write has been analysed; nothing deletes, renames or changes other files."""
    w = world(lab)
    n = 0
    for m, d, call, sc in w.calls():
        if ".examples" in m.name:
            continue
        n += 1
        pl = at(w, m, call, sc)
        dots = w.dotted(call.func, sc)
        f = call.func
        last = f.attr if isinstance(f, ast.Attribute) else (f.id if isinstance(f, ast.Name) else "")
        if last in WRITING and not any(t[0] == "inst" for t in w.type(f.value, sc)) if isinstance(f, ast.Attribute) else opener(w, call, sc):
            home = f"{d.mod.name}.{d.qual}" if d is not None else None
            if d is None:
                lab.structural(f"{last} at import of {m.name}", False, pl, f"{ast.unparse(call)[:80]} opens or writes a file when the module is imported")
            elif home not in visited and not m.name.endswith(".cli") and not any(v.startswith(home + ".") for v in visited):
                lab.undecided(f"{last} in {home}", pl, "this function is not reached by any analysed operation")
        bad = [x for x in dots if x in DESTROY or x.startswith(("shutil.rm", "shutil.move", "tempfile."))]
        if isinstance(f, ast.Attribute) and f.attr in DESTROY_METHODS and not any(t[0] in ("inst", "str", "list", "dict") for t in w.type(f.value, sc)) and not dots:
            bad.append(f.attr)
        if bad:
            lab.structural(f"{bad[0]} in {pl.split(' ', 1)[-1]}", False, pl, f"{ast.unparse(call)[:80]} deletes, renames or changes files or the working directory")
    lab.structural("no call deletes, renames or changes other files", True, "pyGCodeDecode", detail=f"{n} calls")
