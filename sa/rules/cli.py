"""L04: the command line."""
import ast
import os
import re

from .common import *  # noqa: F401,F403
from ..engine import Inst
from ..program import Cls
from ..terms import T, mk, const, TRUE, FALSE, NONE, AND, NOT, show, is_const, cval, subterms, sym
from .lints import world, pyproject

OUTPUTS = ("save_summary", "save_layer_metrics", "plot_3d", "plot_2d_position", "plot_vel", "generate_abaqus_event_series", "write_submodel_times")
WRITES = (".mkdir", ".write", ".write_text", ".write_bytes", ".touch", "os.makedirs", "os.mkdir", ".save", ".savefig", ".screenshot", "yaml.dump", "numpy.savetxt", "with.exit")


class Option:
    def __init__(self, flags, kw):
        self.flags, self.kw = flags, kw
        long = [f for f in flags if f.startswith("--")]
        name = cval(kw["dest"]) if "dest" in kw and is_const(kw["dest"]) else (long or flags)[0].lstrip("-")
        self.dest = name.replace("-", "_")
        self.positional = not flags[0].startswith("-")

    def text(self, k):
        v = self.kw.get(k)
        return cval(v) if v is not None and is_const(v) else v

    @property
    def path(self):
        t = self.kw.get("type")
        return t is not None and any(x.op == "ext" and str(x.args[0]).startswith("pathlib.") for x in [t, *subterms(t)])

    def given(self, sc, tag):
        """What the parser delivers when the option is given."""
        if self.text("action") in ("store_true", "store_false"):
            return TRUE if self.text("action") == "store_true" else FALSE
        if self.path:
            v = sc.e.symbol(f"arg:{tag}", "path")
        else:
            t = self.kw.get("type")
            if t is not None and not (t.op == "ext" and t.args[0] in ("builtins.str", "str")):
                v = sc._run(sc.e.call_value, t, [const(f"<{tag}>")], {}, None)
            else:
                v = const(f"<{tag}>")
        n = self.text("nargs")
        if n in ("+", "*") or isinstance(n, int) or self.text("action") in ("append", "extend"):
            return sc.list([v])
        return v

    def absent(self):
        if self.text("action") == "store_true":
            return self.kw.get("default", FALSE)
        if self.text("action") == "store_false":
            return self.kw.get("default", TRUE)
        return self.kw.get("default", NONE)


def parser_of(recv):
    """Subcommand a parser object belongs to; None for the main parser."""
    t = recv
    while isinstance(t, T) and t.op == "call" and len(t.args) > 1:
        if t.args[0] == ".add_parser":
            a = t.args[2] if len(t.args) > 2 else None
            return cval(a) if a is not None and is_const(a) else "?"
        t = t.args[1]
    return None


def run(sc, fields=None):
    """Analyse the entry point; fields: what the parsed arguments contain."""
    got = []

    def parse(e, st, *a):
        got.append(st.pc)
        if fields is None:
            e.pend(st, TRUE, mk("exc", "SystemExit", const(2)))
        c = Cls("Namespace", sc.lab.program.modules[sc.lab.program.package + ".cli"], "Namespace", [], None)
        return e.alloc(st, Inst(c, dict(fields)))

    sc.e.method_overrides["parse_args"] = parse
    sc.e.method_overrides["parse_known_args"] = lambda e, st, *a: mk("tuple", parse(e, st), e.new_list(st, []))
    try:
        return sc.call(sc.name("cli", entry(sc.lab)))
    finally:
        sc.e.method_overrides.clear()


def entry(lab):
    s = pyproject(lab).get("project", {}).get("scripts", {})
    for v in s.values():
        mod, _, fn = v.partition(":")
        if mod == lab.program.package + ".cli":
            return fn
    return "_main"


def declared(lab):
    """Options per subcommand, and what each subcommand sets by default."""
    sc = lab.scene()
    run(sc)
    options, defaults = {}, {}
    for e in sc.e.effects:
        if e.name == ".add_argument":
            flags = [cval(a) for a in e.args[1:] if is_const(a)]
            if flags:
                options.setdefault(parser_of(e.args[0]), []).append(Option(flags, e.kw))
        elif e.name == ".add_parser":
            options.setdefault(cval(e.args[1]) if len(e.args) > 1 and is_const(e.args[1]) else "?", [])
        elif e.name == ".set_defaults":
            defaults.setdefault(parser_of(e.args[0]), {}).update(e.kw)
    return sc, options, defaults


def l04(lab):
    wm = lab.where("cli._main")
    state = {}

    def go():
        sc, options, defaults = declared(lab)
        state.update(options=options, defaults=defaults)
        lab.extra["subcommands"] = {str(k): [o.dest for o in v] for k, v in options.items()}
        if "plot" not in options:
            lab.undecided("subcommands", wm, "no subcommand declarations found")

    lab.attempt("declared options", wm, go)
    if "options" not in state or "plot" not in state["options"]:
        return
    wiring(lab, state["options"], state["defaults"], wm)
    scripts(lab, state["options"], wm)
    examples(lab, state["options"], state["defaults"], wm)
    plots(lab, state["options"], state["defaults"])
    defaults_exist(lab)


def wiring(lab, options, defaults, wm):
    """Declared options are read by the subcommand, and what it reads is declared."""
    w = world(lab)
    for sub, opts in options.items():
        if sub is None or sub == "?":
            continue
        f = defaults.get(sub, {}).get("func")
        lab.structural(f"{sub} runs a function", f is not None, wm, f"the subcommand {sub} sets no function: it does nothing")
        if f is None or f.op != "func":
            continue
        seen, work, reads, whole = set(), [(f.args[0].node, 0)], {}, False
        while work:
            node, i = work.pop()
            ps = [a.arg for a in node.args.posonlyargs + node.args.args]
            if (id(node), i) in seen or i >= len(ps):
                continue
            seen.add((id(node), i))
            me = ps[i]
            for n in ast.walk(node):
                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me:
                    reads.setdefault(n.attr, n)
                elif isinstance(n, ast.Call):
                    if isinstance(n.func, ast.Name) and n.func.id in ("getattr", "hasattr") and len(n.args) > 1 and isinstance(n.args[1], ast.Constant) and isinstance(n.args[0], ast.Name) and n.args[0].id == me:
                        reads.setdefault(n.args[1].value, n)
                        if n.func.id == "hasattr" or len(n.args) > 2:
                            reads[n.args[1].value] = None
                        continue
                    for k, a in enumerate(n.args):
                        if isinstance(a, ast.Name) and a.id == me:
                            ts = [t for t in w.type(n.func, w.nodescope.get(id(n))) if t[0] in ("func", "bound")] if id(n) in w.nodescope else []
                            if len(ts) == 1:
                                work.append((ts[0][1].node, k + (1 if ts[0][0] == "bound" and not ts[0][1].static else 0)))
                            else:
                                whole = True
                    if any(isinstance(k.value, ast.Name) and k.value.id == me for k in n.keywords):
                        whole = True
        where = lab.where(f"cli.{f.args[0].qualname}")
        names = {o.dest for o in opts} | set(defaults.get(sub, {})) | {o.dest for o in options.get(None, [])}
        for r, n in sorted(reads.items()):
            if n is not None:
                lab.structural(f"{sub}: {r} is declared", r in names, where, f"{f.args[0].qualname} reads args.{r}, which the subcommand {sub} does not declare")
        for o in opts:
            if o.text("action") in ("version", "help"):
                continue
            lab.structural(f"{sub}: {o.dest} is used", True if o.dest in reads or o.dest == "func" else (None if whole else False), where, f"the option {o.dest} of {sub} is declared but never read")


def scripts(lab, options, wm):
    s = pyproject(lab).get("project", {}).get("scripts", {})
    w = world(lab)
    for name, target in s.items():
        mod, _, fn = target.partition(":")
        ok = mod in w.modules and fn in w.modules[mod].names
        lab.structural(f"script {name}", ok, "pyproject.toml", f"the script {name} points to {target}, which does not exist")
    path = os.path.join(lab.root, "README.md")
    if not os.path.exists(path):
        return
    with open(path, encoding="utf-8") as fh:
        text = fh.read()
    for line in re.findall(r"^pygcd (.+)$", text, re.M):
        words = line.split()
        sub = words[0]
        lab.structural(f"README: pygcd {sub}", sub in options, "README.md", f"the documented subcommand {sub} is not declared")
        if sub not in options:
            continue
        flags = {f for o in options[sub] for f in o.flags}
        for x in words[1:]:
            if x.startswith("-"):
                lab.structural(f"README: pygcd {sub} {x}", any(f == x or f.startswith(x) and x.startswith("--") for f in flags), "README.md", f"the documented option {x} of {sub} is not declared")
            elif x.isidentifier():
                pos = [o for o in options[sub] if o.positional]
                for o in pos[:1]:
                    ch = choices(o)
                    if ch is not None:
                        lab.structural(f"README: pygcd {sub} {x}", x in ch, "README.md", f"the documented value {x} is not accepted by {sub}")


def choices(o):
    c = o.kw.get("choices")
    if c is None:
        return None
    if c.op == "tuple":
        return [cval(x) for x in c.args if is_const(x)]
    return getattr(o, "_choices", None)


def examples(lab, options, defaults, wm):
    """Every accepted example name runs an example, each its own."""
    for sub, opts in options.items():
        for o in opts:
            if "choices" not in o.kw or not o.positional:
                continue
            sc0, again, _ = declared(lab)
            o2 = next((x for x in again.get(sub, []) if x.dest == o.dest), None)
            c = o2.kw["choices"]
            vals = [cval(v) for _, v in sc0.items(c) if is_const(v)]
            o._choices = vals
            ran = {}
            where = lab.where(f"cli.{defaults[sub]['func'].args[0].qualname}") if defaults.get(sub, {}).get("func") is not None and defaults[sub]["func"].op == "func" else wm
            for v in vals:
                def go():
                    sc = lab.scene()
                    calls = []

                    def spy(e, st, f, a, k, n):
                        calls.append((st.pc, f.name))
                        return NONE

                    for m in lab.program.modules.values():
                        if ".examples." in m.name:
                            for n in m.tree.body:
                                if isinstance(n, ast.FunctionDef):
                                    sc.e.overrides[n.name] = spy
                    run(sc, {**{x.dest: x.absent() for x in opts}, o.dest: const(v), **defaults.get(sub, {})})
                    live = [n for pc, n in calls if pc is not FALSE]
                    ran[v] = live
                    lab.structural(f"{sub} {v} runs", len(live) == 1, where, f"the accepted value {v} of {sub} runs {len(live)} examples: {', '.join(live) or 'nothing'}")
                    if len(live) == 1:
                        lab.structural(f"{sub} {v} runs its own example", v in live[0] or not any(u in live[0] for u in vals), where, f"{sub} {v} runs {live[0]}")
                    sc.finish()

                lab.attempt(f"{sub} {v}", where, go)


class Plot:
    """One analysed run of the subcommand plot."""

    def __init__(self, lab, options, defaults, given, gcode_ok=True, presets_ok=True, found=1, answers=()):
        self.lab = lab
        sc = self.sc = lab.scene()
        self.sims, self.setups, self.outs, self.exits = [], [], [], []
        opts = {o.dest: o for o in options["plot"]}
        self.args = {d: (o.given(sc, d) if d in given else o.absent()) for d, o in opts.items()}
        self.files = [sc.e.symbol(f"found:{i}", "path") for i in range(found)]
        left = list(answers)

        def is_file(e, st, obj, args, kwargs, node, name="is_file"):
            for d, ok in (("gcode", gcode_ok), ("presets", presets_ok)):
                if obj is self.args.get(d):
                    return TRUE if ok else FALSE
            return TRUE

        def listing(e, st, obj, args, kwargs, node):
            return e.new_list(st, list(self.files))

        def ask(e, st, args, kwargs, node):
            if not left:
                e.pend(st, TRUE, mk("exc", "EOFError"))
            return const(left.pop(0))

        def leave(e, st, args, kwargs, node):
            e.pend(st, TRUE, mk("exc", "SystemExit", *args))

        sc.e.ext_overrides["input"] = sc.e.ext_overrides["builtins.input"] = ask
        for n in ("sys.exit", "exit", "quit", "builtins.exit", "builtins.quit"):
            sc.e.ext_overrides[n] = leave
        sc.e.ext_overrides["os._exit"] = leave
        for n in ("os.path.isfile", "os.path.exists"):
            sc.e.ext_overrides[n] = lambda e, st, a, k, n: is_file(e, st, a[0], [], {}, n)
        for n in ("glob.glob", "os.listdir"):
            sc.e.ext_overrides[n] = lambda e, st, a, k, n: listing(e, st, None, a, k, n)

        def is_parser(obj):
            return any(x.op == "call" and str(x.args[0]).split(".")[-1] in ("ArgumentParser", "add_parser") for x in [obj, *subterms(obj)])

        def refuse(e, st, obj, args, kwargs, node, name="error"):
            if is_parser(obj):
                e.pend(st, TRUE, mk("exc", "SystemExit", const(2) if name == "error" else (args[0] if args else kwargs.get("status", const(0)))))
            return NONE

        def new(kind, store):
            def f(e, st, c, args, kwargs, node):
                bound = {}
                init, _ = c.lookup("__init__")
                if init is not None and init.op == "func":
                    b, err = e.bind_args(st, init.args[0], [NONE] + list(args), kwargs, node)
                    if b is None:
                        return NotImplemented
                    bound = b
                v = e.symbol(f"{kind}:{len(store)}", "obj")
                store.append((st.pc, bound, v, len(e.effects)))
                return v
            return f

        sc.e.overrides["new:simulation"] = new("simulation", self.sims)
        sc.e.overrides["new:setup"] = new("setup", self.setups)

        def out(name, is_method):
            def f(e, st, *a):
                if is_method:
                    obj, args, kwargs, node = a
                else:
                    fn, args, kwargs, node = a
                    obj = None
                self.outs.append((st.pc, name, ([obj] if obj is not None else []) + list(args), dict(kwargs)))
                return e.symbol(f"result:{name}:{len(self.outs)}", "obj")
            return f

        methods = {n: out(n, True) for n in OUTPUTS}
        methods.update({"is_file": is_file, "exists": is_file, "glob": listing, "rglob": listing, "iterdir": listing,
                        "error": refuse, "exit": lambda e, st, o, a, k, n: refuse(e, st, o, a, k, n, "exit")})
        for n in OUTPUTS:
            sc.e.overrides[n] = out(n, False)

        def parse(e, st, *a):
            c = Cls("Namespace", lab.program.modules[lab.program.package + ".cli"], "Namespace", [], None)
            sc.e.method_overrides.update(methods)
            return e.alloc(st, Inst(c, {**self.args, **defaults.get("plot", {})}))

        sc.e.method_overrides["parse_args"] = parse
        self.start = len(sc.e.effects)
        self.result = sc.call(sc.name("cli", entry(lab)))
        self.ended = sc.dead
        self.raised = list(sc.raises())
        self.effects = [x for x in sc.e.effects[self.start:] if x.name in WRITES and x.pc is not FALSE and not (x.name == ".write" and x.args and x.args[0].op == "ext")]

    def live(self, store):
        return [x for x in store if x[0] is not FALSE]


def status(x):
    """Is the exit status of this exception non-zero?  None if unknown."""
    if x is None or x.op != "exc":
        return None
    if x.args[0] != "SystemExit":
        return True
    if len(x.args) < 2:
        return False
    a = x.args[1]
    if not is_const(a):
        return None if a.op not in ("fstr",) else True
    v = cval(a)
    if v is None or v == 0:
        return False
    return bool(int(v) & 0xFF) if isinstance(v, int) else True


def plots(lab, options, defaults):
    f = defaults.get("plot", {}).get("func")
    where = lab.where(f"cli.{f.args[0].qualname}") if f is not None and f.op == "func" else lab.where("cli._plot")
    bad = {
        "the G-code given is not a file": dict(given={"gcode", "out_dir"}, gcode_ok=False),
        "the G-code given is not a file, nothing else given": dict(given={"gcode"}, gcode_ok=False, answers=("y",)),
        "no G-code is given and none is found": dict(given={"out_dir"}, found=0),
        "no G-code is given and two are found": dict(given={"out_dir"}, found=2),
        "no G-code is given and three are found": dict(given={"out_dir", "presets", "printer_name"}, found=3),
        "the presets file given is not a file": dict(given={"gcode", "presets", "out_dir"}, presets_ok=False),
        "the presets file given is not a file and nothing is to be saved": dict(given={"gcode", "presets", "printer_name", "layer_cue"}, presets_ok=False, answers=("n",)),
        "the presets file given is not a file, found G-code": dict(given={"presets"}, presets_ok=False, answers=("yes",)),
    }
    for label, kw in bad.items():
        def go():
            r = Plot(lab, options, defaults, **kw)
            if not r.ended and not r.raised:
                lab.structural(f"{label}: the command fails", False, where, f"the command line ends normally although {label}")
            elif not r.ended:
                lab.undecided(f"{label}: the command fails", where, "may end normally")
            for cnd, pc, x in [y if len(y) == 3 else (y[0], y[0], y[-1]) for y in r.raised]:
                s = status(x if isinstance(x, T) else None)
                lab.structural(f"{label}: the exit status is not zero", s, where, f"the command line exits with {show(x)[:80] if isinstance(x, T) else x}, status zero, although {label}")
            lab.structural(f"{label}: nothing is simulated", not r.live(r.sims), where, f"a simulation is started although {label}")
            lab.structural(f"{label}: nothing is written", not [o for o in r.live(r.outs) if written(o)] and not r.effects, where, f"output is written although {label}")

        lab.attempt(label, where, go)

    good = {
        "everything given": dict(given={"gcode", "presets", "printer_name", "out_dir", "layer_cue"}),
        "only G-code and directory": dict(given={"gcode", "out_dir"}),
        "nothing given, one file found, declined": dict(given=set(), answers=("n",)),
        "nothing given, one file found, accepted": dict(given=set(), answers=("y",)),
        "declined with NO": dict(given={"gcode"}, answers=("maybe", "", "NO")),
        "declined with No after presets": dict(given={"gcode", "presets", "printer_name"}, answers=("No",)),
        "accepted with YES": dict(given={"gcode", "layer_cue"}, answers=("what", "YES")),
        "layer cue": dict(given={"gcode", "layer_cue"}, answers=("n",)),
        "printer": dict(given={"gcode", "printer_name", "out_dir"}),
        "presets and cue": dict(given={"gcode", "presets", "layer_cue", "out_dir"}),
    }
    for label, kw in good.items():
        def go():
            r = Plot(lab, options, defaults, **kw)
            sims, setups = r.live(r.sims), r.live(r.setups)
            if r.ended:
                xs = [y[-1] for y in r.raised if isinstance(y[-1], T)]
                lab.structural(f"{label}: the command completes", False if xs and not r.sc.e.notes else None, where, f"the command line fails with {', '.join(show(x)[:60] for x in xs)}")
                return
            lab.structural(f"{label}: one simulation", len(sims) == 1, where, f"{len(sims)} simulations are run")
            if len(sims) != 1:
                return
            b = sims[0][1]
            code = r.args["gcode"] if "gcode" in kw["given"] else (r.files[0] if r.files else None)
            used(lab, r, f"{label}: the G-code reaches the simulation", b.get("gcode_path"), code, where)
            st = b.get("initial_machine_setup")
            mine = [s for s in setups if s[2] is st]
            lab.structural(f"{label}: the setup reaches the simulation", bool(mine), where, "the simulation does not get the setup the command line made")
            if mine:
                s = mine[-1][1]
                for opt, par in (("presets", "presets_file"), ("printer_name", "printer"), ("layer_cue", "layer_cue")):
                    if opt in kw["given"]:
                        used(lab, r, f"{label}: {opt} reaches the setup", s.get(par), r.args[opt], where)
                    elif opt == "layer_cue":
                        lab.structural(f"{label}: no layer cue", s.get(par, NONE) is NONE, where, f"a layer cue {show(s.get(par, NONE))[:40]} is set although none was given")
            declined = "out_dir" not in kw["given"] and [a.lower() for a in kw.get("answers", ())][-1:] in (["n"], ["no"])
            wr = [o for o in r.live(r.outs) if written(o)]
            if declined:
                lab.structural(f"{label}: nothing is written", not wr and not r.effects, where, f"the user declined, but {', '.join([o[1] for o in wr] + [x.name for x in r.effects])} writes")
            else:
                kinds = {o[1] for o in wr}
                for need in ("save_summary", "save_layer_metrics", "plot_3d"):
                    lab.structural(f"{label}: {need} is saved", need in kinds, where, f"{need} is not saved although an output directory was requested")
                root = r.args.get("out_dir") if "out_dir" in kw["given"] else None
                for o in wr:
                    for p in paths_of(o):
                        if root is not None:
                            ok = root in [p, *subterms(p)]
                        else:
                            ok = any(isinstance(x, T) and "cwd" in [str(a) for a in x.args if isinstance(a, str)] or (x.op == "call" and "cwd" in str(x.args[0])) for x in [p, *subterms(p)]) or None
                        lab.structural(f"{label}: {o[1]} writes into the directory", ok, where, f"{o[1]} writes to {show(p)[:80]}, outside the directory")
            objs = [o for o in r.live(r.outs)]
            for o in objs:
                ok = any(x is sims[0][2] for x in list(o[2]) + list(o[3].values()))
                lab.structural(f"{label}: {o[1]} shows this simulation", ok, where, f"{o[1]} is not applied to the simulation of this run")

        lab.attempt(label, where, go)


def used(lab, r, name, got, want, where):
    if got is None or want is None:
        lab.undecided(name, where, "argument not visible")
        return
    ok = got is want or want in list(subterms(got))
    if not ok and not (is_const(got) or got.op == "sym") and (r.sc.e.notes or got.op not in ("call", "attr", "fstr")):
        ok = None
    lab.structural(name, ok, where, f"it is {show(got)[:60]}, not {show(want)[:40]}")


def paths_of(o):
    out = []
    for k, v in o[3].items():
        if ("path" in k or k in ("filename", "file")) and v is not NONE:
            out.append(v)
    if o[1] in ("save_summary",) and not out and len(o[2]) > 1:
        out.append(o[2][1])
    if o[1] in ("save_layer_metrics",) and not out and len(o[2]) > 1:
        out.append(o[2][1])
    return out


def written(o):
    """Does this output call write a file?"""
    if o[1] == "plot_3d":
        names = ("extrusion_only", "screenshot_path", "vtk_path", "mesh")
        vals = dict(zip(names, o[2][1:]))
        vals.update(o[3])
        return any(vals.get(k, NONE) is not NONE for k in ("screenshot_path", "vtk_path"))
    if o[1] == "plot_vel":
        return o[3].get("filepath", NONE) is not NONE
    return True


def defaults_exist(lab):
    """Printers used by default are defined by the presets they are looked up in."""
    w = world(lab)
    base = os.path.join(lab.root, lab.program.package)
    path = os.path.join(base, "data", "default_printer_presets.yaml")
    where = lab.where("cli._plot")
    if not os.path.exists(path):
        return
    with open(path, encoding="utf-8") as fh:
        names = set(re.findall(r"^([A-Za-z0-9_\-]+):", fh.read(), re.M))
    lab.extra["printers in the default presets"] = sorted(names)

    def go():
        sc, options, defaults = declared(lab)
        r = Plot(lab, options, defaults, given={"gcode"}, answers=("n",))
        for s in r.live(r.setups):
            p = s[1].get("printer")
            if p is not None and is_const(p):
                lab.structural("the default printer is in the default presets", cval(p) in names, where, f"the default printer {cval(p)} is not defined by the default presets")

    lab.attempt("default printer", where, go)
