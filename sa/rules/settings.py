"""S01-S03: machine setups."""
from fractions import Fraction

from .common import *  # noqa: F401,F403
from .common import EQ, IFF, ZERO, SETUP_KEYS, setup_with
from .queries import UNITS, item, ask, refused, motion, simulate, plain_settings
from ..engine import Dct, mul, div
from ..terms import mk, const, TRUE, FALSE, NONE, AND, OR, NOT, show, subterms, is_const, cval

REQUIRED = ["p_vel", "p_acc", "jerk", "vX", "vY", "vZ", "vE", "firmware"]
OPTIONAL = ["nozzle_diam", "filament_diam"]
GIVEN = ["X", "Y", "Z", "E", "printer_name"]  # always added by the setup


class Reach:
    """Under which condition the G-code is read."""

    def __init__(self, sc):
        self.sc, self.pc = sc, []

        def read(e, st, f, a, k, n):
            self.pc.append(st.pc)
            return e.new_list(st, [], "list")

        for name in ("generate_states", "read_gcode_to_dict_list"):
            sc.e.overrides[name] = read
        sc.e.ext_overrides["builtins.open"] = self.open
        for name, v in (("generate_planner_blocks", "list"), ("trajectory_self_correct", None), ("print_summary", None)):
            sc.e.overrides[name] = (lambda e, st, f, a, k, n: e.new_list(st, [], "list")) if v else (lambda e, st, f, a, k, n: NONE)

    def open(self, e, st, args, kwargs, node):
        p = args[0] if args else kwargs.get("file")
        if p is not None and any(is_const(x) and cval(x) == "part.gcode" for x in subterms(p)):
            self.pc.append(st.pc)
        return NotImplemented

    def cond(self):
        return OR(*self.pc)


def simulation(sc, **kw):
    r = Reach(sc)
    before = sc.st.copy()
    v = sc.call(sc.name("gcode_interpreter", "simulation"), const("part.gcode"), **kw)
    r.result = v
    for n in ("generate_states", "read_gcode_to_dict_list", "generate_planner_blocks", "trajectory_self_correct", "print_summary"):
        sc.e.overrides.pop(n, None)
    sc.e.ext_overrides.pop("builtins.open", None)
    r.before = before
    return r


def messages(sc):
    return [(pc, n, x) for pc, n, x in sc.raises()]


def accepted(sc, lab, name, where, r, want, assume=()):
    """The G-code is read exactly under `want`; everywhere else the simulation is refused with an error."""
    got = r.cond()
    if r.result is not None and sc.st.pc is not FALSE and got is FALSE and not r.pc:
        lab.undecided(name, where, "no reading of the G-code found")
        return
    if want is not FALSE:
        sc.prove(f"{name}: a valid one is accepted", cond=OR(NOT(want), got), where=where, assume=assume, pc=False)
    if want is not TRUE:
        sc.prove(f"{name}: an invalid one is refused before reading", cond=OR(want, NOT(got)), where=where, assume=assume, pc=False)
        end = sc.st.pc if not sc.dead else FALSE
        sc.prove(f"{name}: an invalid one never completes", cond=OR(want, NOT(end)), where=where, assume=assume, pc=False)


def preset(sc, keys, extra=(), present=None):
    """A presets dictionary with optionally present entries."""
    items = []
    for k, v in SETUP_KEYS:
        if k in keys:
            items.append((const(k), present.get(k, TRUE) if present else TRUE, const(v)))
    for k, g in extra:
        items.append((k if not isinstance(k, str) else const(k), g, const(1)))
    return sc.e.alloc(sc.st, Dct(items))


def setup_of(sc, printers, printer="my_printer", **kw):
    """A setup whose presets file holds the given printers."""
    def load(e, st, f, a, k, n):
        return e.new_dict(st, [(const(n) if isinstance(n, str) else n, p) for n, p in printers])

    sc.e.overrides["load_setup"] = load
    args = [const("presets.yaml")]
    if printer is not None:
        args.append(const(printer) if isinstance(printer, str) else printer)
    r = sc.call(sc.name("gcode_interpreter", "setup"), *args, **{k: (const(v) if isinstance(v, str) else v) for k, v in kw.items()})
    sc.e.overrides.pop("load_setup", None)
    return r


ALLKEYS = [k for k, _ in SETUP_KEYS]


def s01(lab):
    w = lab.where("gcode_interpreter.simulation.__init__")
    wc = lab.where("gcode_interpreter.simulation.check_initial_setup")
    wp = lab.where("gcode_interpreter.setup.select_printer")

    def presence(group):
        # entries set or removed after the printer was selected, so the setup itself always knows its firmware
        sc = lab.scene(normalize=True)
        has = {k: sc.sym(f"has {k}", "bool") for k in group}
        p = preset(sc, ALLKEYS)
        stp = setup_of(sc, [("my_printer", p)])
        o = sc.obj(p)
        sc.st.put(p.args[0], Dct([(k, has.get(cval(k), g), v) for k, g, v in o.items], None, o.kind))
        r = simulation(sc, initial_machine_setup=stp)
        accepted(sc, lab, "setup with entries " + ", ".join(group) + " given or not", wc, r, AND(*[has[k] for k in group if k in REQUIRED]))

    for k in REQUIRED:
        lab.attempt(f"without {k}", wc, lambda: presence([k]))
    for g in (OPTIONAL, ["p_acc", "nozzle_diam"], ["vE", "firmware", "jerk"]):
        lab.attempt(f"presence {g}", wc, lambda: presence(g))

    def position(key):
        # an entry of the initial position that is missing
        sc = lab.scene(normalize=True)
        stp = setup_of(sc, [("my_printer", preset(sc, ALLKEYS))])
        has = sc.sym(f"has {key}", "bool")
        d = ask(sc, stp, "get_dict")
        items = [(k, has if cval(k) == key else g, v) for k, g, v in sc.obj(d).items]
        sc.e.overrides["get_dict"] = lambda e, st, f, a, k, n: e.alloc(st, Dct(list(items)))
        r = simulation(sc, initial_machine_setup=stp)
        sc.e.overrides.pop("get_dict", None)
        accepted(sc, lab, f"setup with {key} given or not", wc, r, has)

    for key in GIVEN:
        lab.attempt(f"without {key}", wc, lambda: position(key))

    def cue():
        sc = lab.scene(normalize=True)
        c = sc.sym("cue", "str")
        stp = setup_of(sc, [("my_printer", preset(sc, ALLKEYS))], layer_cue=c)
        r = simulation(sc, initial_machine_setup=stp)
        accepted(sc, lab, "setup with a layer cue", wc, r, TRUE)

    lab.attempt("layer cue", wc, cue)

    def unknown(key):
        sc = lab.scene(normalize=True)
        has = sc.sym("has it", "bool")
        stp = setup_of(sc, [("my_printer", preset(sc, ALLKEYS, [(key, has)]))])
        r = simulation(sc, initial_machine_setup=stp)
        accepted(sc, lab, f"setup with the unknown entry {key!r} or not", wc, r, NOT(has))

    for key in ("p_velocity", "P_VEL", "x", "Firmware", "vx", "layer-cue", "nozzle", "filament", "acc", " jerk", "printer", "_X"):
        lab.attempt(f"unknown {key}", wc, lambda: unknown(key))

    def both(known):
        sc = lab.scene(normalize=True, strings={None: ["my_printer", "other", "", "My_Printer"]})
        name = sc.sym("machine_name", "str")
        stp = setup_of(sc, [("my_printer", preset(sc, ALLKEYS)), ("other", preset(sc, ALLKEYS))])
        r = simulation(sc, initial_machine_setup=stp, machine_name=name)
        accepted(sc, lab, "setup and machine name", w, r, EQ(name, const("my_printer")))

    lab.attempt("setup and name", w, lambda: both(True))

    def none():
        sc = lab.scene(normalize=True)
        r = simulation(sc)
        accepted(sc, lab, "neither setup nor machine name", w, r, FALSE)
        names = {n for pc, n, x in sc.raises()}
        lab.structural("neither setup nor machine name: refused with a ValueError", True if names == {"ValueError"} else None, w, f"{sorted(names)}")

    lab.attempt("neither", w, none)

    def alone():
        sc = lab.scene(normalize=True, strings={None: ["my_printer", "other", "third", ""]})
        p = [(n, preset(sc, ALLKEYS)) for n in ("my_printer", "other")]
        sc.e.overrides["load_setup"] = lambda e, st, f, a, k, n: e.new_dict(st, [(const(n), q) for n, q in p])
        name = sc.sym("machine_name", "str")
        r = simulation(sc, machine_name=name)
        sc.e.overrides.pop("load_setup", None)
        accepted(sc, lab, "machine name only", w, r, OR(EQ(name, const("my_printer")), EQ(name, const("other"))))

    lab.attempt("name only", w, alone)

    def unit():
        sc = lab.scene(normalize=True, strings={None: ["SI", "SImm", "inch", "mm", "", "si", "SImm "]})
        u = sc.sym("unit", "str")
        stp = setup_of(sc, [("my_printer", preset(sc, ALLKEYS))])
        r = simulation(sc, initial_machine_setup=stp, output_unit_system=u)
        accepted(sc, lab, "output unit system", w, r, OR(*[EQ(u, const(x)) for x in UNITS]))

    lab.attempt("unit", w, unit)

    def printer():
        for how in ("constructor", "select_printer"):
            sc = lab.scene(normalize=True, strings={None: ["my_printer", "other", "third", "", "My_printer"]})
            name = sc.sym("printer name", "str")
            ps = [("my_printer", preset(sc, ALLKEYS)), ("other", preset(sc, ALLKEYS))]
            if how == "constructor":
                stp = setup_of(sc, ps, name)
            else:
                stp = setup_of(sc, ps, None)
                ask(sc, stp, "select_printer", name)
            known = OR(EQ(name, const("my_printer")), EQ(name, const("other")))
            end = sc.st.pc if not sc.dead else FALSE
            sc.prove(f"{how}: a printer of the presets file is accepted", cond=OR(NOT(known), end), where=wp, pc=False)
            sc.prove(f"{how}: a printer missing from the presets file is refused", cond=OR(known, NOT(end)), where=wp, pc=False)
            for pc, n, x in sc.raises():
                says = x is not None and any(y is name for y in subterms(x))
                if not says:
                    sc.prove(f"{how}: the error names the printer", cond=NOT(pc), where=wp, pc=False, what=f"{how}: the error for a missing printer does not name it")
                else:
                    lab.structural(f"{how}: the error names the printer", True, wp)

    lab.attempt("printer", wp, printer)


# ------------------------------------------------------------------ S02
def snapshot(sc, ref, seen=None):
    """Content of an object as a nested structure of terms."""
    from ..engine import Inst, Lst

    ref = sc.e.simp_value(ref, sc.st.pc)
    seen = seen if seen is not None else {}
    if ref.op == "ite":
        return ("ite", ref.args[0], snapshot(sc, ref.args[1], seen), snapshot(sc, ref.args[2], seen))
    if ref.op == "tuple":
        return ("tuple",) + tuple(snapshot(sc, x, seen) for x in ref.args)
    if ref.op != "ref":
        return ref
    if ref in seen:
        return ("seen", seen[ref])
    seen[ref] = len(seen)
    o = sc.obj(ref)
    if isinstance(o, Lst):
        return (o.kind,) + tuple((g, snapshot(sc, v, seen)) for g, v in o.items)
    if isinstance(o, Dct):
        return ("dict",) + tuple(sorted(((k, g, snapshot(sc, v, seen)) for k, g, v in o.items), key=lambda x: (str(x[0].args[:1]), x[0].id)))
    return ("inst", o.cls.name) + tuple(sorted((k, snapshot(sc, v, seen)) for k, v in o.fields.items()))


def entry(sc, d, k):
    """(presence condition, value) of an entry."""
    p = sc._run(sc.e.contains, d, const(k), None)
    p = sc.e.truth(p, sc.st) if p is not None else None
    s2 = sc.fork()
    v = None
    if p is not FALSE:
        s2.st.pc = AND(s2.st.pc, p)
        v = s2._run(s2.e.getitem, d, const(k), None)
    return p, v


def compare(sc, lab, name, where, d, want, absent=()):
    for k, v in want.items():
        p, x = entry(sc, d, k)
        if p is None:
            lab.undecided(f"{name}: {k}", where, "not derivable")
            continue
        if p is not TRUE:
            if sc.prove(f"{name}: contains {k}", cond=p, where=where) is not True:
                continue
        if x is None:
            lab.undecided(f"{name}: {k}", where, "not derivable")
            continue
        sc.prove(f"{name}: {k}", eq=(x, v), where=where)
    for k in absent:
        p, x = entry(sc, d, k)
        sc.prove(f"{name}: no {k}", cond=NOT(p) if p is not None else TRUE, where=where)


def s02(lab):
    w = lab.where("gcode_interpreter.setup.get_dict")
    wp = lab.where("gcode_interpreter.setup.set_property")
    ws = lab.where("gcode_interpreter.simulation.__init__")

    def scene(cue=None, printers=("my_printer", "other"), printer="my_printer"):
        sc = lab.scene(normalize=True)
        vals = {n: {k: (sc.sym(f"{n} {k}", "str" if k == "firmware" else "real")) for k in ALLKEYS} for n in printers}
        ps = [(n, sc.dict([(const(k), v) for k, v in vals[n].items()])) for n in printers]
        stp = setup_of(sc, ps, printer, **({} if cue is None else {"layer_cue": cue}))
        return sc, stp, vals

    def full(vals, pos=(0, 0, 0, 0), **kw):
        d = dict(vals["my_printer"])
        d.update({a: (x if not isinstance(x, int) else const(x)) for a, x in zip("XYZE", pos)})
        d["printer_name"] = const("my_printer")
        d.update(kw)
        return d

    def content():
        for cue in (None, "LAYER"):
            sc, stp, vals = scene(cue)
            d = ask(sc, stp, "get_dict")
            nm = "with a layer cue" if cue else "without a layer cue"
            compare(sc, lab, f"settings read {nm}", w, d, full(vals, **({"layer_cue": const(cue)} if cue else {})), () if cue else ("layer_cue",))
            keys = {cval(k) for k, g, v in sc.obj(d).items if g is not FALSE and is_const(k)}
            extra = keys - set(full(vals)) - ({"layer_cue"} if cue else set())
            lab.structural(f"settings read {nm}: nothing else", not extra, w, f"unexpected entries {sorted(extra)}")
            sc.no_raise(f"settings read {nm}: no failure", w)

    lab.attempt("content", w, content)

    def properties():
        sc, stp, vals = scene()
        a, b = sc.sym("new acc"), sc.sym("new jerk")
        prop = sc.dict([(const("p_acc"), a), (const("jerk"), b)])
        ask(sc, stp, "set_property", prop)
        d = ask(sc, stp, "get_dict")
        compare(sc, lab, "after set_property", wp, d, full(vals, p_acc=a, jerk=b))
        sc._run(sc.e.setitem, prop, const("p_acc"), const(99), None)
        compare(sc, lab, "the property dictionary is changed afterwards", wp, ask(sc, stp, "get_dict"), full(vals, p_acc=a, jerk=b))
        ask(sc, stp, "set_property", sc.dict([(const("layer_cue"), const("LC"))]))
        compare(sc, lab, "cue set as a property", wp, ask(sc, stp, "get_dict"), full(vals, p_acc=a, jerk=b, layer_cue=const("LC")))
        ask(sc, stp, "select_printer", const("other"))
        o = dict(vals["other"], printer_name=const("other"), X=ZERO, Y=ZERO, Z=ZERO, E=ZERO)
        compare(sc, lab, "other printer: its own presets", wp, ask(sc, stp, "get_dict"), o, ("layer_cue",))
        ask(sc, stp, "select_printer", const("my_printer"))
        compare(sc, lab, "back to the first printer", wp, ask(sc, stp, "get_dict"), full(vals, p_acc=a, jerk=b, layer_cue=const("LC")))
        sc.no_raise("properties: no failure", wp)

    lab.attempt("properties", wp, properties)

    def unselected():
        sc, stp, vals = scene(printer=None)
        r = ask(sc, stp, "set_property", sc.dict([(const("p_acc"), const(1))]))
        refused(sc, lab, "a property without a printer is refused", wp, r, ("ValueError",))

    lab.attempt("no printer", wp, unselected)

    def unchanged():
        for cue in (None, "LAYER"):
            sc, stp, vals = scene(cue)
            x = sc.syms("x y z e")
            ask(sc, stp, "set_initial_position", mk("tuple", *x))
            before = snapshot(sc, stp)
            d = ask(sc, stp, "get_dict")
            same = snapshot(sc, stp) == before
            lab.structural(f"reading the settings leaves the setup as it is{' (cue)' if cue else ''}", same, w, "get_dict changes the setup")
            # the result is independent of the setup in both directions
            first = full(vals, x, **({"layer_cue": const(cue)} if cue else {}))
            ask(sc, stp, "set_property", sc.dict([(const("p_acc"), const(7)), (const("firmware"), const("MKA"))]))
            ask(sc, stp, "set_initial_position", mk("tuple", const(9), const(9), const(9), const(9)))
            sc.set(stp, "layer_cue", const("NEW"))
            compare(sc, lab, f"settings read earlier{' (cue)' if cue else ''}", w, d, first, () if cue else ("layer_cue",))
            ask(sc, stp, "select_printer", const("other"))
            compare(sc, lab, f"settings read earlier, other printer{' (cue)' if cue else ''}", w, d, first, () if cue else ("layer_cue",))
            ask(sc, stp, "select_printer", const("my_printer"))
            for k in ("p_vel", "X", "printer_name", "jerk"):
                sc._run(sc.e.setitem, d, const(k), const(-5), None)
            now = full(vals, [const(9)] * 4, p_acc=const(7), firmware=const("MKA"), layer_cue=const("NEW"))
            compare(sc, lab, f"changing the settings read{' (cue)' if cue else ''}: setup", w, ask(sc, stp, "get_dict"), now)
            sc.no_raise("independence: no failure", w)

    lab.attempt("independence", w, unchanged)

    def two():
        sc, a, vals = scene()
        ps = [(n, sc.dict([(const(k), v) for k, v in vals[n].items()])) for n in vals]
        b = setup_of(sc, ps)
        x = sc.syms("x y z e")
        ask(sc, a, "set_initial_position", sc.dict([(const(k), v) for k, v in zip("XYZE", x)]))
        compare(sc, lab, "another setup keeps its initial position", w, ask(sc, b, "get_dict"), full(vals))
        compare(sc, lab, "the setup has its initial position", w, ask(sc, a, "get_dict"), full(vals, x))
        c = setup_of(sc, ps)
        compare(sc, lab, "a later setup starts with the default position", w, ask(sc, c, "get_dict"), full(vals))

    lab.attempt("two setups", w, two)

    def sim():
        for what in ("property", "position", "cue"):
            sc, stp, vals = scene("LAYER")
            for n in ("generate_planner_blocks", "generate_states"):
                sc.e.overrides[n] = lambda e, st, f, a, k, n: e.new_list(st, [], "list")
            for n in ("trajectory_self_correct", "print_summary"):
                sc.e.overrides[n] = lambda e, st, f, a, k, n: NONE
            s = sc.call(sc.name("gcode_interpreter", "simulation"), const("part.gcode"), initial_machine_setup=stp)
            want = full(vals, layer_cue=const("LAYER"))
            compare(sc, lab, f"simulation ({what}): its settings", ws, sc.get(s, "initial_machine_setup"), want)
            if what == "property":
                ask(sc, stp, "set_property", sc.dict([(const("p_acc"), const(7)), (const("firmware"), const("MKA"))]))
            elif what == "position":
                ask(sc, stp, "set_initial_position", mk("tuple", const(9), const(9), const(9), const(9)))
            else:
                sc.set(stp, "layer_cue", const("NEW"))
                ask(sc, stp, "select_printer", const("other"))
            compare(sc, lab, f"simulation ({what} of the setup changed later): its settings", ws, sc.get(s, "initial_machine_setup"), want)
            seen = []

            def gen(e, st, f, a, k, n):
                seen.append(k.get("firmware", a[1] if len(a) > 1 else NONE))
                return e.new_list(st, [], "list")

            sc.e.overrides["generate_planner_blocks"] = gen
            ask(sc, s, "refresh")
            if seen:
                sc.prove(f"simulation ({what} of the setup changed later): firmware when refreshed", eq=(seen[-1], vals["my_printer"]["firmware"]), where=ws)

    lab.attempt("simulation", ws, sim)


# ------------------------------------------------------------------ S03
def s03(lab):
    w = lab.where("gcode_interpreter.setup.set_initial_position")

    def scene(default=None):
        sc = lab.scene(normalize=True)
        stp = setup_of(sc, [("my_printer", preset(sc, ALLKEYS))])
        return sc, stp

    FORMS = {
        "tuple": lambda sc, x: mk("tuple", *x),
        "dictionary": lambda sc, x: sc.dict([(const(k), v) for k, v in zip("XYZE", x)]),
        "dictionary in another order": lambda sc, x: sc.dict([(const(k), x["XYZE".index(k)]) for k in "EZXY"]),
    }
    INTO = {u: 1 / f for u, f in UNITS.items()}

    def given(form, unit):
        def go():
            sc, stp = scene()
            x = sc.syms("x y z e")
            arg = FORMS[form](sc, x)
            before = snapshot(sc, arg)
            kw = {} if unit is None else {"input_unit_system": const(unit)}
            ask(sc, stp, "set_initial_position", arg, **kw)
            d = ask(sc, stp, "get_dict")
            nm = f"{form}, {unit or 'default unit'}"
            for i, a in enumerate("XYZE"):
                p, v = entry(sc, d, a)
                sc.prove(f"{nm}: {a}", eq=(v, mul(const(INTO[unit or 'SImm']), x[i])), where=w)
            lab.structural(f"{nm}: the given position is not changed", snapshot(sc, arg) == before, w, "set_initial_position changes its argument")
            sc.no_raise(f"{nm}: no failure", w)
            # a second call replaces the position
            y = sc.syms("x2 y2 z2 e2")
            ask(sc, stp, "set_initial_position", FORMS[form](sc, y))
            d2 = ask(sc, stp, "get_dict")
            for i, a in enumerate("XYZE"):
                sc.prove(f"{nm}, set again: {a}", eq=(entry(sc, d2, a)[1], y[i]), where=w)
                sc.prove(f"{nm}: {a} read before setting again", eq=(entry(sc, d, a)[1], mul(const(INTO[unit or 'SImm']), x[i])), where=w)

        lab.attempt(f"{form} {unit}", w, go)

    for form in FORMS:
        for unit in (None, "SI", "SImm", "inch"):
            given(form, unit)

    def default():
        sc, stp = scene()
        d = ask(sc, stp, "get_dict")
        for a in "XYZE":
            sc.prove(f"default position {a}", eq=(entry(sc, d, a)[1], ZERO), where=w)

    lab.attempt("default", w, default)

    def mode(unit):
        sc, stp = scene()
        sc.set(stp, "input_unit_system", const(unit))
        x = sc.syms("x y z e")
        ask(sc, stp, "set_initial_position", mk("tuple", *x))
        d = ask(sc, stp, "get_dict")
        for i, a in enumerate("XYZE"):
            sc.prove(f"unit of the setup {unit}: {a}", eq=(entry(sc, d, a)[1], mul(const(INTO[unit]), x[i])), where=w)

    for u in UNITS:
        lab.attempt(f"setup unit {u}", w, lambda: mode(u))

    bad = {
        "three numbers": lambda sc: mk("tuple", *sc.syms("x y z")),
        "five numbers": lambda sc: mk("tuple", *sc.syms("x y z e f")),
        "no numbers": lambda sc: mk("tuple"),
        "a list": lambda sc: sc.list(sc.syms("x y z e")),
        "a dictionary without E": lambda sc: sc.dict([(const(k), sc.sym(k)) for k in "XYZ"]),
        "a dictionary without X": lambda sc: sc.dict([(const(k), sc.sym(k)) for k in "YZE"]),
        "lower case keys": lambda sc: sc.dict([(const(k), sc.sym(k)) for k in "xyze"]),
        "an empty dictionary": lambda sc: sc.dict([]),
        "a number": lambda sc: sc.sym("n"),
        "nothing": lambda sc: NONE,
        "a text": lambda sc: const("XYZE"),
        "a list of three": lambda sc: sc.list(sc.syms("x y z")),
    }

    def wrong(name):
        sc, stp = scene()
        r = ask(sc, stp, "set_initial_position", bad[name](sc))
        refused(sc, lab, f"{name} is refused", w, r, ("ValueError", "TypeError"))

    for name in bad:
        lab.attempt(name, w, lambda: wrong(name))

    def unknown_unit():
        sc, stp = scene()
        r = ask(sc, stp, "set_initial_position", mk("tuple", *sc.syms("x y z e")), input_unit_system=const("furlong"))
        refused(sc, lab, "an unknown unit is refused", w, r, ("ValueError", "KeyError"))

    lab.attempt("unknown unit", w, unknown_unit)
