"""I01-I07, P02, P03: from parsed lines to states.

A history of lines (each with its commands and arguments optionally present, all values symbolic) is given to the state
generator; the value graph of every produced state is compared with a reference semantics written from the property.
"""
from fractions import Fraction

from .common import EQ, IFF, ZERO
from ..engine import Dct, Lst, add, sub, mul, div
from ..terms import mk, const, sym, TRUE, FALSE, NONE, AND, OR, NOT, ITE, show, subterms

AXES = "XYZE"


def earlier_line(e, st, src, lid):
    """An element of an unknown list of parsed lines: every command and argument may be there."""
    items = []
    n = f"earlier{lid}"
    for c, names in (("G0", "XYZEF"), ("G1", "XYZEF"), ("G92", "XYZE"), ("M203", "XYZE"), ("M204", "PRST"), ("M205", "EJSXYZ"), ("G4", "PS"), ("G28", "XYZ")):
        v = e.alloc(st, Dct([(const(a), e.symbol(f"{n} has {c} {a}", "bool"), e.symbol(f"{n} {c} {a}", "real")) for a in names]))
        items.append((const(c), e.symbol(f"{n} has {c}", "bool"), v))
    for c in ("G90", "G91", "M82", "M83", "G20", "G21"):
        items.append((const(c), e.symbol(f"{n} has {c}", "bool"), const("")))
    items.append((const(";"), e.symbol(f"{n} has comment", "bool"), e.symbol(f"{n} comment", "str")))
    items.append((const("line_number"), TRUE, e.symbol(f"{n} number", "int")))
    return e.alloc(st, Dct(items))


INCH = const(Fraction(254, 10))
DEFAULTS = dict(p_vel=35, p_acc=200, jerk=10, vX=180, vY=180, vZ=30, vE=33, X=0, Y=0, Z=0, E=0)
SETTING = dict(p_vel="speed", p_acc="p_acc", jerk="jerk", vX="vX", vY="vY", vZ="vZ", vE="vE")


class Line:
    """One line: {command: (present, {argument: (present, value)} or None)}, comment (present, text)."""

    def __init__(self, cmds=None, comment=None, number=None):
        self.cmds, self.comment, self.number = cmds or {}, comment, number


class Ref:
    """Reference semantics."""

    def __init__(self, setup):
        self.coord = {a: setup[a] for a in AXES}
        self.off = {a: ZERO for a in AXES}
        self.abs, self.eabs, self.inch = TRUE, TRUE, FALSE
        self.set = {k: setup[k] for k in SETTING}
        self.layer = ZERO
        self.pause = NONE

    def pos(self):
        return [add(self.coord[a], self.off[a]) for a in AXES]

    def unit(self, v):
        return ITE(self.inch, mul(v, INCH), v)

    def line(self, ln, cue=None, eq=None):
        on = lambda c: ln.cmds.get(c, (FALSE, None))[0]  # noqa: E731
        self.abs = ITE(on("G91"), FALSE, ITE(on("G90"), TRUE, self.abs))
        self.eabs = ITE(on("M83"), FALSE, ITE(on("M82"), TRUE, self.eabs))
        self.inch = ITE(on("G21"), FALSE, ITE(on("G20"), TRUE, self.inch))
        for c in ("G0", "G1"):
            if c in ln.cmds:
                p, args = ln.cmds[c]
                for a in AXES:
                    if a in args:
                        g, v = args[a]
                        g, v = AND(p, g), self.unit(v)
                        mode = self.eabs if a == "E" else self.abs
                        self.coord[a] = ITE(g, ITE(mode, v, add(self.coord[a], v)), self.coord[a])
                if "F" in args:
                    g, v = args["F"]
                    self.set["p_vel"] = ITE(AND(p, g), div(self.unit(v), const(60)), self.set["p_vel"])
        if "G92" in ln.cmds:
            p, args = ln.cmds["G92"]
            for a in args:
                g, v = args[a]
                g, v = AND(p, g), self.unit(v)
                phys = add(self.coord[a], self.off[a])
                self.off[a] = ITE(g, sub(phys, v), self.off[a])
                self.coord[a] = ITE(g, v, self.coord[a])

        def setting(cmd, arg, key):
            if cmd in ln.cmds and arg in (ln.cmds[cmd][1] or {}):
                p, args = ln.cmds[cmd]
                g, v = args[arg]
                self.set[key] = ITE(AND(p, g), self.unit(v), self.set[key])

        setting("M204", "P", "p_acc")
        setting("M205", "X", "jerk")
        for a in AXES:
            setting("M203", a, "v" + a)
        self.pause = NONE
        if "G4" in ln.cmds:
            p, args = ln.cmds["G4"]
            if "P" in args:
                self.pause = ITE(AND(p, args["P"][0]), div(args["P"][1], const(1000)), self.pause)
            if "S" in args:
                self.pause = ITE(AND(p, args["S"][0]), args["S"][1], self.pause)


class Run:
    """Interpretation of a history by the source and by the reference."""

    def __init__(self, lab, build, cue=None, setup=None, drop=(), prefix=False, strings=None, pools=None):
        sc = self.sc = lab.scene(normalize=True, strings=strings, pools=pools)
        self.lab = lab
        setup = setup(sc) if setup else {k: sc.sym("s_" + k, "nonneg" if k in SETTING else "real") for k in DEFAULTS}
        self.setup = setup
        pairs = [(k, v) for k, v in setup.items() if k not in drop]
        pairs += [("firmware", const("klipper")), ("printer_name", const("printer")), ("nozzle_diam", const(Fraction(4, 10))), ("filament_diam", const(Fraction(7, 4)))]
        if cue is not None:
            pairs.append(("layer_cue", cue))
        self.lines = build(sc)
        dicts = []
        if prefix:
            src = sym("earlier lines")
            dicts.append(mk("splat", src))
            sc.e.kinds[("elem", src)] = earlier_line
        for i, ln in enumerate(self.lines):
            items = []
            for c, (g, args) in ln.cmds.items():
                if args is None:
                    v = const("") if c != ";" else ln.comment
                else:
                    v = sc.e.alloc(sc.st, Dct([(const(a), ag, av) for a, (ag, av) in args.items()]))
                if g is not FALSE:
                    items.append((const(c), g, v))
            if ln.comment is not None:
                items.append((const(";"), ln.comment[0], ln.comment[1]))
            if ln.number is None:
                ln.number = const(i + 1)
            items.append((const("line_number"), TRUE, ln.number))
            dicts.append(sc.e.alloc(sc.st, Dct(items)))
        self.arg = sc.e.alloc(sc.st, Lst([(TRUE, d) for d in dicts]))
        f = sc.name("state_generator", "dict_list_traveler")
        self.out = sc.call(f, self.arg, sc.dict(pairs))
        self.ok = self.out is not None and not sc.dead
        self.states = [v for g, v in sc.items(self.out)] if self.ok else []
        self.exact = self.ok and all(g is TRUE and v.op != "splat" for g, v in sc.items(self.out))

    def pos(self, s):
        return self.sc.vec(self.sc.get(s, "state_position"))

    def setting(self, s, k):
        return self.sc.get(self.sc.get(s, "state_p_settings"), SETTING[k])


def opt(sc, name, kind="real"):
    """An optional argument: its presence and its value."""
    return (sc.sym("has " + name, "bool"), sc.sym(name, kind))


def yes(sc, name, kind="real"):
    return (TRUE, sc.sym(name, kind))


def args(sc, i, names, how=opt, kind="real"):
    return {a: how(sc, f"{a}{i}", kind) for a in names}


W = "state_generator.dict_list_traveler"


def compare(lab, name, run, what=("pos", "set"), from_state=0):
    """Every state's position and settings against the reference."""
    where = lab.where(W)
    if not run.ok or not run.exact or len(run.states) != len(run.lines) + 1:
        if run.ok and run.exact:
            lab.structural(f"{name}: one state per line", False, where, f"{len(run.states)} states for {len(run.lines)} lines")
        else:
            lab.undecided(name, where, "states not derivable: " + "; ".join(run.sc.e.notes[:3]))
        return
    ref = Ref(run.setup)
    sc = run.sc
    for i, s in enumerate(run.states):
        if i:
            ref.line(run.lines[i - 1])
        if i < from_state:
            continue
        tag = f"{name}: line {i}" if i else f"{name}: initial state"
        if "pos" in what:
            got = run.pos(s)
            for k, a in enumerate(AXES):
                sc.prove(f"{tag} position {a}", eq=(got[k], ref.pos()[k]), where=where)
        if "set" in what:
            for k in SETTING:
                sc.prove(f"{tag} setting {k}", eq=(run.setting(s, k), ref.set[k]), where=where)
        if "units" in what:
            sc.prove(f"{tag} unit", eq=(sc.get(sc.get(s, "state_p_settings"), "units"), ITE(ref.inch, const("inch"), const("SImm"))), where=where)
        if "pause" in what:
            sc.prove(f"{tag} pause", eq=(sc.get(s, "pause"), ref.pause if i else NONE), where=where)
    sc.no_raise(f"{name}: no failure", where)


MODES = {"": {}, "G90": {"G90": (TRUE, None)}, "G91": {"G91": (TRUE, None)}, "M82": {"M82": (TRUE, None)}, "M83": {"M83": (TRUE, None)}}


def mv(sc, i, cmd="G1", names="XYZE", how=opt, extra=None):
    d = {cmd: (TRUE, args(sc, i, names, how))}
    d.update(extra or {})
    return Line(d)


def anyline(sc, i):
    """A line of any supported content."""
    b = lambda c: (sc.sym(f"{c} on line {i}", "bool"), None)  # noqa: E731
    d = {c: b(c) for c in ("G90", "M83")}
    d["G1"] = (sc.sym(f"G1 on line {i}", "bool"), args(sc, f"p{i}", "XYZE"))
    d["G92"] = (sc.sym(f"G92 on line {i}", "bool"), args(sc, f"q{i}", "XYZE"))
    return Line(d)


def i01(lab):
    where = lab.where(W)
    any_history(lab, "relative moves", lambda sc: [mv(sc, 1, extra=REL), mv(sc, 2, "G0"), Line({"M204": (TRUE, args(sc, 0, "P"))}), mv(sc, 3)])
    any_history(lab, "only extrusion relative", lambda sc: [mv(sc, 1, names="E", extra={"M83": (TRUE, None)}), mv(sc, 2, "G0", names="E")])
    any_history(lab, "only axes relative", lambda sc: [mv(sc, 1, names="XYZ", extra={"G91": (TRUE, None)}), mv(sc, 2, "G0", names="XYZ")])
    for m1 in MODES:
        for m2 in MODES:
            for cmd in ("G0", "G1"):
                def go():
                    # mode, move, mode, move; the second mode change stands on the line of its move or before it
                    r = Run(lab, lambda sc: [Line(dict(MODES[m1])), mv(sc, 1, cmd), Line(dict(MODES[m2])), mv(sc, 2, "G1" if cmd == "G0" else "G0")])
                    compare(lab, f"{m1 or 'default'}, {cmd}, {m2 or '-'}, move", r, ("pos",), 2)
                    if m2 and cmd == "G1":
                        r = Run(lab, lambda sc: [Line(dict(MODES[m1])), mv(sc, 1, cmd), mv(sc, 2, cmd, extra=MODES[m2])])
                        compare(lab, f"{m1 or 'default'}, {cmd}, {m2} on the line of the move", r, ("pos",), 3)

                lab.attempt(f"{m1 or 'default'} {m2} {cmd}", where, go)
    for m in [x for x in MODES if x]:
        # a mode stays in force over lines of other content, and ends with a change of the other kind only for its own axes
        def hold():
            r = Run(lab, lambda sc: [Line({**MODES[m]}), Line({"M204": (TRUE, args(sc, 0, "PST"))}), Line({"G92": (TRUE, args(sc, 1, "XE"))}), Line({}), Line({"G28": (TRUE, {}), "G4": (TRUE, args(sc, 2, "PS"))}), mv(sc, 3)])
            compare(lab, f"{m} stays in force", r, ("pos",), 5)

        lab.attempt(f"{m} stays", where, hold)
    for kind, extra in (("absolute", {"G90": (TRUE, None), "M82": (TRUE, None)}), ("relative", {"G91": (TRUE, None), "M83": (TRUE, None)})):
        def anywhere():
            r = Run(lab, lambda sc: [anyline(sc, 1), anyline(sc, 2), mv(sc, 3, extra=extra)])
            compare(lab, f"after any two lines, {kind} move", r, ("pos",), 3)

        lab.attempt(f"anywhere {kind}", where, anywhere)


def any_history(lab, name, build, what=("pos",)):
    """The same step after an arbitrary number of arbitrary lines (summarised loop): relative to the state before."""
    where = lab.where(W)

    def go():
        r = Run(lab, lambda sc: [Line({"G21": (TRUE, None)})] + build(sc), prefix=True)
        sc = r.sc
        n = len(r.lines)
        if not r.ok or len(r.states) < n or any(g is not TRUE or v.op != "ref" for g, v in sc.items(r.out)[-n:]):
            lab.undecided(f"{name}: any history", where, "states not derivable: " + "; ".join(sc.e.notes[:3]))
            return
        st = r.states[-n:]
        ref = Ref({**r.setup, **{k: r.setting(st[0], k) for k in SETTING}, **dict(zip(AXES, r.pos(st[0])))})
        for i in range(1, n):
            ref.line(r.lines[i])
            if "pos" in what:
                got = r.pos(st[i])
                for k, a in enumerate(AXES):
                    sc.prove(f"{name}: after any history, line {i} position {a}", eq=(got[k], ref.pos()[k]), where=where, soft=True)
            if "set" in what:
                for k in SETTING:
                    sc.prove(f"{name}: after any history, line {i} setting {k}", eq=(r.setting(st[i], k), ref.set[k]), where=where, soft=True)

    lab.attempt(f"{name}: any history", where, go)


REL = {"G91": (TRUE, None), "M83": (TRUE, None)}
ABS = {"G90": (TRUE, None), "M82": (TRUE, None)}


def i02(lab):
    import itertools

    any_history(lab, "reset", lambda sc: [Line({"G92": (TRUE, args(sc, 1, "XYZE"))}), Line({"G92": (TRUE, args(sc, 2, "XYZE"))})])
    any_history(lab, "reset and absolute move", lambda sc: [Line({"G92": (TRUE, args(sc, 1, "XYZE", yes))}), mv(sc, 2, extra=ABS), Line({"G92": (TRUE, args(sc, 3, "XE"))}), mv(sc, 4)])

    where = lab.where(W)
    kinds = {
        "G92": lambda sc, i: Line({"G92": (TRUE, args(sc, i, "XYZE"))}),
        "absolute move": lambda sc, i: mv(sc, i, extra={"G90": (TRUE, None), "M82": (TRUE, None)}),
        "relative move": lambda sc, i: mv(sc, i, extra={"G91": (TRUE, None), "M83": (TRUE, None)}),
    }
    n = 3 if lab.tier == "quick" else 4
    for h in itertools.product(kinds, repeat=n):
        if "G92" not in h[:n]:
            continue

        def go():
            r = Run(lab, lambda sc: [kinds[k](sc, i) for i, k in enumerate(h)])
            compare(lab, ", ".join(h), r, ("pos",), 1)

        lab.attempt(", ".join(h), where, go)

    def many():
        # any number of earlier resets: four in a row with moves in between
        r = Run(lab, lambda sc: [x for i in range(4) for x in (Line({"G92": (TRUE, args(sc, i, "XE", yes))}), Line({"G1": (TRUE, args(sc, f"m{i}", "XE", yes))}))])
        compare(lab, "four resets with moves between", r, ("pos",), 1)

    lab.attempt("four resets", where, many)


def machine_setting(sc, i, c):
    if c in ("G90", "G91", "M82", "M83", "G21"):
        return Line({c: (TRUE, None)})
    names = {"G0": "XYZEF", "G1": "XYZEF", "G92": "XYZE", "M203": "XYZE", "M204": "PRST", "M205": "EJSXYZ", "G4": "PS"}[c]
    return Line({c: (TRUE, args(sc, i, names))})


SETTERS = ["G0", "G1", "M203", "M204", "M205"]
OTHERS = ["G92", "G4", "G90", "G91", "M82", "M83", "G21"]


def i03(lab):
    where = lab.where(W)
    for a in SETTERS + OTHERS:
        any_history(lab, a, lambda sc: [machine_setting(sc, 1, a), Line({})], ("set",))
    for a in SETTERS + OTHERS:
        for b in SETTERS + ([] if a in OTHERS else OTHERS):
            def go():
                r = Run(lab, lambda sc: [machine_setting(sc, 1, a), machine_setting(sc, 2, b), Line({})])
                compare(lab, f"{a}, {b}, empty line", r, ("set",), 1)

            lab.attempt(f"{a}, {b}", where, go)

    def one_line():
        r = Run(lab, lambda sc: [Line({**machine_setting(sc, 1, "M203").cmds, **machine_setting(sc, 2, "M204").cmds, **machine_setting(sc, 3, "M205").cmds, **machine_setting(sc, 4, "G1").cmds}), mv(sc, 5), Line({})])
        compare(lab, "all on one line", r, ("set",), 1)

    lab.attempt("all on one line", where, one_line)


def i04(lab):
    where = lab.where(W)
    for a in SETTERS + OTHERS:
        def go():
            r = Run(lab, lambda sc: [machine_setting(sc, 1, a), Line({"G4": (TRUE, {"P": yes(sc, "P")})}), machine_setting(sc, 2, a), Line({"G4": (TRUE, {"S": yes(sc, "S")})}), Line({}), machine_setting(sc, 3, a)])
            compare(lab, f"{a} and dwells", r, ("pause",), 1)

        lab.attempt(f"{a} and dwells", where, go)

    def same_line():
        for arg in "PS":
            r = Run(lab, lambda sc: [mv(sc, 1, extra={"G4": (TRUE, {arg: yes(sc, arg)})}), mv(sc, 2)])
            compare(lab, f"dwell {arg} on the line of a move", r, ("pause", "pos"), 1)

    lab.attempt("dwell on the line of a move", where, same_line)
    dwell_motion(lab)


def dwell_motion(lab):
    """Planner side: the standstill itself."""
    from .common import Move, Seg, p_settings, make_state, link, segment

    w = lab.where("planner_block.planner_block.__init__")

    def still(sc, name, g, s, pos, t0, dur):
        sc.prove(f"{name}: begins when the previous motion ended", eq=(s.tb, t0), where=w, assume=[g])
        sc.prove(f"{name}: lasts exactly the commanded time", eq=(s.dt, dur), where=w, assume=[g])
        for k, a in enumerate(AXES):
            sc.prove(f"{name}: stands at the position reached, begin {a}", eq=(s.pb[k], pos[k]), where=w, assume=[g])
            sc.prove(f"{name}: stands at the position reached, end {a}", eq=(s.pe[k], pos[k]), where=w, assume=[g])
            sc.prove(f"{name}: no velocity {a}", eq=(s.vb[k], ZERO), where=w, assume=[g])
            sc.prove(f"{name}: no velocity at the end {a}", eq=(s.ve[k], ZERO), where=w, assume=[g])

    for first in (False, True):
        for fw in (None, "klipper", "marlin_jd", "marlin_jerk", "MKA"):
            name = f"dwell {'first of all' if first else 'after motion'}, {fw}"

            def go():
                sc = lab.scene(normalize=True)
                ps = p_settings(sc, sc.sym("acc", "pos"), sc.sym("jerk", "nonneg"), sc.sym("spd", "pos"))
                a = sc.syms("ax ay az ae")
                A, B = make_state(sc, a, ps), make_state(sc, a, ps)
                link(sc, A, B)
                dur = sc.sym("dur", "pos")
                sc.set(B, "pause", dur)
                pb = sc.name("planner_block", "planner_block")
                prev, t0 = NONE, ZERO
                if not first:
                    prev = sc.call(pb, A, NONE)
                    t0 = sc.sym("t0", "nonneg")
                    sc.set(prev, "segments", sc.list([segment(sc, t0, t0, a, a, [ZERO] * 4, [ZERO] * 4)]))
                b = sc.call(pb, B, prev, firmware=const(fw) if fw else NONE)
                sc.no_raise(f"{name}: no failure", w)
                if b is None:
                    return
                segs = sc.items(sc.meth(b, "get_segments"))
                lab.structural(f"{name}: one standstill", len(segs) == 1 and segs[0][0] is TRUE, w, f"{len(segs)} segments planned for a dwell")
                for g, r in segs[:1]:
                    still(sc, name, g, Seg(sc, r), a, t0, dur)
                lab.structural(f"{name}: not an extruding move", sc.get(b, "is_extruding") is FALSE, w, "a dwell counts as extruding")

            lab.attempt(name, w, go)

    def no_pause():
        sc = lab.scene(normalize=True)
        ps = p_settings(sc, sc.sym("acc", "pos"), sc.sym("jerk", "nonneg"), sc.sym("spd", "pos"))
        a = sc.syms("ax ay az ae")
        A, B = make_state(sc, a, ps), make_state(sc, a, ps)
        link(sc, A, B)
        b = sc.call(sc.name("planner_block", "planner_block"), B, NONE)
        lab.structural("no dwell: no standstill", len(sc.items(sc.meth(b, "get_segments"))) == 0, w, "a line without dwell and motion plans segments")

    lab.attempt("no dwell", w, no_pause)
    for speeds in ("v0<spd", "spd<=v0"):
        def with_move():
            dur = sym("dur")
            m = Move(lab, kind="travel", speeds=speeds, firmware=None, pause=None)
            m2 = Move(lab, kind="travel", speeds=speeds, firmware=None, pause=const(3))
            name = f"dwell on the line of a move ({speeds})"
            if not m2.ok:
                lab.undecided(name, w, "not derivable")
                return
            sc = m2.sc
            if not m2.segs or m2.segs[-1][0] is not TRUE:
                lab.structural(f"{name}: standstill after the move", None, w)
                return
            g, s = m2.segs[-1]
            sc.prove(f"{name}: lasts exactly the commanded time", eq=(s.dt, const(3)), where=w)
            for k, a in enumerate(AXES):
                sc.prove(f"{name}: stands where the move ends, {a}", eq=(s.pb[k], m2.b[k]), where=w, assume=[m2.unit])
                sc.prove(f"{name}: stays there, {a}", eq=(s.pe[k], s.pb[k]), where=w)
                sc.prove(f"{name}: no velocity {a}", eq=(s.ve[k], ZERO), where=w)

        lab.attempt(f"dwell with move {speeds}", w, with_move)


def i05(lab):
    where = lab.where(W)
    G20, G21 = {"G20": (TRUE, None)}, {"G21": (TRUE, None)}
    body = {
        "moves": lambda sc, i, e: Line({"G1": (TRUE, args(sc, i, "XYZEF", yes)), **e}),
        "relative moves": lambda sc, i, e: Line({"G1": (TRUE, args(sc, i, "XYZEF", yes)), "G91": (TRUE, None), "M83": (TRUE, None), **e}),
        "G0": lambda sc, i, e: Line({"G0": (TRUE, args(sc, i, "XYZEF", yes)), **e}),
        "G92": lambda sc, i, e: Line({"G92": (TRUE, args(sc, i, "XYZE", yes)), **e}),
        "M203": lambda sc, i, e: Line({"M203": (TRUE, args(sc, i, "XYZE", yes)), **e}),
        "M204": lambda sc, i, e: Line({"M204": (TRUE, args(sc, i, "PRST", yes)), **e}),
        "M205": lambda sc, i, e: Line({"M205": (TRUE, args(sc, i, "EJSXYZ", yes)), **e}),
    }
    for k, f in body.items():
        for same in (False, True):
            def go():
                def lines(sc):
                    out = [f(sc, 1, {})]
                    for n, u in ((2, G20), (3, G21)):
                        out += [f(sc, n, u)] if same else [Line(dict(u)), f(sc, n, {})]
                        out += [Line({}), Line({"G1": (TRUE, args(sc, f"m{n}", "XYZE"))})]
                    return out

                r = Run(lab, lines)
                compare(lab, f"{k}, unit {'on the line' if same else 'before'}", r, ("pos", "set", "units"), 1)

            lab.attempt(k, where, go)

    def dwell():
        r = Run(lab, lambda sc: [Line(dict(G20)), Line({"G4": (TRUE, {"P": yes(sc, "P")})}), Line({"G4": (TRUE, {"S": yes(sc, "S")})})])
        compare(lab, "times are not lengths", r, ("pos", "set", "units", "pause"), 1)

    lab.attempt("dwell", where, dwell)


def i06(lab):
    where = lab.where(W)

    def go(shape):
        cue = const("LAYER CHANGE")
        comment = {"cue": cue, "padded cue": const(" LAYER CHANGE \n"), "contains": const("BEFORE LAYER CHANGE"), "begins with": const("LAYER CHANGE 7"), "shorter": const("LAYER"),
                   "case": const("layer change"), "empty": const(""), "blank": const("  "), "other": None}

        def lines(sc):
            out = []
            for i, s in enumerate(shape):
                c = comment[s] if s != "none" else None
                if s == "other":
                    c = sc.sym(f"comment {i}", "str")
                ln = mv(sc, i, names="XE") if i % 2 else Line({})
                ln.comment = None if s == "none" else (TRUE, c)
                out.append(ln)
            return out

        r = Run(lab, lines, cue=cue, strings={None: ["LAYER CHANGE", " LAYER CHANGE\n", "x LAYER CHANGE", "LAYER CHANGE x", "LAYER", "layer change", "", " "]})
        name = ", ".join(shape)
        if not r.exact or len(r.states) != len(r.lines) + 1:
            lab.undecided(name, where, "states not derivable: " + "; ".join(r.sc.e.notes[:3]))
            return
        sc = r.sc
        n = ZERO
        for i, (ln, s) in enumerate(zip(r.lines, r.states[1:])):
            if ln.comment is not None:
                t = ln.comment[1]
                hit = (TRUE if t.args[0].strip() == "LAYER CHANGE" else FALSE) if t.op == "const" else EQ(mk("meth", "strip", t), cue)
                n = ITE(hit, add(n, const(1)), n)
            sc.prove(f"{name}: layer of line {i + 1}", eq=(sc.get(s, "layer"), n), where=where)
            want = NONE if ln.comment is None else (const(ln.comment[1].args[0].strip()) if ln.comment[1].op == "const" else mk("meth", "strip", ln.comment[1]))
            sc.prove(f"{name}: comment of line {i + 1}", eq=(sc.get(s, "comment"), want), where=where)

    def each(i, sh):
        lab.attempt(", ".join(sh), where, go, sh)

    kinds = ["cue", "padded cue", "contains", "begins with", "shorter", "case", "empty", "blank", "other", "none"]
    for i, k in enumerate(kinds):
        each(i, ["none", k, "cue", k])
    each(0, ["cue", "cue", "none", "cue"])
    each(0, ["other", "other", "other"])
    # a cue that itself has blanks around it is compared as it is given; without a cue no state carries a layer

    def no_cue():
        r = Run(lab, lambda sc: [Line({}, comment=(TRUE, const("LAYER CHANGE"))), mv(sc, 1), Line({}, comment=(TRUE, sc.sym("c", "str")))])
        for i, s in enumerate(r.states):
            lab.structural(f"no cue: state {i} has no layer", r.sc.get(s, "layer") is NONE, where, "a state carries a layer although no cue is configured")
        r.sc.no_raise("no cue: no failure", where)

    lab.attempt("no cue", where, no_cue)


def i07(lab):
    where = lab.where(W)

    def full():
        r = Run(lab, lambda sc: [Line({}), Line({"G91": (TRUE, None)}), Line({}, comment=(TRUE, sc.sym("c", "str")))])
        compare(lab, "configured setup", r, ("pos", "set", "units"), 0)
        lab.structural("initial state: no line number", r.sc.get(r.states[0], "line_number") is NONE, where, "the initial state carries a line number")

    lab.attempt("full", where, full)
    for k in DEFAULTS:
        def missing():
            r = Run(lab, lambda sc: [Line({})], drop=(k,))
            r.setup[k] = const(DEFAULTS[k])
            compare(lab, f"setup without {k}", r, ("pos", "set"), 0)

        lab.attempt(f"without {k}", where, missing)

    def later():
        r = Run(lab, lambda sc: [Line({}), mv(sc, 1), Line({"G92": (TRUE, args(sc, 2, "XYZE"))}), Line({"G4": (TRUE, args(sc, 3, "PS"))}), Line({"M83": (TRUE, None), "G91": (TRUE, None)}), Line({"G28": (TRUE, {})}), mv(sc, 4)])
        compare(lab, "values kept until a command changes them", r, ("set",), 0)

    lab.attempt("later", where, later)


UNSUPPORTED = {"G2": "EFIJPRSXY", "G3": "EFIJPRSXY", "G10": "S", "G11": None, "G28": "LORXYZ", "G29": "XYPS"}


def p02(lab):
    where = lab.where(W)

    def links(r, name):
        sc = r.sc
        ok = r.exact and len(r.states) == len(r.lines) + 1
        lab.structural(f"{name}: one state per line", ok if r.exact else None, where, f"{len(r.states)} states for {len(r.lines)} lines")
        if not ok:
            return
        st = r.states
        lab.structural(f"{name}: states are distinct objects", len(set(st)) == len(st), where, "two lines share one state object")
        for i, s in enumerate(st):
            if i:
                sc.prove(f"{name}: state {i} carries its line number", eq=(sc.get(s, "line_number"), r.lines[i - 1].number), where=where)
            p, n = sc.get(s, "prev_state"), sc.get(s, "next_state")
            lab.structural(f"{name}: state {i} refers back", p is (st[i - 1] if i else NONE), where, f"state {i} has a wrong previous state: {show(p)[:80]}")
            lab.structural(f"{name}: state {i} refers on", n is (st[i + 1] if i + 1 < len(st) else NONE), where, f"state {i} has a wrong next state: {show(n)[:80]}")

    contents = {
        "empty": lambda sc, i: Line({}),
        "comment": lambda sc, i: Line({}, comment=(TRUE, sc.sym(f"c{i}", "str"))),
        "move": lambda sc, i: mv(sc, i),
        "unsupported": lambda sc, i: Line({"G28": (TRUE, {}), "G2": (TRUE, args(sc, i, "XYIJ"))}),
        "dwell": lambda sc, i: Line({"G4": (TRUE, args(sc, i, "PS"))}),
        "modal": lambda sc, i: Line({"G91": (TRUE, None), "M83": (TRUE, None), "G20": (TRUE, None)}),
        "reset": lambda sc, i: Line({"G92": (TRUE, args(sc, i, "XYZE"))}),
        "settings": lambda sc, i: Line({"M203": (TRUE, args(sc, i, "XYZE")), "M204": (TRUE, args(sc, i, "P")), "M205": (TRUE, args(sc, i, "X"))}),
    }
    for a in contents:
        for b in contents:
            def go():
                def lines(sc):
                    out = [contents[a](sc, 1), contents[b](sc, 2), contents[a](sc, 3)]
                    for i, ln in enumerate(out):
                        ln.number = sc.sym(f"n{i}", "int")
                    return out

                for cue in (None, const("LAYER")) if a == "comment" or b == "comment" else (None,):
                    links(Run(lab, lines, cue=cue), f"{a}, {b}, {a}" + (" with layer cue" if cue is not None else ""))

            lab.attempt(f"{a}, {b}", where, go)
    for n in (0, 1):
        lab.attempt(f"{n} lines", where, lambda: links(Run(lab, lambda sc: [Line({}) for _ in range(n)]), f"{n} lines"))
    reader(lab)


def reader(lab):
    """File to line dictionaries to states."""
    w = lab.where("state_generator.read_gcode_to_dict_list")

    def go():
        sc = lab.scene()
        lines = [sc.sym(f"line {i}", "str") for i in range(1, 4)]
        seen = []

        def arg_extract(e, st, f, a, k, node):
            s = (list(a) + [k.get("string")])[0]
            seen.append(s)
            return e.new_dict(st, [(const("G1"), mk("parsed", s))])

        split = []

        def splitlines(e, st, obj, a, k, node):
            if not any(x in lines for x in subterms(obj)):
                return NotImplemented
            split.append(node)
            return e.new_list(st, lines)

        sc.e.overrides["arg_extract"] = arg_extract
        sc.e.method_overrides["splitlines"] = splitlines
        open_lines(sc, lines)
        r = sc.call(sc.name("state_generator", "read_gcode_to_dict_list"), const("part.gcode"))
        sc.no_raise("reading: no failure", w, allow=("OSError", "FileNotFoundError", "UnicodeDecodeError"))
        if r is None:
            lab.undecided("reading", w, "not derivable")
            return
        its = sc.items(r)
        exact = all(g is TRUE and v.op == "ref" for g, v in its)
        lab.structural("reading: lines end at line ends only", not split, w, "the text is split by str.splitlines, also at form feeds and Unicode separators inside of a line")
        lab.structural("reading: one dictionary per line", (len(its) == 3) if exact else None, w, f"{len(its)} dictionaries for 3 lines")
        if not exact or len(its) != 3:
            return
        for i, (g, d) in enumerate(its):
            sc.prove(f"reading: line {i + 1} is numbered {i + 1}", eq=(sc.e.getitem(sc.st, d, const("line_number"), None), const(i + 1)), where=w)
            sc.prove(f"reading: entry {i + 1} is the content of line {i + 1}", eq=(sc.e.getitem(sc.st, d, const("G1"), None), mk("parsed", lines[i])), where=w)

    lab.attempt("reading", w, go)

    wg = lab.where("state_generator.generate_states")

    def compose():
        sc = lab.scene()
        parsed = sc.list([const("line dict")])
        states = sc.list([const("a state")])
        got = {}

        def keep(name, val):
            def f(e, st, fn, a, k, node):
                got[name] = (list(a), dict(k))
                return val

            return f

        sc.e.overrides["read_gcode_to_dict_list"] = keep("read", parsed)
        sc.e.overrides["check_for_unsupported_commands"] = keep("check", sc.dict([]))
        sc.e.overrides["dict_list_traveler"] = keep("travel", states)
        stp = sc.dict([(const("p_vel"), const(1))])
        r = sc.call(sc.name("state_generator", "generate_states"), const("part.gcode"), stp)
        vals = lambda n: got.get(n, ([], {}))[0] + list(got.get(n, ([], {}))[1].values())  # noqa: E731
        content = lambda x: [v for g, v in sc.items(x)] if x is not None and x.op == "ref" else None  # noqa: E731
        lab.structural("states: the parsed file is interpreted", any(x is parsed or content(x) == content(parsed) for x in vals("travel")) if "travel" in got else None, wg, "the interpreter does not receive the parsed lines")
        lab.structural("states: with the given setup", any(x is stp for x in vals("travel")) if "travel" in got else None, wg, "the interpreter does not receive the setup")
        lab.structural("states: result is the interpreted program", r is states or (r is not None and content(r) == content(states)), wg, "generate_states returns something else")
        lab.structural("states: the named file is read", any(x is const("part.gcode") for x in vals("read")) if "read" in got else None, wg, "another file is read")

    lab.attempt("states", wg, compose)


def open_lines(sc, lines, seen=None):
    """Opening a file for reading gives these lines, in any of the ways a text file is read."""
    def op(e, st, a, k, node):
        if seen is not None:
            seen.append((st.pc, a, k, node))
        f = e.new_list(st, lines)
        e.files.add(f)
        return f

    def content(e, st, a, k, node):
        if seen is not None:
            seen.append((st.pc, a, {}, node))
        return e.fstr(list(lines)) if lines else const("")

    def next_line(e, st, a, k, node):
        its = e.exact_items(st, a[0]) if a and a[0] in e.files else None
        if its is None:
            return NotImplemented
        if its:
            return e.call_method(st, a[0], "readline", [], {}, node)
        if len(a) > 1:
            return a[1]
        e.pend(st, TRUE, mk("exc", "StopIteration"))
        return mk("call", "next", *a)

    for n in ("open", "builtins.open", "io.open", "codecs.open"):
        sc.e.ext_overrides[n] = op
    for n in ("next", "builtins.next"):
        sc.e.ext_overrides[n] = next_line
    sc.e.method_overrides["open"] = lambda e, st, obj, a, k, node: op(e, st, [obj, *a], k, node)
    sc.e.method_overrides["read_text"] = lambda e, st, obj, a, k, node: content(e, st, [obj], k, node)


def p03(lab):
    where = lab.where(W)
    wc = lab.where("state_generator.check_for_unsupported_commands")
    for c, names in UNSUPPORTED.items():
        def frame():
            def lines(sc):
                a = {c: (TRUE, args(sc, 1, names) if names else None)}
                b = {c: (TRUE, args(sc, 2, names) if names else None)}
                return [Line(a), mv(sc, 3, names="XYZEF"), Line(b), mv(sc, 4, names="XYZEF"), Line({**a, "G91": (TRUE, None)}), mv(sc, 5)]

            r = Run(lab, lines)
            compare(lab, f"{c} changes nothing", r, ("pos", "set", "units", "pause"), 1)
            r = Run(lab, lines, cue=const("LAYER"))
            for i, s in enumerate(r.states[1:]):
                r.sc.prove(f"{c} changes no layer [{i + 1}]", eq=(r.sc.get(s, "layer"), ZERO), where=where)

        lab.attempt(f"{c} frame", where, frame)

    def count():
        sc = lab.scene()
        n = 3
        present = {}
        dicts = []
        for i in range(n):
            items = []
            for c in ("G2", "G28", "G10", "G1", ";"):
                g = sc.sym(f"{c} on line {i + 1}", "bool")
                present[c, i] = g
                items.append((const(c), g, const("")))
            items.append((const("line_number"), TRUE, const(i + 1)))
            dicts.append(sc.e.alloc(sc.st, Dct(items)))
        r = sc.call(sc.name("state_generator", "check_for_unsupported_commands"), sc.list(dicts))
        sc.no_raise("count: no failure", wc)
        if r is None or r.op != "ref":
            lab.undecided("count", wc, "result not derivable")
            return
        for c in ("G2", "G28", "G10"):
            want = ZERO
            for i in range(n):
                want = add(want, ITE(present[c, i], const(1), const(0)))
            some = OR(*[present[c, i] for i in range(n)])
            got = sc.e.dict_get(sc.st, r, const(c), ZERO, None)
            sc.prove(f"count: {c} is reported as often as it occurs", eq=(got, want), where=wc)
            sc.prove(f"count: {c} is reported exactly when it occurs", cond=IFF(sc.e.contains(sc.st, r, const(c), None), some), where=wc)
        for c in ("G1", ";", "line_number", "G3", "M204"):
            sc.prove(f"count: {c} is not reported", cond=NOT(sc.e.contains(sc.st, r, const(c), None)), where=wc)

    lab.attempt("count", wc, count)

    def single():
        for c in UNSUPPORTED:
            sc = lab.scene()
            dicts = [sc.dict([(const(c), const("")), (const("line_number"), const(i))]) for i in (1, 2)]
            dicts.append(sc.dict([(const("G1"), const("")), (const("line_number"), const(3))]))
            r = sc.call(sc.name("state_generator", "check_for_unsupported_commands"), sc.list(dicts))
            got = sc.e.dict_get(sc.st, r, const(c), ZERO, None)
            sc.prove(f"count: two lines with {c} count two", eq=(got, const(2)), where=wc)
        for c in ("G0", "G1", "M203", "M204", "M205", "G4", "M82", "M83", "G20", "G21", "G90", "G91", "G92", ";"):
            sc = lab.scene()
            r = sc.call(sc.name("state_generator", "check_for_unsupported_commands"), sc.list([sc.dict([(const(c), const("")), (const("line_number"), const(1))])]))
            sc.prove(f"count: {c} is not reported", cond=NOT(sc.e.contains(sc.st, r, const(c), None)), where=wc)

    lab.attempt("single", wc, single)
