"""P01, P05: from the text of a line to its state.

Lines are structured strings: known characters, written numbers (any number in any notation float() reads) and text (any
text without capitals, ';' and line breaks).  They go through the reader, the interpreter and the report as in the
package; the states are compared with those of the same program without comments (P01) or with the reference semantics
(P05).
"""
from .common import ZERO
from .generator import AXES, DEFAULTS, SETTING, Line, Ref, open_lines
from .. import strings
from ..engine import Dct
from ..terms import const, is_const, cval, TRUE, FALSE, NONE, AND, NOT, show


class Text:
    """A program given as text."""

    def __init__(self, lab, cue=None, setup=None):
        sc = self.sc = lab.scene(normalize=True)
        self.lab, self.cue = lab, cue
        self.setup = {k: sc.sym("s_" + k, "pos" if k in SETTING else "real") for k in DEFAULTS}
        self.n = 0

    def num(self, name=None):
        self.n += 1
        return strings.chunk(self.sc.e, name or f"n{self.n}", "num")

    def txt(self, name=None):
        self.n += 1
        return strings.chunk(self.sc.e, name or f"t{self.n}", "text")

    def join(self, parts):
        ps = []
        for p in parts:
            if isinstance(p, str):
                if not p:
                    continue
                if ps and isinstance(ps[-1], str):
                    ps[-1] += p
                    continue
            ps.append(p)
        if not ps:
            return const("")
        if all(isinstance(p, str) for p in ps):
            return const("".join(ps))
        return strings.build(self.sc.e, ps)

    def value(self, chunk):
        return self.sc.e.chunk_value[chunk]

    def read(self, lines, ended=True):
        """Parsed lines, the report and the states of this program; lines: list of lists of parts, without line break."""
        sc = self.sc
        open_lines(sc, [self.join([*l, "\n"] if ended or i < len(lines) - 1 else l) for i, l in enumerate(lines)])
        pairs = list(self.setup.items())
        pairs += [("firmware", const("klipper")), ("printer_name", const("printer")), ("nozzle_diam", const(1)), ("filament_diam", const(2))]
        if self.cue is not None:
            pairs.append(("layer_cue", self.cue))
        parsed = sc.call(sc.name("state_generator", "read_gcode_to_dict_list"), const("part.gcode"))
        if parsed is None:
            return None
        report = sc.call(sc.name("state_generator", "check_for_unsupported_commands"), parsed)
        out = sc.call(sc.name("state_generator", "dict_list_traveler"), parsed, sc.dict(pairs))
        if out is None or sc.dead:
            return None
        its = sc.items(out)
        if any(g is not TRUE or v.op != "ref" for g, v in its) or len(its) != len(lines) + 1:
            return None
        return [v for g, v in its], report

    def pos(self, s):
        return self.sc.vec(self.sc.get(s, "state_position"))

    def ps(self, s, k):
        return self.sc.get(self.sc.get(s, "state_p_settings"), k)


def agree(t, name, where, a, b, what):
    """Two values, strings included."""
    if a is b:
        return t.lab.structural(name, True, where)
    if a is None or b is None:
        return t.lab.undecided(name, where, "value not available")
    r = strings.same(t.sc.e, a, b)
    if r is None and is_const(a) and is_const(b):
        r = TRUE if cval(a) == cval(b) and (cval(a) is None) == (cval(b) is None) else FALSE
    if r is None and (a is NONE or b is NONE):
        o = b if a is NONE else a
        if strings.any_parts(t.sc.e, o) is not None:
            r = FALSE
    if r is TRUE:
        return t.lab.structural(name, True, where)
    if r is FALSE:
        return t.lab.structural(name, False, where, what, f"source: {show(a)[:160]}; required: {show(b)[:160]}")
    return t.sc.prove(name, eq=(a, b), where=where, what=what)


W = "state_generator.arg_extract"
WT = "state_generator.dict_list_traveler"
WORDS = ["G0", "G1", "G4", "G20", "G21", "G28", "G90", "G91", "G92", "M82", "M83", "M203", "M204", "M205", "G2", "G3", "G10", "G11", "G29"]
LETTERS = ["X", "Y", "Z", "E", "F", "P", "S", "R", "T", "J"]


def prefixes(t):
    """What stands before the comment; numbers are any."""
    n = t.num
    return [
        ("nothing", []),
        ("blank", ["  "]),
        ("G1", ["G1 X", n(), " Y", n(), " "]),
        ("G1 tight", ["G1X", n(), "Y", n(), "E", n(), "F", n()]),
        ("G0", ["G0 Z", n(), " "]),
        ("feed", ["G1 F", n(), " "]),
        ("G92", ["G92 E", n(), " "]),
        ("G91", ["G91"]),
        ("G90", ["G90 "]),
        ("M83", ["M83"]),
        ("M82", ["M82 "]),
        ("G4", ["G4 P", n(), " "]),
        ("G4 S", ["G4 S", n()]),
        ("M204", ["M204 P", n(), " T", n(), " "]),
        ("M203", ["M203 X", n(), " E", n()]),
        ("M205", ["M205 X", n(), " "]),
        ("G20", ["G20"]),
        ("G21", ["G21 "]),
        ("G28", ["G28 "]),
        ("G10", ["G10"]),
        ("two", ["G91 G1 X", n(), " E", n(), " "]),
        ("unknown", ["M117 "]),
    ]


def tails(t, w, v):
    """Comments around the words w and v."""
    a, b = t.txt(), t.txt()
    gap = lambda x: " " if x[-1].isdigit() else ""  # a number glued to a command would make another command  # noqa: E731
    yield "bare", [a]
    yield f"{w}", [w]
    yield f"{w} number", [" ", w, " ", t.num()]
    yield f"text {w} text", [" ", a, w, gap(w), b]
    yield f"{w}{v} number", [w, v, gap(v), t.num(), " "]
    yield f"text {w} {v} number text", [a, w, " ", v, gap(v), t.num(), b]
    yield f"{w}; {v}", [a, ";", w, " ", v, gap(v), t.num(), ";", b]
    yield f"{w}5 {v}", [w, "5 ", v, "0.5"]


def p01(lab):
    where = lab.where(W)
    pairs = [(w, LETTERS[i % len(LETTERS)]) for i, w in enumerate(WORDS)] + [(x, WORDS[i]) for i, x in enumerate(LETTERS)]
    pairs += [("LAYER_CHANGE", "M117"), ("TYPE:External", "N"), (";", ";"), ("G1", "G1"), ("G28 X Y Z", "G1 X")]
    n = len(prefixes(Text(lab)))
    rounds = pairs if lab.tier == "thorough" else pairs
    for k, (w, v) in enumerate(rounds):
        def go():
            # one program: every prefix once with each form of comment in the thorough tier, rotating in the quick tier
            t = Text(lab)
            pre = prefixes(t)
            prog = []
            for j, (pn, p) in enumerate(pre):
                forms = list(tails(t, w, v))
                use = forms if lab.tier == "thorough" else [forms[(j + k) % len(forms)], forms[(j + 3 + k) % len(forms)]]
                for fn, f in use:
                    prog.append((pn, p, fn, f))
            programs(lab, t, prog, f"{w} {v}")

        lab.attempt(f"comments around {w} {v}", where, go)

    def plain():
        # the comment of a line is its own: absent without the delimiter
        t = Text(lab)
        prog = [(pn, p, None, None) for pn, p in prefixes(t)]
        programs(lab, t, prog, "no comment")

    lab.attempt("lines without comment", where, plain)

    def last(j):
        # the last line of a file need not end with a line break
        t = Text(lab)
        pn, p = prefixes(t)[j]
        a = t.txt()
        programs(lab, t, [(pn, p, f"last line, {k}", f) for k, f in (("G1 X text", ["G1 X ", a]),)], "unended", ended=False)
        programs(lab, t, [(pn, p, "last line, text", [" ", a, "G28"])], "unended", ended=False)

    for j in range(n):
        lab.attempt(f"last line {j}", where, last, j)


def programs(lab, t, prog, name, ended=True):
    where, wt = lab.where(W), lab.where(WT)
    sc = t.sc
    with_c = t.read([p + ([";"] + f if f is not None else []) for pn, p, fn, f in prog], ended)
    notes = "; ".join(sc.e.notes[:2])
    without = t.read([p for pn, p, fn, f in prog], ended)
    sc.no_raise(f"{name}: no failure", where, allow=("OSError",), what="a comment makes reading the program fail")
    if with_c is None or without is None:
        lab.undecided(name, where, "states not derivable: " + notes)
        return
    (a, ra), (b, rb) = with_c, without
    for i, (pn, p, fn, f) in enumerate(prog):
        tag = f"{name}: {pn}; {fn}" if fn is not None else f"{name}: {pn}"
        text = f"line {show(t.join([*p, ';', *f]))[:160]}" if f is not None else f"line {show(t.join(p))[:120]}"
        x, y = a[i + 1], b[i + 1]
        before = len(lab.findings)
        for q, (u, w) in enumerate(zip(t.pos(x), t.pos(y))):
            agree(t, f"{tag}: position {AXES[q]}", wt, u, w, f"comment changes the position: {text}")
        for key in [*SETTING.values(), "units"]:
            agree(t, f"{tag}: {key}", wt, t.ps(x, key), t.ps(y, key), f"comment changes {key}: {text}")
        agree(t, f"{tag}: pause", wt, sc.get(x, "pause"), sc.get(y, "pause"), f"comment changes the pause: {text}")
        c = sc.get(x, "comment")
        if f is None:
            agree(t, f"{tag}: comment", wt, c, NONE, f"comment of a line without one: {text}")
        else:
            want, ok = strings.strip(sc.e, f if isinstance(f, list) else [f], None, True, True)
            want = t.join(strings.any_parts(sc.e, t.join(want)) or [])
            want2 = sc.e.call_method(sc.st, t.join(f), "strip", [], {}, None)
            agree(t, f"{tag}: comment", wt, c, want2 if not ok else want, f"comment is not the text after the delimiter: {text}")
        if len(lab.findings) > before:
            break
    report(lab, t, name, ra, rb)


def report(lab, t, name, ra, rb):
    w = lab.where("state_generator.check_for_unsupported_commands")
    try:
        get = lambda r: {cval(k): (p, v) for k, p, v in t.sc.obj(r).items if is_const(k)}  # noqa: E731
        a, b = get(ra), get(rb)
    except (AttributeError, TypeError):
        lab.undecided(f"{name}: report", w, "report not derivable")
        return
    for k in sorted(set(a) | set(b)):
        pa, pb = (x.get(k, (FALSE, NONE))[0] for x in (a, b))
        t.sc.prove(f"{name}: {k} reported alike", cond=(AND(pa, pb) if pa is TRUE or pb is TRUE else NOT(AND(pa, NOT(pb)))), where=w, what=f"command in a comment is reported: {k}")
        if k in a and k in b:
            agree(t, f"{name}: {k} counted alike", w, a[k][1], b[k][1], f"commands in comments are counted: {k}")
    lab.structural(f"{name}: report compared", True, w)


# ---------------------------------------------------------------- P05
def forms(t):
    """(name, text parts, Line it means)."""
    n, V = t.num, t.value
    yes = lambda **k: {a: (TRUE, v) for a, v in k.items()}  # noqa: E731

    def args(sep, names, order=None, cmd="G1", gap=" ", lead=""):
        ch = {a: n() for a in names}
        parts = [lead, cmd, gap]
        for i, a in enumerate(order or names):
            parts += ([sep] if i else []) + [a, ch[a]]
        return parts, {a: (TRUE, V(c)) for a, c in ch.items()}

    def one(cmd, names, means=None, **k):
        p, a = args(k.pop("sep", " "), names, cmd=cmd, **k)
        return p, Line({means or cmd: (TRUE, a)})

    flag = lambda c, means=None: ([c], Line({(means or c): (TRUE, None)}))  # noqa: E731
    out = [
        ("plain", *one("G1", "XYZEF")),
        ("reverse order", *one("G1", "XYZEF", order="FEZYX")),
        ("mixed order", *one("G0", "XYE", order="YEX")),
        ("no spaces", *one("G1", "XYZEF", sep="", gap="")),
        ("many spaces", *one("G1", "XYE", sep="   ", gap="  ", lead=" ")),
        ("space before the number", ["G1 X ", (a := n()), " Y ", (b := n()), " "], Line({"G1": (TRUE, yes(X=V(a), Y=V(b)))})),
        ("only feed", *one("G0", "F")),
        ("only extruder", *one("G1", "E")),
        ("leading zero G01", *one("G01", "XY", means="G1")),
        ("leading zero G00", *one("G00", "XYZ", means="G0")),
        ("leading zero G04", *one("G04", "P", means="G4")),
        ("G4 S", *one("G4", "S")),
        ("G4 P", *one("G4", "P")),
        ("G92", *one("G92", "XYZE")),
        ("G92 E", *one("G92", "E", gap="")),
        ("M203", *one("M203", "XYZE")),
        ("M203 Z first", *one("M203", "XYZE", order="ZEYX")),
        ("M204", *one("M204", "PRST")),
        ("M204 T first", *one("M204", "PT", order="TP")),
        ("M205", *one("M205", "EJSXYZ")),
        ("M205 X", *one("M205", "X")),
    ]
    for c in ("G90", "G91", "M82", "M83", "G20", "G21"):
        out.append((c, *flag(c)))
        out.append((c + " and spaces", [" ", c, "  "], Line({c: (TRUE, None)})))
    p1, a1 = args(" ", "XE", cmd="G1")
    out.append(("G91 and move", ["G91 ", *p1], Line({"G91": (TRUE, None), "G1": (TRUE, a1)})))
    p1, a1 = args(" ", "XE", cmd="G1")
    out.append(("M83 tight to move", ["M83", *p1], Line({"M83": (TRUE, None), "G1": (TRUE, a1)})))
    p1, a1 = args(" ", "XF", cmd="G1")
    p2, a2 = args(" ", "P", cmd="M204")
    out.append(("acceleration and move", [*p2, " ", *p1], Line({"M204": (TRUE, a2), "G1": (TRUE, a1)})))
    p1, a1 = args(" ", "YE", cmd="G1")
    p2, a2 = args(" ", "X", cmd="M205")
    out.append(("move and jerk", [*p1, " ", *p2], Line({"M205": (TRUE, a2), "G1": (TRUE, a1)})))
    p1, a1 = args(" ", "XYZE", cmd="M203")
    p2, a2 = args(" ", "XY", cmd="G0")
    out.append(("limits and move", [*p1, " ", *p2], Line({"M203": (TRUE, a1), "G0": (TRUE, a2)})))
    p1, a1 = args(" ", "XY", cmd="G1")
    p2, a2 = args(" ", "S", cmd="G4")
    out.append(("move and dwell", [*p1, " ", *p2], Line({"G1": (TRUE, a1), "G4": (TRUE, a2)})))
    # lines that do nothing
    for c, tail in (("G12", " X{} Y{}"), ("G17", ""), ("G42", " P{}"), ("G40", ""), ("M104", " S{}"), ("M84", " X Y E"), ("M106", " S{}"), ("M140", " S{}"),
                    ("G30", " X{} Y{}"), ("G280", " X{}"), ("G910", ""), ("M820", ""), ("M2040", " P{}"), ("G100", " X{}"), ("G28", " X Y"), ("G28", ""), ("G29", " P{}"),
                    ("G10", ""), ("G10", " S{}"), ("G11", ""), ("G2", " X{} Y{} I{} J{}"), ("G3", " X{} Y{} R{} E{} F{}"), ("T0", ""), ("M221", " S{}"), ("M73", " P{} R{}"), ("", "")):
        ps = []
        for i, s in enumerate((c + tail).split("{}")):
            ps += ([n()] if i else []) + [s]
        out.append((f"'{c}{tail}' does nothing", ps, Line({})))
    return out


def p05(lab):
    where = lab.where(W)
    for pre in ("", "relative", "inch"):
        t = Text(lab)
        n = len(forms(t))
        step = 8
        for k in range(0, n, step):
            def go():
                t = Text(lab)
                fs = forms(t)[k:k + step]
                p1, p2 = t.num(), t.num()
                head = {"": [], "relative": [("head", ["G91"], Line({"G91": (TRUE, None)})), ("head", ["M83"], Line({"M83": (TRUE, None)}))],
                        "inch": [("head", ["G20"], Line({"G20": (TRUE, None)}))]}[pre]
                fs = head + fs
                probe = ("a later move", ["G1 X", p1, " E", p2], Line({"G1": (TRUE, {"X": (TRUE, t.value(p1)), "E": (TRUE, t.value(p2))})}))
                prog = []
                for f in fs:
                    prog.append(f)
                prog.append(probe)
                spell(lab, t, prog, pre or "absolute")

            lab.attempt(f"{pre or 'absolute'} {k}", where, go)

    def last(j):
        t = Text(lab)
        spell(lab, t, [forms(t)[j]], "last line without line break", ended=False)

    for j in range(len(forms(Text(lab)))):
        lab.attempt(f"last line {j}", where, last, j)


def spell(lab, t, prog, name, ended=True):
    sc = t.sc
    wt = lab.where(WT)
    where = lab.where(W)
    r = t.read([p for _, p, _ in prog], ended)
    sc.no_raise(f"{name}: no failure", where, allow=("OSError",), what="a supported line makes reading the program fail")
    if r is None:
        lab.undecided(name, where, "states not derivable: " + "; ".join(sc.e.notes[:2]))
        return
    ref = Ref(t.setup)
    for (tag, p, line), s in zip(prog, r[0][1:]):
        ref.line(line)
        text = f"line {show(t.join(p))[:160]}"
        before = len(lab.findings)
        for q, (u, v) in enumerate(zip(t.pos(s), ref.pos())):
            agree(t, f"{name}, {tag}: position {AXES[q]}", wt, u, v, f"position {AXES[q]} is not the written one: {text}")
        for key in SETTING:
            agree(t, f"{name}, {tag}: {key}", wt, t.ps(s, SETTING[key]), ref.set[key], f"{key} is not the written one: {text}")
        agree(t, f"{name}, {tag}: unit", wt, t.ps(s, "units"), const("inch") if ref.inch is TRUE else const("SImm"), f"unit is not the written one: {text}")
        agree(t, f"{name}, {tag}: pause", wt, sc.get(s, "pause"), ref.pause, f"pause is not the written one: {text}")
        agree(t, f"{name}, {tag}: comment", wt, sc.get(s, "comment"), NONE, f"line without comment has one: {text}")
        if len(lab.findings) > before:
            break


# ---------------------------------------------------------------- P04
FULL = {  # README, "Fully supported commands", confirmed by reading
    "G0": "EXYZF", "G1": "EXYZF", "G4": "PS", "M82": None, "M83": None, "G20": None, "G21": None, "G90": None, "G91": None, "G92": "EXYZ", ";": None,
}
ARCS = {"G2", "G3"}  # README, known unsupported


def readme_tables(lab):
    """The command tables of the README: {heading: {command: arguments or None}}."""
    import ast
    import os
    import re

    path = os.path.join(lab.root, "README.md")
    if not os.path.exists(path):
        return {}
    text = open(path, encoding="utf-8").read()
    out = {}
    for m in re.finditer(r"^([^\n]*commands[^\n]*):\s*\n\s*```python\n(.*?)```", text, re.S | re.M):
        body = re.sub(r"\{\s*-\s*\}", "None", re.sub(r"#[^\n]*", "", m.group(2)))
        try:
            d = ast.literal_eval("{" + body + "}")
        except (SyntaxError, ValueError):
            continue
        out[m.group(1).strip()] = {k: (None if v is None else "".join(sorted(v))) for k, v in d.items()}
    return out


def table(sc, v):
    """{command: sorted arguments or None} of a command table, None if it is not a constant one."""
    out = {}
    o = sc.obj(v) if v.op == "ref" else None
    if not isinstance(o, Dct):
        return None
    for k, p, x in o.items:
        if p is not TRUE or not is_const(k):
            return None
        if x is NONE:
            out[cval(k)] = None
            continue
        d = sc.obj(x) if x.op == "ref" else None
        if not isinstance(d, Dct) or any(q is not TRUE or not is_const(a) for a, q, _ in d.items):
            return None
        out[cval(k)] = "".join(sorted(cval(a) for a, _, _ in d.items))
    return out


def p04(lab):
    import ast
    import re

    sc = lab.scene()
    tabs = {n: table(sc, sc.name("state_generator", n)) for n in ("supported_commands", "unsupported_commands", "known_commands")}
    f = next(m for m in lab.program.modules.values() if m.name.endswith("state_generator")).path
    where = {n: f"{f}: {n}" for n in tabs}
    sup, uns, known = (tabs[n] for n in ("supported_commands", "unsupported_commands", "known_commands"))
    for n, d in tabs.items():
        if d is None:
            lab.undecided(f"{n} is a table", where[n], "not a constant table")
    doc = readme_tables(lab)
    full = next((d for h, d in doc.items() if h.startswith("Fully supported")), None)
    lab.extra["documented commands"] = {h: sorted(d) for h, d in doc.items()}
    if full is None:
        full = {k: v and "".join(sorted(v)) for k, v in FULL.items()}
    if sup is not None:
        for c, a in sorted(full.items()):
            lab.structural(f"documented {c} is supported", c in sup, where["supported_commands"], f"{c} is documented as fully supported but missing from the vocabulary")
            if c in sup:
                lab.structural(f"documented arguments of {c}", sup[c] == a, where["supported_commands"], f"arguments of {c}", f"vocabulary has {sup[c]}, documented are {a}")
        for c, a in sorted(FULL.items()):
            lab.structural(f"{c} is part of the supported set", c in sup, where["supported_commands"], f"{c} is no longer supported")
    if sup is not None and uns is not None:
        for c in sorted(set(sup) | set(uns)):
            lab.structural(f"{c} is either supported or unsupported", not (c in sup and c in uns), where["unsupported_commands"], f"{c} is listed both as supported and as unsupported")
        for c in sorted(ARCS):
            lab.structural(f"{c} is known as unsupported", c in uns and c not in sup, where["unsupported_commands"], f"{c} is not reported as unsupported")
    if known is not None:
        for n, d in (("supported", sup), ("unsupported", uns)):
            for c in sorted(d or {}):
                lab.structural(f"{n} {c} is known to the parser", c in known and known[c] == d[c], where["known_commands"], f"{c} is not searched for by the parser, or with other arguments")
    # what the interpreter asks for, the parser can deliver
    code = re.compile(r"^[GMT]\d+$")
    seen = 0
    for mm, qn, node, cls in lab.program.functions():
        if not mm.name.endswith("state_generator"):
            continue
        doc_nodes = {id(n.value) for n in ast.walk(node) if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)}
        for n in ast.walk(node):
            if isinstance(n, ast.Constant) and isinstance(n.value, str) and code.match(n.value) and id(n) not in doc_nodes and known is not None:
                seen += 1
                lab.structural(f"{qn} asks for {n.value}", n.value in known, f"{mm.path}:{n.lineno} {qn}", f"the interpreter acts on {n.value}, which the parser never delivers")
            # "A" in line["CMD"] and line["CMD"]["A"]
            arg = cmd = None
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], ast.In) and isinstance(n.left, ast.Constant):
                arg, cmd = n.left.value, n.comparators[0]
            elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Constant):
                arg, cmd = n.slice.value, n.value
            if isinstance(cmd, ast.Subscript) and isinstance(cmd.slice, ast.Constant) and known is not None and cmd.slice.value in known and isinstance(arg, str):
                seen += 1
                c = cmd.slice.value
                lab.structural(f"{qn} asks for {c} {arg}", arg in (known[c] or ""), f"{mm.path}:{n.lineno} {qn}", f"the interpreter acts on {c} {arg}, which the parser never delivers")
    lab.extra["interpreter look-ups"] = seen
    # every fully supported command and argument influences the states
    w = lab.where(WT)
    for c, a in sorted(full.items()):
        for arg in a or "":
            lab.attempt(f"{c} {arg} acts", w, influence, lab, c, arg)
        if a is None:
            lab.attempt(f"{c} acts", w, influence, lab, c, None)


OPPOSITE = {"M82": "M83", "M83": "M82", "G20": "G21", "G21": "G20", "G90": "G91", "G91": "G90"}


def influence(lab, c, arg):
    """The states of a program with the command differ from those without it."""
    from ..cases import Claim

    t = Text(lab)
    sc = t.sc
    x, y, z = t.num(), t.num(), t.num()
    head = [[OPPOSITE[c]]] if c in OPPOSITE else []
    head.append(["G1 X", x, " Y", x, " Z", x, " E", x, " F", x])
    tail = ["G1 X", y, " Y", y, " Z", y, " E", y]
    name = c + (f" {arg}" if arg else "")
    with_c = t.read([*head, [c, f" {arg}" if arg else "", *([z] if arg else [" note"] if c == ";" else [])], tail])
    without = t.read([*head, [c if arg else ""], tail])
    w = lab.where(WT)
    if with_c is None or without is None:
        lab.undecided(f"{name} influences the states", w, "states not derivable: " + "; ".join(sc.e.notes[:2]))
        return
    verdict = True  # equal so far
    for s, u in zip(with_c[0], without[0]):
        vals = list(zip(t.pos(s), t.pos(u))) + [(t.ps(s, k), t.ps(u, k)) for k in [*SETTING.values(), "units"]]
        vals += [(sc.get(s, k), sc.get(u, k)) for k in ("pause", "comment")]
        for p, q in vals:
            if p is q:
                continue
            if p is None or q is None:
                verdict = None if verdict else verdict
                continue
            r = strings.same(sc.e, p, q)
            if r is TRUE:
                continue
            if r is FALSE or (is_const(p) and is_const(q) and cval(p) != cval(q)):
                verdict = False
                break
            st = sc.decider().decide(Claim(name, eq=(p, q))).status
            if st == "REFUTED":
                verdict = False
                break
            if st != "PROVED":
                verdict = None if verdict else verdict
        if verdict is False:
            break
    sc.finish()
    lab.structural(f"{name} influences the states", None if verdict is None else not verdict, w, f"{name} changes no state of any program")
