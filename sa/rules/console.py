"""L06: what is printed inside ABAQUS."""
import ast

from .common import *  # noqa: F401,F403
from .effects import CALLS, scene_for
from .settings import messages
from .lints import world, at
from ..terms import T, mk, const, TRUE, FALSE, NONE, AND, NOT, show, is_const, cval, subterms

ABAQUS = r"C:\SIMULIA\EstProducts\2023\win_b64\code\bin\ABQcaeK.exe"
OUTSIDE = ("/usr/bin/python3", r"C:\Python39\python.exe", "")
LOSSY = ("ignore", "replace", "backslashreplace", "xmlcharrefreplace", "namereplace")


def inside(lab, path=ABAQUS):
    lab.program.ext_values = {"sys.executable": const(path)}


def ascii_only(sc, v):
    """Is the text of this value ASCII for every content?  (True | False | None, why)"""
    if is_const(v):
        x = cval(v)
        if isinstance(x, bytes):
            return True, ""
        return (True, "") if str(x).isascii() else (False, repr(x)[:60])
    if v.op == "fstr":
        res = [ascii_only(sc, x) for x in v.args if isinstance(x, T)]
        for r in res:
            if r[0] is False:
                return r
        return (True, "") if all(r[0] for r in res) else next(r for r in res if not r[0])
    if v.op == "ite":
        a, b = ascii_only(sc, v.args[1]), ascii_only(sc, v.args[2])
        return a if a[0] is False else b if b[0] is False else a if a[0] is None else b
    d = unwrap(v, "decode")
    if d is not None:
        e = unwrap(d, "encode")
        if e is not None and codec(d) == "ascii":
            return True, ""
        return ascii_only(sc, d) if is_const(d) and isinstance(cval(d), bytes) and cval(d).isascii() else (None, show(v)[:60])
    joined = unwrap(v, "join")
    if joined is not None and is_const(joined):
        return joined_ascii(sc, v, joined)
    if v.op == "call" and v.args[0] == "re.sub" and len(v.args) == 4 and all(is_const(x) for x in v.args[1:3]):
        return (True, "") if removes(cval(v.args[1]), cval(v.args[2])) else ascii_only(sc, v.args[3]) if str(cval(v.args[2])).isascii() else (None, show(v)[:60])
    if v.op == "call" and str(v.args[0]).split(".")[-1] in ("ascii",):
        return True, ""
    if sc.e.is_numeric(v) or sc.e.kinds.get(v) == "bool" or v.op in ("len", "round"):
        return True, ""
    if v.op in ("meth", "call") and v.args and str(v.args[0]) in ("format", "builtins.format", "builtins.round", "builtins.len", "time.time"):
        return True, ""
    if sc.e.kinds.get(v) in ("str", "path"):
        return False, f"any text: {show(v)[:60]}"
    if v.op in ("call",) and v.args[0] == "Path":
        res = [ascii_only(sc, x) for x in v.args[1:] if isinstance(x, T)]
        return res[0] if res else (None, show(v)[:60])
    if v.op == "attr" and v.args[1] == "name" or v.op == "extbound":
        return None, show(v)[:60]
    return None, show(v)[:60]


def joined_ascii(sc, v, sep):
    """sep.join(...) over characters that a condition restricts to ASCII."""
    seq = [x for x in v.args[1:] if isinstance(x, T) and x is not sep][-1:]
    if not seq or not str(cval(sep)).isascii():
        return None, show(v)[:60]
    seq = seq[0]
    items = [seq] if seq.op == "mapped" else [x for _, x in sc.obj(seq).items] if seq.op == "ref" and seq.args[0] in sc.st.objs and hasattr(sc.obj(seq), "kind") and not hasattr(sc.obj(seq), "opaque") else None
    if items is None:
        return None, show(v)[:60]
    worst = (True, "")
    for x in items:
        m = x.args[0] if x.op == "splat" else x
        if m.op == "mapped":
            r = (True, "") if char_ascii(sc, m.args[2], m.args[3] if len(m.args) > 3 else TRUE) else (None, show(m)[:60])
        else:
            r = ascii_only(sc, m)
        if r[0] is False:
            return r
        if r[0] is None:
            worst = r
    return worst


def char_ascii(sc, x, cond):
    if x.op == "ite":
        return all(char_ascii(sc, y, AND(cond, c)) for y, c in ((x.args[1], x.args[0]), (x.args[2], NOT(x.args[0]))))
    if is_const(x):
        return str(cval(x)).isascii()
    for c in cond.args if cond.op == "and" else (cond,):
        if any(unwrap(y, "isascii") is x for y in (c, *c.args[:1]) if isinstance(y, T)) and c.op != "not":
            return True
        neg = c.op == "not"
        c = c.args[0] if neg else c
        if c.op != "lt":
            continue
        lo, hi = c.args
        if neg:
            lo, hi = hi, lo
        # lo < hi, or lo <= hi when the comparison was negated
        if lo.op == "call" and lo.args[0] in ("builtins.ord", "ord") and lo.args[1] is x and is_const(hi) and cval(hi) <= (127 if neg else 128):
            return True
    return False


def removes(pattern, repl):
    """A character class (possibly repeated) that covers everything outside ASCII."""
    import re

    try:
        from re import _parser, _constants as k

        tree = list(_parser.parse(pattern))
        while len(tree) == 1 and tree[0][0] in (k.MAX_REPEAT, k.SUBPATTERN):
            if tree[0][0] is k.MAX_REPEAT and tree[0][1][0] > 1:
                return False
            tree = list(tree[0][1][-1])
        if len(tree) != 1 or tree[0][0] is not k.IN or not repl.isascii() or "\\" in repl:
            return False
        return re.sub(pattern, repl, "".join(map(chr, range(128, 0x110000)))).isascii()
    except (ImportError, re.error, AttributeError, TypeError):
        return False


def unwrap(v, name):
    """The receiver of a method call of that name, in any of its representations."""
    if v.op == "meth" and v.args[0] == name:
        return v.args[1]
    if v.op == "call" and v.args[0] == "." + name:
        return v.args[1]
    return None


def codec(v):
    """Encoding of an .encode(...) term that never fails."""
    rest = [x for x in v.args[2:] if isinstance(x, T)]
    pos = [x for x in rest if is_const(x)]
    kws = {x.args[0]: x.args[1] for x in rest if x.op == "kw"}
    enc = kws.get("encoding", pos[0] if pos else None)
    err = kws.get("errors", pos[1] if len(pos) > 1 else None)
    if enc is None or not is_const(enc) or str(cval(enc)).lower().replace("_", "-") not in ("ascii", "us-ascii"):
        return None
    return "ascii" if err is not None and is_const(err) and cval(err) in LOSSY else "ascii-strict"


def text_of(v):
    """Constant text of a printed value."""
    if is_const(v):
        return str(cval(v))
    d = unwrap(v, "decode")
    if d is not None and is_const(d) and isinstance(cval(d), bytes):
        return cval(d).decode("ascii", "replace")
    if v.op == "fstr" and all(isinstance(x, T) and is_const(x) for x in v.args):
        return "".join(str(cval(x)) for x in v.args)
    return None


def outputs(sc, start=0):
    """(effect, printed values) that reach the console."""
    for e in sc.e.effects[start:]:
        if e.pc is FALSE:
            continue
        if e.name == "print" and ("file" not in e.kw or e.kw["file"] is NONE or "std" in show(e.kw["file"])):
            yield e, list(e.args) + [e.kw[k] for k in ("sep", "end") if k in e.kw and e.kw[k] is not NONE]
        elif e.name in (".write", ".writelines") and e.args and "sys.std" in show(e.args[0]) or e.name in ("sys.stdout.write", "sys.stderr.write"):
            yield e, [a for a in e.args if "sys.std" not in show(a)]


def l06(lab):
    wp = lab.where("helpers.custom_print")
    try:
        wrapper(lab, wp)
        inside(lab)
        operations(lab, wp)
    finally:
        lab.program.ext_values = {}
    sites(lab)


def wrapper(lab, wp):
    texts = ["plain", "", "✅ done", "a é b\n", "👉 path/ü", "💾", "tab\tünïcode"]

    def values(sc):
        vals = [(f"text {t!r}", const(t)) for t in texts]
        vals += [("an integer", const(7)), ("a number", sc.sym("x")), ("None", NONE), ("a truth value", TRUE), ("a list", sc.list([const(1), const("✅")])),
                 ("a dictionary", sc.dict([(const("a"), const(1))])), ("a position", sc.call(sc.name("utils", "position"), *sc.syms("a b c d"))), ("a path", sc.sym("file", "path")), ("any text", sc.sym("txt", "str"))]
        return vals

    for kw in ({}, {"end": const("")}, {"sep": const(", "), "flush": TRUE}):
        tag = f" with {', '.join(kw)}" if kw else ""

        def go():
            inside(lab)
            sc = lab.scene()
            for label, v in values(sc):
                start = len(sc.e.effects)
                s2 = sc.fork()
                s2.call(s2.name("helpers", "custom_print"), v, **kw)
                bad = [n for pc, n, x in s2.raises()]
                lab.structural(f"inside ABAQUS: {label} is printed without failure{tag}", not bad and not s2.dead, wp, f"printing {label} fails with {', '.join(bad) or 'an error'}")
                got = list(outputs(sc, start))
                if not got:
                    lab.structural(f"inside ABAQUS: {label} is printed{tag}", False if not sc.e.notes else None, wp, "nothing is printed")
                    continue
                for e, vals in got:
                    for x in vals[:1]:
                        ok, why = ascii_only(sc, x)
                        lab.structural(f"inside ABAQUS: {label} is ASCII only{tag}", ok, wp, f"non-ASCII text can be printed: {why}")
                        if is_const(v) and isinstance(cval(v), str) and text_of(x) is not None:
                            want = cval(v).encode("ascii", "ignore").decode()
                            lab.structural(f"inside ABAQUS: {label} keeps its ASCII characters{tag}", text_of(x) == want, wp, f"{text_of(x)!r} is printed, expected {want!r}")
                    for k in kw:
                        lab.structural(f"inside ABAQUS: {k} is passed on", e.kw.get(k) is kw[k], wp, f"{k} is not passed on to print")

        lab.attempt(f"inside ABAQUS{tag}", wp, go)

        def several(path, label):
            inside(lab, path)
            sc = lab.scene()
            vs = values(sc)
            sc.call(sc.name("helpers", "custom_print"), *[v for _, v in vs], **kw)
            got = [(e, v) for e, v in outputs(sc)]
            lab.structural(f"{label}: all values are printed at once{tag}", len(got) == 1 and len(got[0][0].args) == len(vs), wp, f"{[len(e.args) for e, _ in got]} values printed of {len(vs)}")
            return sc, vs, got

        def many():
            several(ABAQUS, "inside ABAQUS")
            for p in OUTSIDE[:2] if not kw else OUTSIDE[:1]:
                sc, vs, got = several(p, f"outside ABAQUS ({p})")
                for (label, v), x in zip(vs, got[0][0].args if got else []):
                    same = x is v or (text_of(x) is not None and is_const(v) and text_of(x) == str(cval(v))) or (x.op == "fstr" and len(x.args) == 1 and x.args[0] is v)
                    lab.structural(f"outside ABAQUS ({p}): {label} is printed unchanged{tag}", same or (None if x.op not in ("const", "meth", "fstr") else False), wp, f"{show(x)[:60]} is printed instead of {show(v)[:40]}")

        lab.attempt(f"several values{tag}", wp, many)

    def nothing():
        inside(lab)
        sc = lab.scene()
        sc.call(sc.name("helpers", "custom_print"))
        lab.structural("an empty line can be printed", not sc.dead and len(list(outputs(sc))) == 1, wp, "custom_print() prints nothing")

    lab.attempt("no values", wp, nothing)


def operations(lab, wp):
    """Everything printed while the library works, inside ABAQUS."""
    seen = {}

    def look(sc, label, start=0):
        n = 0
        for e, vals in outputs(sc, start):
            n += 1
            f = e.func
            where = f"{f.module.path}:{getattr(e.node, 'lineno', 0)} {f.qualname}" if f is not None else wp
            if f is not None and f.name == "custom_print":
                where = wp
            for x in vals:
                ok, why = ascii_only(sc, x)
                key = (label, where)
                if ok is False:
                    lab.structural(f"{label}: only ASCII is printed", False, where, f"inside ABAQUS non-ASCII text can be printed: {why}")
                    seen[key] = False
                elif seen.get(key) is None:
                    seen[key] = ok
        return n

    def done(label):
        for (l, where), ok in list(seen.items()):
            if l == label and ok is not False:
                lab.structural(f"{label}: only ASCII is printed by {where.split(' ')[-1]}", True if ok else None, where, "text of unknown origin")

    for name, target, attr, args in CALLS:
        if target == "setup":
            continue
        w = lab.where({"sim": f"gcode_interpreter.simulation.{attr}", "block": f"planner_block.planner_block.{attr}", "segment": f"utils.segment.{attr}"}.get(target, f"{target}.{attr}"))

        def go():
            sc, sim, blocks, states = scene_for(lab)
            start = len(sc.e.effects)
            c = {"sim": sim, "t": sc.sym("t", "nonneg")}
            first = [v for _, v in sc.items(sc.get(blocks[0], "segments"))][0]
            a, k = args(sc, c)
            obj = {"sim": sim, "block": blocks[0], "segment": first}.get(target)
            if obj is not None:
                sc.meth(obj, attr, *a, **k)
            else:
                sc.call(sc.name(target, attr), *a, **k)
            look(sc, name, start)
            done(name)

        lab.attempt(name, w, go)

    def pipeline():
        sc = lab.scene()
        sc.call(sc.name("gcode_interpreter", "update_progress"), sc.sym("progress"), const("Blocks"))
        look(sc, "progress")
        d = [sc.dict([(const("G2"), sc.dict([])), (const(";"), const("✅"))]), sc.dict([(const("G28"), NONE)])]
        sc.call(sc.name("state_generator", "check_for_unsupported_commands"), sc.list(d))
        look(sc, "unsupported commands")
        sc.call(sc.name("state_generator", "check_for_unsupported_commands"), sc.list([]))
        look(sc, "unsupported commands")
        done("progress")
        done("unsupported commands")

    lab.attempt("progress and unsupported commands", wp, pipeline)

    def construct():
        from .common import setup_with

        for stp in (True, False):
            sc = lab.scene()
            sc.e.overrides["generate_states"] = lambda e, st, f, a, k, n: e.new_list(st, [])
            for n in ("trajectory_self_correct", "print_summary"):
                sc.e.overrides[n] = lambda e, st, f, a, k, n: NONE
            if stp:
                sc.call(sc.name("gcode_interpreter", "simulation"), const("teil_ü.gcode"), initial_machine_setup=setup_with(sc))
            else:
                sc.call(sc.name("gcode_interpreter", "simulation"), const("teil_ü.gcode"), machine_name=const("prusa_mini"))
            look(sc, "simulation")
        done("simulation")

    lab.attempt("simulation", wp, construct)


def sites(lab):
    """Direct writes to the console: constants only."""
    w = world(lab)
    count = 0
    for m, d, call, sc in w.calls():
        short = m.name[len(lab.program.package) + 1:]
        if short.split(".")[0] in ("cli", "examples", "helpers", "__main__"):
            continue
        dots = w.dotted(call.func, sc)
        direct = "builtins.print" in dots and not any(k.arg == "file" for k in call.keywords)
        stream = isinstance(call.func, ast.Attribute) and call.func.attr in ("write", "writelines") and w.dotted(call.func.value, sc) & {"sys.stdout", "sys.stderr", "sys.__stdout__"}
        if not direct and not stream:
            continue
        count += 1
        place = at(w, m, call, sc)
        bad = [n.value for n in ast.walk(call) if isinstance(n, ast.Constant) and isinstance(n.value, str) and not n.value.isascii()]
        lab.structural(f"direct output in {place.split(' ', 1)[-1]}", not bad, place, f"non-ASCII text {bad[:1]} is printed without the wrapper")
    lab.extra["direct console writes"] = count
