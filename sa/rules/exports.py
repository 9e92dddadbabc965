"""X01-X04: what the exports write."""
import re
from fractions import Fraction
from math import isqrt

from .common import *  # noqa: F401,F403
from .common import EQ, IFF, LE, LT, ZERO, HALF, AX, link, make_state, norm, total, segment
from .queries import UNITS, F, Piece, pieces, motion, simulate, block, plain_settings, item, ask, refused, add_vec
from .settings import snapshot
from ..engine import Inst, Lst, Dct, add, sub, mul, div, sqrt
from ..terms import mk, const, TRUE, FALSE, NONE, AND, OR, NOT, ITE, show, is_const, cval, subterms


class Output:
    """What is written to files while a call is analysed: text per file, and data handed to a writer library."""

    DUMPS = ("yaml.dump", "yaml.safe_dump", "json.dump")

    def __init__(self, sc):
        self.sc, self.dumps, self.arrays = sc, [], []
        self.start = len(sc.e.effects)
        for n in self.DUMPS:
            sc.e.ext_overrides[n] = self.dump
        sc.e.ext_overrides["numpy.savetxt"] = self.savetxt

    def dump(self, e, st, args, kwargs, node):
        data = args[0] if args else kwargs.get("data", kwargs.get("obj"))
        old, self.sc.st = self.sc.st, st
        try:
            self.dumps.append((st.pc, data, snapshot(self.sc, data), self.copy(st)))
        finally:
            self.sc.st = old
        return NotImplemented

    def copy(self, st):
        s = self.sc.fork()
        s.st = st.copy()
        s.st.pending = []
        return s

    def savetxt(self, e, st, args, kwargs, node):
        names = ["fname", "X", "fmt", "delimiter", "newline", "header"]
        a = dict(zip(names, args))
        a.update(kwargs)
        self.arrays.append((st.pc, a, self.copy(st)))
        return NotImplemented

    def stop(self):
        for n in self.DUMPS + ("numpy.savetxt",):
            self.sc.e.ext_overrides.pop(n, None)
        return self.sc.e.effects[self.start:]

    def rows(self, sep=","):
        """Rows of cells of the written text: [(guard, [cell terms])], or None if the text is not understood."""
        parts = []
        for e in self.sc.e.effects[self.start:]:
            if e.name in (".write", ".writelines"):
                v = e.args[1]
            elif e.name == "print" and "file" in e.kw:
                v = e.args[0] if e.args else const("")
                parts += [(e.pc, x) for x in (v.args if v.op == "fstr" else (v,))]
                parts.append((e.pc, e.kw.get("end", const("\n"))))
                continue
            else:
                continue
            for v in ([v] if v.op != "ref" else [x for _, x in self.sc.items(v)]):
                parts += [(e.pc, x) for x in (v.args if v.op == "fstr" else (v,))]
        rows, row, cell, guard = [], [], [], None
        for pc, x in parts:
            guard = pc if guard is None else guard
            if is_const(x) and isinstance(cval(x), str):
                text = cval(x)
                while text:
                    i = min([k for k in (text.find(sep), text.find("\n")) if k >= 0], default=-1)
                    if i < 0:
                        cell.append(const(text))
                        break
                    if text[:i]:
                        cell.append(const(text[:i]))
                    row.append(cell)
                    cell = []
                    if text[i] == "\n":
                        rows.append((guard, row))
                        row, guard = [], None
                        if text[i + len(sep) if text[i] != "\n" else i + 1:]:
                            guard = pc
                    text = text[i + 1:] if text[i] == "\n" else text[i + len(sep):]
            else:
                cell.append(x)
        if row or cell:
            row.append(cell)
            rows.append((guard, row))
        out = []
        for g, r in rows:
            cells = []
            for c in r:
                if len(c) != 1:
                    return None
                cells.append(number(c[0]))
            out.append((g, cells))
        return out


def number(t):
    """The value printed in a cell, without the rounding of the printout."""
    if is_const(t):
        x = cval(t)
        if isinstance(x, str):
            try:
                return const(Fraction(x.strip()))
            except (ValueError, ZeroDivisionError):
                return t
        return t
    if t.op == "fn" and t.args[0] == "round" and is_const(t.args[2]) and cval(t.args[2]) is not None and cval(t.args[2]) >= 6:
        return number(t.args[1])
    if t.op == "fmt" and is_const(t.args[1]) and re.fullmatch(r"\s*|.*\.([6-9]|\d\d+)[efg]?", str(cval(t.args[1]))):
        return number(t.args[0])
    if t.op == "ite":
        a, b = number(t.args[1]), number(t.args[2])
        return ITE(t.args[0], a, b)
    return t


# ------------------------------------------------------------------ X01
def x01(lab):
    w = lab.where("abaqus_file_generator.generate_abaqus_event_series")

    def run(shape, tol, unit, durations="pos"):
        def go():
            sc = lab.scene(normalize=True)
            blocks, per, st = motion(sc, shape, durations=durations)
            sim = simulate(sc, blocks, st, unit)
            segs = [k for b in per for k in b]
            kw = {}
            t = F("1/1000000000000")
            if tol == "given":
                t = kw["tolerance"] = sc.sym("tol", "nonneg")
            out = Output(sc)
            r = sc.call(sc.name("abaqus_file_generator", "generate_abaqus_event_series"), sim, const("out.inp"), **kw)
            out.stop()
            nm = f"{shape} segments, {tol} tolerance, {unit}"
            if r is None:
                lab.structural(nm, False if sc.dead else None, w, "no event series is produced")
                return
            sc.no_raise(f"{nm}: no failure", w)
            fac = const(UNITS[unit])
            want = [(segs[0].t0, segs[0].p0)] + [(k.t1, k.p1) for k in segs]
            rows = [[x for _, x in sc.items(row)] for _, row in sc.items(r)]
            lab.structural(f"{nm}: one row per segment end and one for the start", len(rows) == len(want), w, f"{len(rows)} rows for {len(segs)} segments")
            if len(rows) != len(want):
                return

            def check(rows, what, guard=None):
                for j, (row, (tm, p)) in enumerate(zip(rows, want)):
                    if len(row) != 5:
                        lab.structural(f"{nm}: {what} {j} has five columns", False, w, f"{what} has {len(row)} columns")
                        continue
                    sc.prove(f"{nm}: {what} {j} time", eq=(row[0], tm), where=w)
                    for i in range(3):
                        sc.prove(f"{nm}: {what} {j} {AX[i]}", eq=(row[1 + i], mul(fac, p[i])), where=w)
                    if j < len(segs):
                        on = LT(t, sub(segs[j].p1[3], segs[j].p0[3]))
                        sc.prove(f"{nm}: {what} {j} flag of an extruding segment", eq=(row[4], const(1)), where=w, assume=[on])
                        sc.prove(f"{nm}: {what} {j} flag of another segment", eq=(row[4], ZERO), where=w, assume=[NOT(on)])
                    else:
                        sc.prove(f"{nm}: {what} {j} last flag", eq=(row[4], ZERO), where=w)

            check(rows, "row")
            text = out.rows()
            if text is None or any(g is None for g, _ in text):
                lab.undecided(f"{nm}: file", w, "written text is not understood")
                return
            lab.structural(f"{nm}: lines of the file", len(text) == len(want), w, f"the file has {len(text)} lines for {len(want)} rows")
            if len(text) == len(want):
                check([c for _, c in text], "line")
                for j, (g, _) in enumerate(text):
                    sc.prove(f"{nm}: line {j} is written", cond=g, where=w)

        lab.attempt(f"{shape} {tol} {unit}", w, go)

    for shape in ([1], [2], [1, 1], [2, 1], [3, 1, 2]):
        for tol in ("default", "given"):
            run(shape, tol, "SImm")
    run([2, 1], "given", "SI")
    run([2, 1], "default", "inch")


# ------------------------------------------------------------------ X02
def x02(lab):
    w = lab.where("tools.save_layer_metrics")

    def run(shape, layers, path=None, durations="pos", still=()):
        def go():
            sc = lab.scene(normalize=True)
            # moves along one axis and back: lengths are symbolic and simple
            segs, per, pts, t = [], [], [[sc.sym("p0"), const(1), const(2), ZERO]], ZERO
            lens = []
            for i, n in enumerate(shape):
                blk = []
                axis, sgn = i % 3, (1 if i % 2 == 0 else -1)
                p = pts[-1]
                ln = ZERO
                for j in range(n):
                    l = ZERO if i in still else sc.sym(f"l{i}{j}", "pos")  # still: only filament is fed
                    q = list(p)
                    q[axis] = add(q[axis], mul(const(sgn), l))
                    q[3] = add(q[3], sc.sym(f"e{i}{j}"))
                    d = sc.sym(f"d{i}{j}", durations)
                    blk.append(segment(sc, t, add(t, d), p, q, [div(sub(b, a), d) for a, b in zip(p, q)], [div(sub(b, a), d) for a, b in zip(p, q)]) if durations == "pos" else None)
                    blk[-1] = (blk[-1], t, add(t, d))
                    t, p, ln = add(t, d), q, add(ln, l)
                per.append(blk)
                lens.append(ln)
                pts.append(p)
            ps = plain_settings(sc)
            st = [make_state(sc, p, ps) for p in pts]
            for x, y in zip(st, st[1:]):
                link(sc, x, y)
            for s, l in zip(st, [0] + list(layers)):
                sc.set(s, "layer", const(l))
            blocks, prev = [], None
            for i, b in enumerate(per):
                prev = block(sc, st[i], st[i + 1], [x[0] for x in b], prev)
                blocks.append(prev)
            sim = simulate(sc, blocks, st, layer_cue=const("LAYER"))
            out = Output(sc)
            r = sc.call(sc.name("tools", "save_layer_metrics"), sim, NONE if path is None else const(path))
            out.stop()
            nm = f"moves in layers {layers}{' with ' + str(shape) + ' segments' if max(shape) > 1 else ''}{f', {still} without travel' if still else ''}"
            if r is None:
                lab.structural(nm, False if sc.dead else None, w, "no metrics are produced")
                return
            sc.no_raise(f"{nm}: no failure", w)
            cols = [[x for _, x in sc.items(item(sc, r, k))] for k in range(4)]
            if any(g is not TRUE for k in range(4) for g, _ in sc.items(item(sc, r, k))):
                lab.undecided(nm, w, "rows depend on values")
                return
            if not lab.structural(f"{nm}: columns have the same number of rows", len({len(c) for c in cols}) == 1, w, "columns differ in length"):
                return
            if not all(is_const(x) for x in cols[0]):
                lab.undecided(nm, w, "layer numbers not derivable")
                return
            nums = [cval(x) for x in cols[0]]
            lab.structural(f"{nm}: rows in the order of the layers", nums == sorted(set(nums)), w, f"layers reported: {nums}")
            used = sorted(set(layers))
            lab.structural(f"{nm}: every layer is reported", set(used) <= set(nums), w, f"layers reported: {nums}, layers of the moves: {used}")
            end = per[-1][-1][2]
            for l in nums:
                row = nums.index(l)
                if l in used:
                    first = list(layers).index(l)
                    begin = ZERO if l == used[0] else per[first][0][1]
                    later = [i for i, x in enumerate(layers) if x > l]
                    stop = per[later[0]][0][1] if later else end
                    dur, dist = sub(stop, begin), total(lens[i] for i, x in enumerate(layers) if x == l)
                else:
                    dur = dist = ZERO
                sc.prove(f"{nm}: duration of layer {l}", eq=(cols[1][row], dur), where=w)
                sc.prove(f"{nm}: travel distance of layer {l}", eq=(cols[2][row], dist), where=w)
                if l in used:
                    sc.prove(f"{nm}: average speed of layer {l}", eq=(cols[3][row], div(dist, dur)), where=w)
            sc.prove(f"{nm}: durations add up to the print time", eq=(total(cols[1]), end), where=w)
            sc.prove(f"{nm}: distances add up to the total travel", eq=(total(cols[2]), total(lens)), where=w)
            if path is None:
                lab.structural(f"{nm}: no file without a path", not any(e.name in ("open", "numpy.savetxt") for e in out.sc.e.effects[out.start:]), w, "a file is written without a path")
            else:
                csv(sc, nm, out, cols)

        lab.attempt(f"{shape} {layers}", w, go)

    def csv(sc, nm, out, cols):
        if len(out.arrays) != 1:
            lab.undecided(f"{nm}: file", w, "table not written by savetxt")
            return
        pc, a, s2 = out.arrays[0]
        x = a.get("X")
        rows = None
        if x is not None and x.op == "arr":
            rows = [list(r.args) if r.op == "arr" else None for r in x.args]
        if rows is None or any(r is None for r in rows):
            lab.undecided(f"{nm}: file", w, "table not derivable")
            return
        lab.structural(f"{nm}: lines of the file", len(rows) == len(cols[0]), w, f"{len(rows)} lines for {len(cols[0])} layers")
        for j, r in enumerate(rows[: len(cols[0])]):
            for k in range(4):
                if k < len(r):
                    sc.prove(f"{nm}: file line {j} column {k}", eq=(r[k], cols[k][j]), where=w)
        sc.prove(f"{nm}: the file is written", cond=pc, where=w)

    for layers in ((0,), (1,), (0, 0), (0, 1), (1, 1), (1, 2), (0, 1, 1), (0, 0, 1), (0, 1, 2), (1, 2, 3), (0, 2), (0, 0, 2, 2), (0, 1, 1, 2), (0, 1, 2, 2), (1, 1, 3)):
        run([1] * len(layers), layers)
    run([2, 1, 3], (0, 1, 1))
    run([3, 2, 2], (0, 1, 2))
    run([2, 2], (0, 0))
    run([1, 1], (0, 1), still=(1,))
    run([1, 1], (0, 1), still=(0,))
    run([1, 1, 1], (0, 1, 1), still=(2,))
    run([1, 1, 1], (0, 1, 2), still=(1,))
    run([1, 2, 1], (1, 1, 2), still=(1,))
    run([1, 2, 1], (0, 1, 2), "out/metrics.csv")
    run([1], (0,), "metrics.csv")

    def none():
        sc = lab.scene(normalize=True)
        blocks, per, st = motion(sc, [1, 1])
        sim = simulate(sc, blocks, st)
        out = Output(sc)
        r = sc.call(sc.name("tools", "save_layer_metrics"), sim, const("metrics.csv"))
        out.stop()
        if r is None:
            lab.undecided("without a layer cue", w, "not derivable")
            return
        sc.prove("without a layer cue: nothing is reported", eq=(r, NONE), where=w)
        lab.structural("without a layer cue: nothing is written", not any(e.name in ("open", "numpy.savetxt", ".mkdir") for e in sc.e.effects[out.start:]), w, "a file is written without a layer cue")

    lab.attempt("no cue", w, none)


# ------------------------------------------------------------------ X03
def x03(lab):
    w = lab.where("gcode_interpreter.simulation.save_summary")

    def run(pattern, signs, unit):
        def go():
            sc = lab.scene(normalize=True)
            ps = plain_settings(sc)
            n = len(pattern)
            e = ZERO
            pts = [sc.syms("p0x p0y p0z") + [e]]
            for i, c in enumerate(pattern):
                l = sc.sym(f"l{i}", "pos")  # moves along (2, 1, 2), reversed per axis by the signs
                e = add(e, {"+": sc.sym(f"e{i}", "pos"), "-": mul(const(-1), sc.sym(f"e{i}", "pos"))}.get(c, ZERO))
                if c == "d":
                    l = ZERO
                pts.append([add(p, mul(const(k * s), l)) for p, k, s in zip(pts[-1], (2, 1, 2), signs)] + [e])
            st = [make_state(sc, p, ps) for p in pts]
            for x, y in zip(st, st[1:]):
                link(sc, x, y)
            for c, x in zip(pattern, st[1:]):
                if c == "d":
                    sc.set(x, "pause", sc.sym("pause", "pos"))
            blocks, prev, t, speeds = [], None, ZERO, []
            for i in range(n):
                d = sc.sym(f"d{i}", "pos")
                v = [div(sub(y, x), d) for x, y in zip(pts[i], pts[i + 1])]
                prev = block(sc, st[i], st[i + 1], [segment(sc, t, add(t, d), pts[i], pts[i + 1], v, v)], prev)
                t = add(t, d)
                blocks.append(prev)
                speeds.append(div(mul(const(3), sc.sym(f"l{i}", "pos")), d))
            sim = simulate(sc, blocks, st, unit, name="some/part.gcode")
            out = Output(sc)
            ask(sc, sim, "save_summary", const("out/summary.yaml"))
            out.stop()
            nm = f"moves {pattern} along {signs}, {unit}"
            if sc.dead or not out.dumps:
                lab.undecided(nm, w, "summary data not found") if not sc.dead else lab.structural(nm, False, w, "no summary is written")
                return
            sc.no_raise(f"{nm}: no failure", w)
            lab.structural(f"{nm}: written once", len(out.dumps) == 1, w, f"{len(out.dumps)} summaries are written")
            pc, ref, snap, s2 = out.dumps[-1]
            sc.prove(f"{nm}: written", cond=pc, where=w)
            if not isinstance(snap, tuple) or snap[0] != "dict":
                lab.undecided(nm, w, "summary is not a dictionary")
                return
            data = {cval(k): (g, v) for k, g, v in snap[1:] if is_const(k)}
            fac = const(UNITS[unit])
            ext = [p for i, c in enumerate(pattern) if c == "+" for p in (pts[i], pts[i + 1])]
            want = {"filename": const("some/part.gcode"), "t_end": t}
            for j in range(3):
                up, lo = (ext[-1], ext[0]) if signs[j] > 0 else (ext[0], ext[-1])
                want[f"{AX[j]}_min"], want[f"{AX[j]}_max"] = mul(fac, lo[j]), mul(fac, up[j])
            for k, v in want.items():
                if k not in data:
                    lab.structural(f"{nm}: has {k}", False, w, f"the summary has no entry {k}")
                    continue
                g, x = data[k]
                if isinstance(x, tuple):
                    lab.undecided(f"{nm}: {k}", w, "value not derivable")
                    continue
                if g is not TRUE:
                    sc.prove(f"{nm}: has {k}", cond=g, where=w)
                sc.prove(f"{nm}: {k}", eq=(x, v), where=w)
            k = "max_extrusion_travel_velocity"
            if k not in data:
                lab.structural(f"{nm}: has {k}", False, w, f"the summary has no entry {k}")
                return
            x = data[k][1]
            use = [mul(fac, s) for s, c in zip(speeds, pattern) if c == "+"]
            for i, s in enumerate(use):
                sc.prove(f"{nm}: {k} is not below extruding move {i}", cond=LE(s, x), where=w)
            sc.prove(f"{nm}: {k} is the speed of an extruding move", cond=OR(*[EQ(x, s) for s in use]), where=w)

        lab.attempt(f"{pattern} {signs} {unit}", w, go)

    for pattern in ("+", "0+", "+0", "0+-", "++", "-++0"):
        for signs in ((1, 1, 1), (-1, -1, -1), (1, -1, 1), (-1, 1, 1)):
            run(pattern, signs, "SImm")
    for pattern in ("+d", "d+", "+d+d"):
        run(pattern, (1, -1, 1), "SImm")
    run("0+", (1, 1, 1), "SI")
    run("+-", (1, -1, -1), "inch")


# ------------------------------------------------------------------ X04
class Path:
    """A trajectory over concrete points with symbolic speeds: cuts[i] are the path fractions at which block i changes segment."""

    def __init__(self, sc, points, cuts=None, ramps=None, names="v"):
        self.sc, self.points = sc, points
        self.segs, per, t = [], [], ZERO
        cuts = cuts or [()] * (len(points) - 1)
        self.length, self.travel = [], ZERO
        k = 0
        v = None
        for i, (p, q) in enumerate(zip(points, points[1:])):
            diff = [Fraction(b) - Fraction(a) for a, b in zip(p, q)]
            L2 = sum(x * x for x in diff)
            L = Fraction(isqrt(L2.numerator), isqrt(L2.denominator))
            if L * L != L2:
                raise ValueError("length is not rational")
            self.length.append(L)
            fr = [Fraction(0), *[Fraction(c) for c in cuts[i]], Fraction(1)]
            blk = []
            for f0, f1 in zip(fr, fr[1:]):
                kind = (ramps or "")[k:k + 1] or "?"
                if L == 0:
                    v0 = v1 = ZERO
                elif kind == "0":  # from rest
                    v0, v1 = ZERO, sc.sym(f"{names}{k + 1}", "pos")
                elif kind == "1":  # to rest
                    v0, v1 = sc.sym(f"{names}{k}", "pos"), ZERO
                elif kind == "=":
                    v0 = v1 = sc.sym(f"{names}{k}", "pos")
                else:
                    v0, v1 = sc.sym(f"{names}{k}", "pos"), sc.sym(f"w{names}{k}", "pos")
                ln = L * (f1 - f0)
                d = div(const(2 * ln), add(v0, v1)) if L else sc.sym(f"pause{k}", "pos")
                dr = [x / L if L else Fraction(0) for x in diff]
                pos = [[const(a + x * f) for a, x in zip(map(Fraction, p), diff)] + [ZERO] for f in (f0, f1)]
                ref = segment(sc, t, add(t, d), pos[0], pos[1], [mul(v0, const(x)) for x in dr] + [ZERO], [mul(v1, const(x)) for x in dr] + [ZERO])
                self.segs.append((i, f0 * L, f1 * L, t, d, v0, v1))
                blk.append(ref)
                t = add(t, d)
                k += 1
            per.append(blk)
        self.end = t
        ps = plain_settings(sc)
        st = [make_state(sc, [const(Fraction(x)) for x in p] + [ZERO], ps) for p in points]
        for x, y in zip(st, st[1:]):
            link(sc, x, y)
        self.blocks, prev = [], None
        for i, b in enumerate(per):
            prev = block(sc, st[i], st[i + 1], b, prev)
            self.blocks.append(prev)
        self.states = st

    def time(self, i, s):
        """Time at which the motion has covered the distance s of block i."""
        for j, s0, s1, t, d, v0, v1 in self.segs:
            if j == i and s0 <= s <= s1:
                if s == s0:
                    return t
                f = (s - s0) / (s1 - s0)
                root = sqrt(add(mul(const(1 - f), mul(v0, v0)), mul(const(f), mul(v1, v1))))
                return add(t, div(const(2 * (s - s0)), add(v0, root)))
        raise ValueError("distance outside of the block")

    def crossings(self, org, side):
        """(block, distance, entering) of every crossing of the volume's surface, in order."""
        lo = [Fraction(o) - Fraction(l) / 2 for o, l in zip(org, side)]
        hi = [Fraction(o) + Fraction(l) / 2 for o, l in zip(org, side)]
        out = []
        for i, (p, q) in enumerate(zip(self.points, self.points[1:])):
            if self.length[i] == 0:
                continue
            a, b = Fraction(0), Fraction(1)
            for x, y, l, h in zip(p, q, lo, hi):
                x, y = Fraction(x), Fraction(y)
                if x == y:
                    if not l <= x <= h:
                        a, b = Fraction(1), Fraction(0)
                    continue
                f, g = sorted(((l - x) / (y - x), (h - x) / (y - x)))
                a, b = max(a, f), min(b, g)
            if a >= b:
                continue
            if a > 0:
                out.append((i, a * self.length[i], True))
            if b < 1:
                out.append((i, b * self.length[i], False))
        return out


PATHS = [  # name, points, cuts, ramps
    ("through along +x", [(0, 0, 0), (10, 0, 0)], None, "?"),
    ("through along -x, three segments", [(10, 0, 0), (-2, 0, 0)], [("1/4", "1/2")], "0?1"),
    ("through along +y, constant in the middle", [(5, -8, 0), (5, 8, 0)], [("1/4", "3/4")], "0=1"),
    ("through along -y, two segments", [(5, 8, 1), (5, -8, 1)], [("1/2",)], "01"),
    ("through along +z", [(5, 1, -6), (5, 1, 6)], [("1/3",)], "?1"),
    ("through along -z", [(4, 1, 6), (4, 1, -6)], None, "0"),
    ("diagonal in the plane", [(1, -4, 0), (10, 8, 0)], [("1/2",)], "??"),
    ("diagonal in space", [(1, -1, -4), (9, 3, 4)], [("1/3", "2/3")], "0=1"),
    ("diagonal in space, reversed", [(9, 3, 4), (1, -1, -4)], [("1/8", "7/8")], "0=1"),
    ("ends inside", [(0, 0, 0), (5, 0, 0)], None, "0"),
    ("starts inside", [(5, 0, 1), (5, 12, 1)], [("1/4",)], "?1"),
    ("in, inside, out", [(0, 0, 0), (5, 0, 0), (5, 1, 0), (5, 1, 9)], [(), (), ("1/3",)], "0???"),
    ("in and back", [(0, 0, 0), (5, 0, 0), (0, 0, 0)], None, "01"),
    ("passes twice", [(0, 0, 0), (10, 0, 0), (10, 1, 0), (0, 1, 0)], [("1/2",), (), ()], "01??"),
    ("stays inside", [(4, 0, 0), (5, 0, 0), (5, 1, 0)], None, "0?"),
    ("stays outside", [(0, 9, 0), (10, 9, 0), (10, -9, 0)], None, "0?"),
    ("outside, passing an extended face", [(0, 0, 9), (10, 0, 9)], None, "?"),
    ("outside, around the corner", [(0, 4, 0), (6, 12, 0)], None, "?"),
    ("standing still", [(0, 0, 0), (0, 0, 0), (10, 0, 0)], None, "??"),
    ("short steps over the faces", [(0, 0, 0), ("2999/1000", 0, 0), ("3001/1000", 0, 0), ("13999/2000", 0, 0), ("14001/2000", 0, 0), (10, 0, 0)], None, "??????"),
    ("tiny step over a face", [(5, "29999/10000", 0), (5, "30001/10000", 0), (5, 8, 0)], None, "0?"),
    ("grazing a face", [("1499/500", 0, 0), ("1501/500", "39999/100000", 0), (5, "39999/100000", 0)], None, "??"),
    ("ends with a dwell", [(0, 0, 0), (10, 0, 0), (10, 0, 0)], None, "??"),
    ("dwell inside", [(0, 0, 0), (5, 0, 0), (5, 0, 0), (10, 0, 0)], None, "????"),
]
VOLUME = ((5, 0, 0), (4, 6, 5))


def x04(lab):
    w = lab.where("tools.write_submodel_times")

    def run(name, points, cuts, ramps, volume=VOLUME, path="out/times.yaml", unit="SImm", shift=None):
        def go():
            sc = lab.scene(normalize=True)
            org, side = volume
            p = Path(sc, points, cuts, ramps)
            want = p.crossings(org, side)
            times = [p.time(i, s) for i, s, _ in want]
            for i, a in enumerate(times):
                for b in times[i + 1:]:
                    sc.positive(sub(b, a))
            sim = simulate(sc, p.blocks, p.states, unit)
            out = Output(sc)
            kw = {"filename": const(path) if path else NONE}
            r = sc.call(sc.name("tools", "write_submodel_times"), sim, sc.list([const(Fraction(x)) for x in org]), *[const(Fraction(x)) for x in side],
                        material=const("PLA"), **kw)
            out.stop()
            if r is None:
                lab.structural(name, False if sc.dead else None, w, "no result")
                return
            sc.no_raise(f"{name}: no failure", w)

            def check(snap, what):
                if not isinstance(snap, tuple) or snap[0] != "dict":
                    lab.undecided(f"{name}: {what}", w, "not a dictionary")
                    return
                data = {cval(k): (g, v) for k, g, v in snap[1:] if is_const(k)}
                for k in ("time_process", "n_filaments", "time_in", "time_out", "material"):
                    if k not in data or data[k][0] is FALSE:
                        lab.structural(f"{name}: {what} has {k}", False, w, f"{what} has no entry {k}")
                        return
                sc.prove(f"{name}: {what} material", eq=(data["material"][1], const("PLA")), where=w)
                sc.prove(f"{name}: {what} end of the process", eq=(data["time_process"][1], p.end), where=w)
                exp = {True: [t for t, c in zip(times, want) if c[2]], False: [t for t, c in zip(times, want) if not c[2]]}
                sc.prove(f"{name}: {what} number of filaments", eq=(data["n_filaments"][1], const(len(exp[True]))), where=w)
                for entering, k in ((True, "time_in"), (False, "time_out")):
                    v = data[k][1]
                    if not isinstance(v, tuple) or v[0] not in ("list", "tuple"):
                        lab.undecided(f"{name}: {what} {k}", w, "list not derivable")
                        continue
                    items = [(TRUE, x) for x in v[1:]] if v[0] == "tuple" else list(v[1:])
                    if any(isinstance(x, tuple) or x.op == "splat" for _, x in items):
                        lab.undecided(f"{name}: {what} {k}", w, "list not derivable")
                        continue
                    items = [(g, x) for g, x in items if g is not FALSE]
                    exact = all(g is TRUE for g, _ in items)
                    if exact:
                        ok = lab.structural(f"{name}: {what} {k} has {len(exp[entering])} times", len(items) == len(exp[entering]), w,
                                            f"{k} has {len(items)} times, {len(exp[entering])} crossings")
                        if not ok:
                            continue
                        for j, ((_, x), t) in enumerate(zip(items, exp[entering])):
                            sc.prove(f"{name}: {what} {k}[{j}] is the time at the crossing", eq=(x, t), where=w)
                        for j, ((_, x), (_, y)) in enumerate(zip(items, items[1:])):
                            if x is not exp[entering][j] or y is not exp[entering][j + 1]:
                                sc.prove(f"{name}: {what} {k}[{j}] before the next", cond=LE(x, y), where=w)
                    else:
                        n = total(ITE(g, const(1), ZERO) for g, _ in items)
                        sc.prove(f"{name}: {what} {k} has {len(exp[entering])} times", eq=(n, const(len(exp[entering]))), where=w)
                        for j in (1, 2):
                            pw = lambda x: x if j == 1 else mul(x, x)  # noqa: E731
                            sc.prove(f"{name}: {what} {k} are the times at the crossings ({'values' if j == 1 else 'squares'})",
                                     eq=(total(ITE(g, pw(x), ZERO) for g, x in items), total(pw(t) for t in exp[entering])), where=w)

            check(snapshot(sc, r), "result")
            if path is None:
                lab.structural(f"{name}: nothing written without a file name", not out.dumps and not any(e.name == "open" for e in sc.e.effects[out.start:]), w, "a file is written")
                return
            if not out.dumps:
                if any(e.name == ".write" for e in sc.e.effects[out.start:]):
                    lab.undecided(f"{name}: file", w, "written text is not understood")
                else:
                    lab.structural(f"{name}: file is written", False, w, "nothing is written to the file")
                return
            pc, ref, snap, s2 = out.dumps[-1]
            sc.prove(f"{name}: file is written", cond=pc, where=w)
            check(snap, "file")

        lab.attempt(name, w, go)

    for c in PATHS:
        run(*c)
    run("without a file", *PATHS[1][1:], path=None)
    run("shifted volume", [(0, 0, 0), (0, 20, 0)], [("1/4", "1/2")], "0?1", volume=((1, 12, 2), (4, 6, 8)))
    run("flat volume", [(-3, 4, 10), (-3, 4, -10)], [("1/4", "1/2")], "0?1", volume=((-4, 5, -2), (10, 4, 2)))
    run("small volume", [(-6, 0, 0), (6, 0, 0)], [("1/3", "2/3")], "0=1", volume=((0, 0, 0), ("1/10", "1/5", "3/10")))
    run("big volume", [(-300, 0, 0), (300, 0, 0)], [("1/3", "2/3")], "0=1", volume=((10, 20, 30), (200, 100, 300)))

    wi = lab.where("planner_block.planner_block.inverse_time_at_pos")

    def inverse(ramps, cuts, at):
        def go():
            sc = lab.scene(normalize=True)
            p = Path(sc, [(0, 0, 0), (2, 10, 11)], [cuts], ramps)
            s = Fraction(at) * 15
            got = ask(sc, p.blocks[0], "inverse_time_at_pos", const(s))
            nm = f"time at {at} of the path, segments {ramps}"
            if got is None:
                lab.undecided(nm, wi, "not derivable")
                return
            sc.prove(nm, eq=(got, p.time(0, s)), where=wi)
            sc.no_raise(f"{nm}: no failure", wi)

        lab.attempt(f"inverse {ramps} {at}", wi, go)

    for at in ("0", "1/10", "1/4", "1/3", "1/2", "3/4", "9/10", "1"):
        for ramps, cuts in (("?", ()), ("=", ()), ("0", ()), ("1", ()), ("01", ("1/2",)), ("0=1", ("1/4", "3/4")), ("?=1", ("1/4", "3/4"))):
            inverse(ramps, cuts, at)
