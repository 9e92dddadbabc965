"""X06: what the plots and the printed summary show."""
from fractions import Fraction

from .common import *  # noqa: F401,F403
from .common import EQ, LE, LT, ZERO, HALF, AX, link, make_state, norm
from .queries import UNITS, Piece, motion, simulate, block, plain_settings
from ..engine import Inst, Lst, add, sub, mul, div
from ..terms import T, mk, const, TRUE, FALSE, NONE, AND, OR, NOT, ITE, show, is_const, cval, subterms


class Drawn:
    """Calls into the plotting libraries with the data they are given, as it is at the time of the call."""

    def __init__(self, sc):
        self.sc, self.calls = sc, []
        sc.e.on_effect = self.seen

    def seen(self, st, eff):
        s = self.sc.fork()
        s.st = st.copy()
        s.st.pending = []
        self.calls.append((eff, [self.data(s, a) for a in eff.args], {k: self.data(s, v) for k, v in eff.kw.items()}))

    def data(self, s, v):
        """Nested lists of numbers for a list or array, None if it is not understood."""
        if not isinstance(v, T):
            return None
        if v.op == "ref" and isinstance(s.obj(v), Lst):
            out = []
            for g, x in s.items(v):
                if g is not TRUE:
                    return None
                out.append(self.data(s, x))
            return out
        if v.op in ("arr", "tuple"):
            return [self.data(s, x) for x in v.args]
        return v

    def stop(self):
        self.sc.e.on_effect = None

    def named(self, *names):
        return [c for c in self.calls if c[0].name in names]


def flat_numbers(v):
    return isinstance(v, list) and all(isinstance(x, T) for x in v)


def x06(lab):
    w3 = lab.where("gcode_interpreter.simulation.plot_3d")
    wv = lab.where("gcode_interpreter.simulation.plot_vel")
    wp = lab.where("gcode_interpreter.simulation.print_summary")
    w2 = lab.where("gcode_interpreter.simulation.plot_2d_position")

    def scene(pattern, shape):
        """Moves with shape[i] segments; extruder per move: + extrudes, - retracts, 0 stays."""
        sc = lab.scene(normalize=True)
        ps = plain_settings(sc)
        n = sum(shape)
        p = [sc.sym("p" + a) for a in AX]
        v = [sc.sym(f"v0{a}") for a in AX[:3]]
        t, k, per, pts = ZERO, 0, [], []
        pts.append(p)
        for c, m in zip(pattern, shape):
            segs = []
            for _ in range(m):
                step = sc.sym(f"e{k}", "pos")
                u = [sc.sym(f"v{k + 1}{a}") for a in AX[:3]]
                d = sc.sym(f"d{k}", "pos")
                q = [add(x, mul(HALF, mul(d, add(y, z)))) for x, y, z in zip(p, v, u)]
                q.append({"+": add(p[3], step), "-": sub(p[3], step), "0": p[3]}[c])
                # the speed of the extruder is of no interest to what is compared here
                ref = segment(sc, t, add(t, d), p, q, v + [ZERO], u + [ZERO])
                segs.append((ref, t, add(t, d), p, q, v, u))
                t, p, v, k = add(t, d), q, u, k + 1
            per.append(segs)
            pts.append(p)
        st = [make_state(sc, x, ps) for x in pts]
        for x, y in zip(st, st[1:]):
            link(sc, x, y)
        blocks, prev = [], None
        for i, segs in enumerate(per):
            prev = block(sc, st[i], st[i + 1], [x[0] for x in segs], prev)
            blocks.append(prev)
        return sc, simulate(sc, blocks, st), per

    def is_line(t):
        return t.op == "call" and t.args and t.args[0] in ("pyvista.lines_from_points", "pyvista.core.utilities.lines_from_points", "pyvista.MultipleLines", "pyvista.Spline")

    # ------------------------------------------------------------ 3D mesh
    def mesh(pattern, shape, only, kw=None, given=False):
        kw = kw or {}
        nm = f"3D, moves {pattern} {shape}, " + ("default" if only is None else "extrusion" if only else "everything") + (" screenshot" if kw else "") + (" mesh given" if given else "")

        def go():
            sc, sim, per = scene(pattern, shape)
            out = Drawn(sc)
            a = dict(kw)
            if only is not None:
                a["extrusion_only"] = TRUE if only else FALSE
            if given:
                a["mesh"] = mk("ext", "a previous mesh")
            r = sc.meth(sim, "plot_3d", **a)
            out.stop()
            if r is None:
                lab.structural(nm, False if sc.dead else None, w3, "plot is refused")
                return
            lines = []
            for e, args, k in out.calls:
                if isinstance(e.result, T) and is_line(e.result) and e.result not in [x[0] for x in lines]:
                    lines.append((e.result, args[0] if args else k.get("points"), e.pc))
            if given:
                lab.structural(f"{nm}: no second mesh", not lines and not out.named("pyvista.MultiBlock"), w3, "a mesh is built although one is given")
                lab.structural(f"{nm}: the mesh given is drawn", shown(out) == [a["mesh"]], w3, "the mesh drawn is not the one given")
                lab.structural(f"{nm}: the mesh given is returned", r is a["mesh"], w3, "the mesh returned is not the one given")
                return
            want, run = [], []
            every = [(c, s) for c, segs in zip(pattern, per) for s in segs]
            for c, s in every:
                if only is False or c == "+":
                    if not run:
                        run.append((s[3], s[5]))
                    run.append((s[4], s[6]))
                elif run:
                    want.append(run)
                    run = []
            if run:
                want.append(run)
            if not out.named("pyvista.MultiBlock") and not lines and want:
                lab.undecided(nm, w3, "mesh is not built from lines through points")
                return
            lab.structural(f"{nm}: {len(want)} lines", len(lines) == len(want), w3, f"{len(lines)} lines are drawn, {len(want)} uninterrupted runs are printed")
            if len(lines) != len(want):
                return
            for i, ((line, pts, pc), run) in enumerate(zip(lines, want)):
                if not isinstance(pts, list) or not all(flat_numbers(x) for x in pts):
                    lab.undecided(f"{nm}: line {i}", w3, "points not derivable")
                    continue
                sc.prove(f"{nm}: line {i} drawn", cond=pc, where=w3)
                lab.structural(f"{nm}: line {i} has {len(run)} points", len(pts) == len(run), w3, f"{len(pts)} points instead of {len(run)}")
                speeds = [d for e, d, k in out.named("setitem") if isinstance(e.args[0], T) and line in set(subterms(e.args[0])) and is_const(e.args[1]) and cval(e.args[1]) == "velocity"]
                v = speeds[-1][2] if speeds else None
                if len(pts) == len(run):
                    for j, (q, (p, u)) in enumerate(zip(pts, run)):
                        if len(q) != 3:
                            lab.structural(f"{nm}: line {i} point {j}", False, w3, "point without three coordinates")
                            continue
                        for k in range(3):
                            sc.prove(f"{nm}: line {i} point {j} {AX[k]}", eq=(q[k], p[k]), where=w3)
                if v is None and not speeds:
                    lab.structural(f"{nm}: line {i} coloured by speed", False if out.named("setitem") == [] else None, w3, "line without velocity")
                elif not flat_numbers(v):
                    lab.undecided(f"{nm}: line {i} speeds", w3, "speeds not derivable")
                else:
                    lab.structural(f"{nm}: line {i} has {len(run)} speeds", len(v) == len(run), w3, f"{len(v)} speeds instead of {len(run)}")
                    for j, (x, (p, u)) in enumerate(zip(v, run)):
                        sc.prove(f"{nm}: line {i} speed {j}", eq=(x, norm(u)), where=w3)
                put = [e for e, _, _ in out.named(".append", ".extend", "setitem", ".combine", ".merge") if any(isinstance(x, T) and line in set(subterms(x)) for x in e.args[1:])]
                lab.structural(f"{nm}: line {i} in the mesh", True if put else None, w3)
            sc.no_raise(f"{nm}: no failure", w3)
            m = shown(out)
            lab.structural(f"{nm}: the mesh returned is the one drawn", m == [r] if m else None, w3, "another mesh is returned than drawn")

        lab.attempt(nm, w3, go)

    def shown(out):
        return [e.args[1] if len(e.args) > 1 else e.kw.get("mesh") for e, _, _ in out.named(".add_mesh")]

    shot = {"screenshot_path": const("out/p.png")}
    for pattern, shape in (("+", (1,)), ("+", (3,)), ("++", (2, 1)), ("+0+", (1, 1, 1)), ("0+", (1, 2)), ("+0", (2, 1)), ("+-+", (1, 2, 1)), ("0+0+0", (1, 1, 2, 1, 1)), ("++0-+", (1, 1, 1, 1, 2)), ("+00+", (1, 1, 1, 1))):
        mesh(pattern, shape, None)
        mesh(pattern, shape, False)
        mesh(pattern, shape, True, shot)
    for pattern, shape in (("0", (1,)), ("0", (3,)), ("-0", (1, 2))):
        mesh(pattern, shape, False, shot)
    mesh("+0+", (1, 1, 1), True, given=True)
    mesh("+0+", (1, 1, 1), False, shot, given=True)

    # ------------------------------------------------------------ velocity diagram
    def ends(per):
        return [s[2] for b in per for s in b]

    def diagram(shape, steps, axes, marks=None, path=False):
        nm = f"velocity diagram, moves of {shape} segments, {steps} times, axes {''.join(axes)}" + (f" {marks}" if marks else "") + (" to a file" if path else "")

        def go():
            sc = lab.scene(normalize=True)
            blocks, per, st = motion(sc, list(shape))
            sim = simulate(sc, blocks, st)
            segs = [q for b in per for q in b]
            end = segs[-1].t1
            kw = {"axis": sc.list([const(a) for a in axes], "tuple"), "show": FALSE}
            for k, v in (marks or {}).items():
                kw[k] = TRUE if v else FALSE
            if steps != "constrained":
                kw["time_steps"] = const(steps)
            if path:
                kw["filepath"] = const("out/v.png")
            out = Drawn(sc)
            r = sc.meth(sim, "plot_vel", **kw)
            out.stop()
            if r is None:
                lab.structural(nm, False if sc.dead else None, wv, "diagram is refused")
                return
            curves = []
            for e, a, k in out.named(".plot"):
                if len(a) < 3 or not flat_numbers(a[1]) or not flat_numbers(a[2]):
                    lab.undecided(nm, wv, "curve not derivable")
                    return
                curves.append((e, k.get("label"), a[1], a[2]))
            if not curves:
                lab.undecided(nm, wv, "no curve found")
                return
            if steps == "constrained":
                times = [ZERO] + [q.t1 for q in segs]
                vel = [segs[0].v0] + [q.v1 for q in segs]
                pos = [segs[0].p0] + [q.p1 for q in segs]
            else:
                times = [mul(const(Fraction(i, steps)), end) if i else ZERO for i in range(steps)]
                vel, pos = [], []
                for t in times:
                    x = [None] * 4
                    y = [None] * 4
                    for q in reversed(segs):
                        at = sub(t, q.t0)
                        for i in range(4):
                            slope = div(sub(q.v1[i], q.v0[i]), q.d)
                            vv = add(q.v0[i], mul(slope, at))
                            pp = add(q.p0[i], add(mul(q.v0[i], at), mul(HALF, mul(slope, mul(at, at)))))
                            x[i] = vv if x[i] is None else ITE(LE(t, q.t1), vv, x[i])
                            y[i] = pp if y[i] is None else ITE(LE(t, q.t1), pp, y[i])
                    vel.append(x)
                    pos.append(y)
            ext = {}
            for e, lb, xs, ys in curves:
                name = cval(lb) if isinstance(lb, T) and is_const(lb) else None
                ext.setdefault(name, []).append((xs, ys, e))
            other = [c for k, v in ext.items() if k not in axes and k != "abs" for c in v]
            want = [(f"velocity {a}", ext.get(a, []), [v["xyze".index(a)] for v in vel]) for a in axes]
            want.append(("speed", ext.get("abs", []), [norm(v[:3]) for v in vel]))
            lab.structural(f"{nm}: one position curve per axis", len(other) == len(axes), wv, f"{len(other)} position curves for {len(axes)} axes")
            if len(other) == len(axes):
                want += [(f"position {a}", [c], [p["xyze".index(a)] for p in pos]) for a, c in zip(axes, other)]
            for what, cs, ref in want:
                lab.structural(f"{nm}: one curve of {what}", len(cs) == 1, wv, f"{len(cs)} curves of {what}")
                if len(cs) != 1:
                    continue
                xs, ys, e = cs[0]
                lab.structural(f"{nm}: {what} at {len(times)} times", len(xs) == len(ys) == len(times), wv, f"{len(xs)} times and {len(ys)} values instead of {len(times)}")
                if not len(xs) == len(ys) == len(times):
                    continue
                sc.prove(f"{nm}: {what} drawn", cond=e.pc, where=wv)
                for i, (x, y) in enumerate(zip(xs, ys)):
                    sc.prove(f"{nm}: {what} time {i}", eq=(x, times[i]), where=wv)
                    sc.prove(f"{nm}: {what} value {i}", eq=(y, ref[i]), where=wv)
            on = marks or {}
            lines = [k.get("x", a[1] if len(a) > 1 else None) for e, a, k in out.named(".axvline")]
            exp = []
            for b in per:
                if on.get("show_planner_blocks", True):
                    exp.append(b[-1].t1)
                if on.get("show_segments", False):
                    exp += [q.t1 for q in b]
            lab.structural(f"{nm}: {len(exp)} time marks", len(lines) == len(exp), wv, f"{len(lines)} marks instead of {len(exp)}")
            if len(lines) == len(exp):
                for i, (x, y) in enumerate(zip(lines, exp)):
                    if isinstance(x, T):
                        sc.prove(f"{nm}: mark {i}", eq=(x, y), where=wv)
            sc.no_raise(f"{nm}: no failure", wv)

        lab.attempt(nm, wv, go)

    allx = ("x", "y", "z", "e")
    diagram((1,), "constrained", allx)
    diagram((2, 1), "constrained", allx)
    diagram((1, 3), "constrained", allx, {"show_segments": True})
    diagram((2, 2), "constrained", ("z", "x"), {"show_planner_blocks": False})
    diagram((1, 1, 1), "constrained", ("e",), {"show_planner_blocks": False, "show_segments": True}, path=True)
    diagram((2,), 1, allx)
    diagram((1,), 4, allx)
    diagram((1, 1), 2, ("x", "e"))
    diagram((2,), 3, ("y",))

    def refuse(value):
        def go():
            sc = lab.scene(normalize=True)
            blocks, per, st = motion(sc, [2, 1])
            sim = simulate(sc, blocks, st)
            r = sc.meth(sim, "plot_vel", time_steps=value, show=FALSE)
            lab.structural(f"velocity diagram with time_steps={show(value)} is an error", True if sc.dead else None if r is None else False, wv, "an unknown time selection is accepted")

        lab.attempt(f"time_steps {show(value)}", wv, go)

    for v in (const("all"), const("Constrained"), const("")):
        refuse(v)

    # ------------------------------------------------------------ outline from above
    def outline(shape, points):
        nm = f"2D outline, moves of {shape} segments" + (" with points" if points else "")

        def go():
            sc = lab.scene(normalize=True)
            blocks, per, st = motion(sc, list(shape))
            sim = simulate(sc, blocks, st)
            segs = [q for b in per for q in b]
            out = Drawn(sc)
            r = sc.meth(sim, "plot_2d_position", filepath=FALSE, colvar=NONE, show_points=TRUE if points else FALSE)
            out.stop()
            curves = [a for e, a, k in out.named(".plot")]
            if r is None and sc.dead:
                lab.structural(nm, False, w2, "plot is refused")
                return
            if len(curves) != 1 or len(curves[0]) < 3 or not flat_numbers(curves[0][1]) or not flat_numbers(curves[0][2]):
                lab.undecided(nm, w2, "outline not derivable")
                return
            ref = [segs[0].p0] + [q.p1 for q in segs]
            for what, xs, i in (("X", curves[0][1], 0), ("Y", curves[0][2], 1)):
                lab.structural(f"{nm}: {len(ref)} {what}", len(xs) == len(ref), w2, f"{len(xs)} points instead of {len(ref)}")
                if len(xs) == len(ref):
                    for j, (x, p) in enumerate(zip(xs, ref)):
                        sc.prove(f"{nm}: {what} of point {j}", eq=(x, p[i]), where=w2)
            dots = [a for e, a, k in out.named(".scatter")]
            n = len(per) if points else 0
            lab.structural(f"{nm}: {n} points", len(dots) == n, w2, f"{len(dots)} points instead of {n}")
            if len(dots) == n:
                for j, (a, b) in enumerate(zip(dots, per)):
                    for i in (0, 1):
                        if len(a) > 2 and isinstance(a[1 + i], T):
                            sc.prove(f"{nm}: point {j} {AX[i]}", eq=(a[1 + i], b[-1].p1[i]), where=w2)

        lab.attempt(nm, w2, go)

    for shape in ((1,), (3,), (2, 1)):
        outline(shape, False)
        outline(shape, True)

    # ------------------------------------------------------------ printed summary
    def printed(shape):
        nm = f"printed summary, moves of {shape} segments"

        def go():
            sc = lab.scene(normalize=True)
            blocks, per, st = motion(sc, list(shape))
            sim = simulate(sc, blocks, st, name=sc.e.symbol("the file", "str"))
            n = len(sc.e.effects)
            sc.meth(sim, "print_summary", sc.sym("start"))
            if sc.dead:
                lab.structural(nm, False, wp, "no summary is printed")
                return
            text = set()
            for e in sc.e.effects[n:]:
                for a in list(e.args) + list(e.kw.values()):
                    if isinstance(a, T):
                        text |= set(subterms(a))
            figures = [x.args[0] for x in text if x.op == "fmt" and isinstance(x.args[0], T)] + [x for x in text]
            end = per[-1][-1].t1
            if not any(x.op == "fstr" for x in text):
                lab.undecided(nm, wp, "text not derivable")
                return
            parts = [y for x in text if x.op == "fstr" for y in x.args]
            parts = [y.args[0] if isinstance(y, T) and y.op == "fmt" else y for y in parts]
            numbers = [y for y in parts if isinstance(y, T) and not is_const(y)]
            times = [y for y in numbers if end is y or set(subterms(end)) & set(subterms(y)) - {ZERO}]
            lab.structural(f"{nm}: shows the duration of the program", bool(times) or None, wp)
            for i, y in enumerate(times[:1]):
                sc.prove(f"{nm}: duration", eq=(y, end), where=wp)
            sc.no_raise(f"{nm}: no failure", wp)

        lab.attempt(nm, wp, go)

    for shape in ((1,), (3,), (1, 2), (2, 1, 1)):
        printed(shape)
