"""Q01-Q06: what the simulation answers."""
from fractions import Fraction

from .common import *  # noqa: F401,F403
from .common import EQ, IFF, LE, LT, ZERO, HALF, AX, p_settings, make_state, link, dot, norm, total, setup_with, segment
from ..engine import PI, add, sub, mul, div, sqrt, Inst, Lst, Dct
from ..terms import T, mk, const, is_const, cval, TRUE, FALSE, NONE, AND, OR, NOT, ITE, show

UNITS = {"SI": Fraction(1, 1000), "SImm": Fraction(1), "inch": Fraction(10, 254)}


def F(s):
    return const(Fraction(s))


class Piece:
    """A consistent segment: duration d, constant acceleration on every axis."""

    def __init__(self, sc, t0, d, p0, v0, v1):
        self.t0, self.d, self.t1 = t0, d, add(t0, d)
        self.p0, self.v0, self.v1 = p0, v0, v1
        self.p1 = [add(p, mul(HALF, mul(d, add(a, b)))) for p, a, b in zip(p0, v0, v1)]
        self.ref = segment(sc, self.t0, self.t1, self.p0, self.p1, self.v0, self.v1)


def pieces(sc, n, durations="pos", t0=ZERO, tag="", axes="xyze", rest=False):
    """n consecutive segments of one motion."""
    p = [sc.sym(f"p{a}{tag}") if a in axes else ZERO for a in AX]
    v = [sc.sym(f"v0{a}{tag}") if a in axes and not rest else ZERO for a in AX]
    out = []
    for i in range(n):
        w = [sc.sym(f"v{i + 1}{a}{tag}") if a in axes and not (rest and i == n - 1) else ZERO for a in AX]
        k = Piece(sc, t0, sc.sym(f"d{i}{tag}", durations), p, v, w)
        out.append(k)
        t0, p, v = k.t1, k.p1, w
    return out


def block(sc, A, B, segs, prev=None):
    """The planner block of the move A -> B with the given segments."""
    def mm(e, st, f, args, kwargs, node):
        e.setattr(st, args[0], "segments", e.new_list(st, segs, "list"))
        return NONE

    old = dict(sc.e.overrides)
    sc.e.overrides["move_maker2"] = mm
    pc, pending = sc.st.pc, list(sc.st.pending)
    b = sc.call(sc.name("planner_block", "planner_block"), B, prev if prev is not None else NONE)
    sc.e.overrides.clear()
    sc.e.overrides.update(old)
    if b is None:
        raise RuntimeError("planner block not derivable: " + "; ".join(sc.e.notes[:3]))
    # the motion is given: whether its planning can fail is decided elsewhere
    sc.st.pc, sc.st.pending = pc, pending
    sc.set(b, "segments", sc.list(segs))
    if prev is not None:
        sc.set(prev, "next_block", b)
    return b


def plain_settings(sc, tag=""):
    return p_settings(sc, sc.sym("acc" + tag, "pos"), sc.sym("jerk" + tag, "nonneg"), sc.sym("spd" + tag, "pos"))


def motion(sc, shape, layers=None, durations="pos", **kw):
    """Blocks with shape[i] segments each, of one continuous motion; (blocks, pieces per block, states)."""
    ps = pieces(sc, sum(shape), durations, **kw)
    pts = [ps[0].p0]
    k = 0
    per = []
    for n in shape:
        per.append(ps[k:k + n])
        k += n
        pts.append(ps[k - 1].p1)
    set_ = plain_settings(sc)
    st = [make_state(sc, p, set_) for p in pts]
    for x, y in zip(st, st[1:]):
        link(sc, x, y)
    for i, s in enumerate(st):
        sc.set(s, "layer", layers[i] if layers else ZERO)
    blocks, prev = [], None
    for i, segs in enumerate(per):
        prev = block(sc, st[i], st[i + 1], [q.ref for q in segs], prev)
        blocks.append(prev)
    return blocks, per, st


def simulate(sc, blocks, states, unit="SImm", setup=None, name="part.gcode", values=None, layer_cue=None):
    """A simulation whose planned motion is known."""
    old = dict(sc.e.overrides)
    sc.e.overrides["generate_states"] = lambda e, st, f, a, k, n: e.new_list(st, states, "list")
    sc.e.overrides["generate_planner_blocks"] = lambda e, st, f, a, k, n: e.new_list(st, blocks, "list")
    sc.e.overrides["trajectory_self_correct"] = lambda e, st, f, a, k, n: NONE
    sc.e.overrides["print_summary"] = lambda e, st, f, a, k, n: NONE
    stp = setup or setup_with(sc, values, layer_cue=layer_cue)
    sim = sc.call(sc.name("gcode_interpreter", "simulation"), const(name) if isinstance(name, str) else name, initial_machine_setup=stp, output_unit_system=const(unit))
    sc.e.overrides.clear()
    sc.e.overrides.update(old)
    if sim is None:
        raise RuntimeError("simulation not derivable: " + "; ".join(sc.e.notes[:3]))
    return sim


def item(sc, v, *path):
    for i in path:
        v = sc._run(sc.e.getitem, v, const(i), None) if v is not None else None
    return v


def ask(sc, obj, name, *a, **kw):
    return sc.meth(obj, name, *a, **kw)


# ------------------------------------------------------------------ Q01
def q01(lab):
    wv, wp = lab.where("utils.segment.get_velocity"), lab.where("utils.segment.get_position")

    def scene(kind):
        sc = lab.scene(normalize=True)
        t0, d = sc.sym("t0"), (ZERO if kind == "zero" else sc.sym("d", "pos"))
        p, v0, v1 = sc.syms("px py pz pe"), sc.syms("ax ay az ae"), sc.syms("bx by bz be")
        if kind == "constant":
            v1 = v0
        if kind == "zero":
            v1 = v0
        return sc, Piece(sc, t0, d, p, v0, v1)

    def values():
        for kind in ("ramp", "constant"):
            sc, k = scene(kind)
            s = sc.sym("s", "nonneg")
            r = sc.sym("r", "nonneg")
            k2 = k
            # t = t0 + s, d = s + r
            sc2 = lab.scene(normalize=True)
            s, r = sc2.sym("s", "nonneg"), sc2.sym("r", "nonneg")
            t0 = sc2.sym("t0")
            v0, v1 = sc2.syms("ax ay az ae"), sc2.syms("bx by bz be")
            if kind == "constant":
                v1 = v0
            k2 = Piece(sc2, t0, add(s, r), sc2.syms("px py pz pe"), v0, v1)
            t = add(t0, s)
            inside = [LT(ZERO, add(s, r))]
            v = sc2.vec(ask(sc2, k2.ref, "get_velocity", t))
            p = sc2.vec(ask(sc2, k2.ref, "get_position", t))
            for i in range(4):
                wantv = add(k2.v0[i], div(mul(sub(k2.v1[i], k2.v0[i]), s), k2.d))
                wantp = add(k2.p0[i], mul(HALF, mul(s, add(k2.v0[i], wantv))))
                sc2.prove(f"{kind}: {AX[i]} velocity is linear", eq=(v[i], wantv), where=wv, assume=inside)
                sc2.prove(f"{kind}: {AX[i]} position is the integral of the velocity", eq=(p[i], wantp), where=wp, assume=inside)
            sc2.no_raise(f"{kind}: defined for every time of the segment", wv, assume=inside)

    lab.attempt("inside", wv, values)

    def bounds():
        for kind in ("ramp", "constant", "zero"):
            for end in ("begin", "end"):
                sc, k = scene(kind)
                t = k.t0 if end == "begin" else k.t1
                v = sc.vec(ask(sc, k.ref, "get_velocity", t))
                p = sc.vec(ask(sc, k.ref, "get_position", t))
                for i in range(4):
                    sc.prove(f"{kind}: {AX[i]} velocity at the {end}", eq=(v[i], (k.v0 if end == "begin" else k.v1)[i]), where=wv)
                    sc.prove(f"{kind}: {AX[i]} position at the {end}", eq=(p[i], (k.p0 if end == "begin" else k.p1)[i]), where=wp)
                sc.no_raise(f"{kind}: defined at the {end}", wv)

    lab.attempt("boundaries", wv, bounds)

    def outside():
        for kind in ("ramp", "zero"):
            for m, w in (("get_velocity", wv), ("get_position", wp)):
                for side in ("before", "after"):
                    sc, k = scene(kind)
                    e = sc.sym("eps", "pos")
                    t = sub(k.t0, e) if side == "before" else add(k.t1, e)
                    r = ask(sc, k.ref, m, t)
                    refused(sc, lab, f"{kind}: {m} {side} the segment is refused", w, r, ("ValueError",))

    lab.attempt("outside", wv, outside)

    def more():
        sc, k = scene("ramp")
        w = lab.where("utils.segment.is_extruding")
        sc.prove("extruding exactly if filament moves forward", cond=IFF(truth(sc, ask(sc, k.ref, "is_extruding")), LT(k.p0[3], k.p1[3])), where=w)
        w = lab.where("utils.segment.get_segm_duration")
        sc.prove("duration", eq=(ask(sc, k.ref, "get_segm_duration"), k.d), where=w)
        w = lab.where("utils.segment.get_segm_len")
        sc.prove("length", eq=(ask(sc, k.ref, "get_segm_len"), norm([sub(b, a) for a, b in zip(k.p0[:3], k.p1[:3])])), where=w)
        w = lab.where("utils.segment.move_segment_time")
        sc, k = scene("ramp")
        dt, s, r = sc.sym("dt"), sc.sym("s", "nonneg"), sc.sym("r", "nonneg")
        ask(sc, k.ref, "move_segment_time", dt)
        for m, vals in (("begin", (k.v0, k.p0)), ("end", (k.v1, k.p1))):
            t = add(dt, k.t0 if m == "begin" else k.t1)
            v, p = sc.vec(ask(sc, k.ref, "get_velocity", t)), sc.vec(ask(sc, k.ref, "get_position", t))
            for i in range(4):
                sc.prove(f"moved in time: {AX[i]} velocity at the {m}", eq=(v[i], vals[0][i]), where=w)
                sc.prove(f"moved in time: {AX[i]} position at the {m}", eq=(p[i], vals[1][i]), where=w)
        sc.no_raise("moved in time: defined at the shifted bounds", w)

    lab.attempt("figures", wv, more)


def truth(sc, v):
    return sc.e.truth(v, sc.st) if v is not None else None


def refused(sc, lab, name, where, result, kinds=("ValueError",), assume=()):
    """The call never completes normally, and fails with one of the given errors."""
    if result is None and sc.dead:
        ok = True
        lab.structural(name, True, where, "")
    else:
        ok = sc.prove(name, cond=FALSE, where=where, assume=assume)
    if ok and kinds:
        names = {n for pc, n, x in sc.raises() if pc is not FALSE}
        lab.structural(name + ": with the right error", True if names & set(kinds) else None, where, f"fails with {sorted(names)}")


# ------------------------------------------------------------------ Q02
def q02(lab):
    w = lab.where("gcode_interpreter.find_current_segment")
    wg = lab.where("gcode_interpreter.simulation.get_values")

    def lookup(n, keep, dur):
        base = None
        for last in [None] + list(range(n + 2)):
            sc = lab.scene(normalize=True)
            ps = pieces(sc, n, dur)
            path = sc.list([k.ref for k in ps])
            t = sc.sym("t", "nonneg")
            inside = [LE(t, ps[-1].t1)]
            f = sc.name("gcode_interpreter", "find_current_segment")
            r = sc.call(f, path, t, NONE if last is None else const(last), *([TRUE] if keep else []))
            nm = f"{n} segments{' of any duration' if dur == 'nonneg' else ''}, previous index {last}{', keeping position' if keep else ''}"
            if r is None:
                lab.structural(nm + ": found", None if not sc.dead else False, w, "the lookup never succeeds")
                continue
            seg, idx = item(sc, r, 0), item(sc, r, 1)
            tb, te = sc.get(seg, "t_begin"), sc.get(seg, "t_end")
            sc.no_raise(nm + ": no failure", w, assume=inside)
            if tb is None or te is None:
                lab.undecided(nm, w, "segment not derivable")
                continue
            sc.prove(nm + ": found segment begins before", cond=LE(tb, t), where=w, assume=inside)
            sc.prove(nm + ": found segment ends after", cond=LE(t, te), where=w, assume=inside)
            sc.prove(nm + ": index of the found segment", cond=OR(*[AND(EQ(idx, const(i)), mk("eq", *sorted((seg, k.ref), key=lambda x: x.id)) if seg is not k.ref else EQ(idx, const(i))) for i, k in enumerate(ps)])
                     if False else OR(*[AND(EQ(idx, const(i)), EQ(tb, k.t0), EQ(te, k.t1)) for i, k in enumerate(ps)]), where=w, assume=inside)
            if base is None:
                base = idx
            else:
                sc.prove(nm + ": same result as without history", eq=(idx, base), where=w, assume=inside)

    for n in (1, 2, 3):
        for keep in (False, True):
            lab.attempt(f"lookup {n} {keep}", w, lambda: lookup(n, keep, "pos"))
    lab.attempt("lookup zero durations", w, lambda: lookup(3, False, "nonneg"))
    if lab.tier == "thorough":
        lab.attempt("lookup 5", w, lambda: lookup(5, False, "pos"))

    def history():
        for n, ask1 in ((2, 1), (3, 1), (2, 2)):
            sc = lab.scene(normalize=True)
            blocks, per, st = motion(sc, [1] * n, axes="x")
            end = per[-1][-1].t1
            ts = [sc.sym(f"t{i}", "nonneg") for i in range(ask1 + 1)]
            inside = [LE(t, end) for t in ts]
            s2 = sc.fork()
            a = ask(s2, simulate(s2, blocks, st), "get_values", ts[-1])
            sim = simulate(sc, blocks, st)
            b = None
            for t in ts:
                b = ask(sc, sim, "get_values", t)
            nm = f"{n} moves, value after {ask1} earlier question(s)"
            if a is None or b is None:
                lab.undecided(nm, wg, "not derivable")
                continue
            for q, what in ((0, "velocity"), (1, "position")):
                sc.prove(f"{nm}: same {what}", eq=(item(sc, b, q, 0), item(s2, a, q, 0)), where=wg, assume=inside + [s2.st.pc])
            sc.no_raise(nm + ": no failure", wg, assume=inside)

    lab.attempt("history", wg, history)

    def values():
        for n in (1, 3):
            sc = lab.scene(normalize=True)
            blocks, per, st = motion(sc, [n], axes="xe")
            flat = [k for b in per for k in b]
            for j, k in enumerate(flat):
                s2 = sc.fork()
                s, r = s2.sym(f"s{j}", "nonneg"), None
                t = add(k.t0, s)
                inside = [LE(s, k.d)]
                sim = simulate(s2, blocks, st)
                v = ask(s2, sim, "get_values", t)
                if v is None:
                    lab.undecided(f"{n} segments, in segment {j}", wg, "not derivable")
                    continue
                for i in (0, 3):
                    wv = add(k.v0[i], div(mul(sub(k.v1[i], k.v0[i]), s), k.d))
                    s2.prove(f"{n} segments, in segment {j}: {AX[i]} velocity", eq=(item(s2, v, 0, i), wv), where=wg, assume=inside)
                    s2.prove(f"{n} segments, in segment {j}: {AX[i]} position", eq=(item(s2, v, 1, i), add(k.p0[i], mul(HALF, mul(s, add(k.v0[i], wv))))), where=wg, assume=inside)
                s2.no_raise(f"{n} segments, in segment {j}: no failure", wg, assume=inside)

    lab.attempt("values", wg, values)


# ------------------------------------------------------------------ Q03
def q03(lab):
    wg = lab.where("gcode_interpreter.simulation.get_values")
    ws = lab.where("gcode_interpreter.simulation.get_scaling_factor")
    we = lab.where("gcode_interpreter.simulation.extrusion_extent")
    wm = lab.where("gcode_interpreter.simulation.extrusion_max_vel")

    def values(unit, sim_unit):
        def go():
            sc = lab.scene(normalize=True)
            blocks, per, st = motion(sc, [1])
            k = per[0][0]
            sim = simulate(sc, blocks, st, sim_unit)
            fac = const(UNITS[unit or sim_unit])
            kw = {"output_unit_system": const(unit)} if unit else {}
            nm = f"{unit or 'default'} units of a simulation in {sim_unit}"
            for end, t, v, p in (("begin", k.t0, k.v0, k.p0), ("end", k.t1, k.v1, k.p1)):
                r = ask(sc, sim, "get_values", t, **kw)
                for i in range(4):
                    sc.prove(f"{nm}: {AX[i]} velocity at the {end}", eq=(item(sc, r, 0, i), mul(fac, v[i])), where=wg)
                    sc.prove(f"{nm}: {AX[i]} position at the {end}", eq=(item(sc, r, 1, i), mul(fac, p[i])), where=wg)
            sc.prove(f"{nm}: factor", eq=(ask(sc, sim, "get_scaling_factor", **kw), fac), where=ws)
            # all lengths of a move that extrudes
            s2 = lab.scene(normalize=True)
            A, B = [const(x) for x in (1, -2, 3, 0)], [const(x) for x in (4, 2, 3, 5)]
            ps = plain_settings(s2)
            sA, sB = make_state(s2, A, ps), make_state(s2, B, ps)
            link(s2, sA, sB)
            d = const(1)
            v = [sub(y, x) for x, y in zip(A, B)]
            b = block(s2, sA, sB, [Piece(s2, ZERO, d, A, v, v).ref])
            sim = simulate(s2, [b], [sA, sB], sim_unit)
            ext = ask(s2, sim, "extrusion_extent", **kw)
            for i in range(3):
                lo, hi = sorted((A[i].args[0], B[i].args[0]))
                for j, x in ((0, lo), (1, hi)):
                    s2.prove(f"{nm}: extent {'max' if j else 'min'} {AX[i]}", eq=(item(s2, item(s2, ext, j), i), mul(fac, const(x))), where=we)
            s2.prove(f"{nm}: maximum velocity", eq=(ask(s2, sim, "extrusion_max_vel", **kw), mul(fac, const(5))), where=wm)
            s2.no_raise(f"{nm}: no failure", wg)

        lab.attempt(f"{unit} {sim_unit}", wg, go)

    for sim_unit in UNITS:
        for unit in (None,) + tuple(UNITS):
            values(unit, sim_unit)

    def reciprocal():
        w = lab.where("gcode_interpreter.setup.set_initial_position")
        for unit in UNITS:
            sc = lab.scene(normalize=True)
            stp = setup_with(sc)
            x = sc.syms("x y z e")
            s2 = sc
            sc.meth(stp, "set_initial_position", sc.list(x, "tuple") if False else mk("tuple", *x), input_unit_system=const(unit))
            d = sc.meth(stp, "get_dict")
            sim = None
            got = [sc._run(sc.e.getitem, d, const(k), None) for k in "XYZE"]
            for i in range(4):
                sc.prove(f"{unit}: input and output factor are reciprocal ({AX[i]})", eq=(mul(got[i], const(UNITS[unit])), x[i]), where=w)

    lab.attempt("reciprocal", ws, reciprocal)

    def series():
        w = lab.where("abaqus_file_generator.generate_abaqus_event_series")
        for sim_unit, unit in [(s, u) for s in UNITS for u in (None,) + tuple(UNITS)]:
            sc = lab.scene(normalize=True)
            blocks, per, st = motion(sc, [2])
            sim = simulate(sc, blocks, st, sim_unit)
            fac = const(UNITS[unit or sim_unit])
            kw = {"output_unit_system": const(unit)} if unit else {}
            r = sc.call(sc.name("abaqus_file_generator", "generate_abaqus_event_series"), sim, const("out.inp"), **kw)
            if r is None:
                lab.undecided(f"event series {unit} {sim_unit}", w, "not derivable")
                continue
            pts = [(per[0][0].t0, per[0][0].p0)] + [(k.t1, k.p1) for k in per[0]]
            for j, (t, p) in enumerate(pts):
                sc.prove(f"event series, {unit or 'default'} of {sim_unit}, row {j}: time is not scaled", eq=(item(sc, r, j, 0), t), where=w)
                for i in range(3):
                    sc.prove(f"event series, {unit or 'default'} of {sim_unit}, row {j}: {AX[i]} scaled once", eq=(item(sc, r, j, 1 + i), mul(fac, p[i])), where=w)

    lab.attempt("event series", wg, series)

    def reports():
        from .exports import Output
        from .settings import snapshot

        w = lab.where("gcode_interpreter.simulation.save_summary")
        wl, wt = lab.where("tools.save_layer_metrics"), lab.where("tools.write_submodel_times")
        for sim_unit in UNITS:
            sc = lab.scene(normalize=True)
            A, B = [const(x) for x in (1, -2, 3, 0)], [const(x) for x in (4, 2, 3, 5)]
            ps = plain_settings(sc)
            sA, sB = make_state(sc, A, ps), make_state(sc, B, ps)
            link(sc, sA, sB)
            v = [sub(y, x) for x, y in zip(A, B)]
            b = block(sc, sA, sB, [Piece(sc, ZERO, const(1), A, v, v).ref])
            for x in (sA, sB):
                sc.set(x, "layer", ZERO)
            sim = simulate(sc, [b], [sA, sB], sim_unit, layer_cue=const("LAYER"))
            fac = const(UNITS[sim_unit])
            nm = f"simulation in {sim_unit}"
            out = Output(sc)
            ask(sc, sim, "save_summary", const("out/summary.yaml"))
            out.stop()
            snap = out.dumps[-1][2] if len(out.dumps) == 1 else None
            if isinstance(snap, tuple) and snap[0] == "dict":
                data = {cval(k): x for k, g, x in snap[1:] if is_const(k) and isinstance(x, T)}
                want = {"t_end": const(1), "x_min": mul(fac, const(1)), "x_max": mul(fac, const(4)), "y_min": mul(fac, const(-2)), "y_max": mul(fac, const(2)),
                        "z_min": mul(fac, const(3)), "z_max": mul(fac, const(3)), "max_extrusion_travel_velocity": mul(fac, const(5))}
                for k, x in want.items():
                    if k in data:
                        sc.prove(f"{nm}: {k} of the summary", eq=(data[k], x), where=w)
            m = sc.call(sc.name("tools", "save_layer_metrics"), sim, NONE)
            if m is not None:
                for i, (k, x) in enumerate((("layer", ZERO), ("time", const(1)), ("distance", const(5)), ("speed", const(5)))):
                    if i:
                        sc.prove(f"{nm}: layer {k} is not scaled", eq=(item(sc, m, i, 0), x), where=wl)
            r = sc.call(sc.name("tools", "write_submodel_times"), sim, sc.list([const(x) for x in (4, 2, 3)]), const(3), const(100), const(100), filename=NONE)
            if r is not None:
                got = snapshot(sc, r)
                data = {cval(k): x for k, g, x in got[1:] if is_const(k)} if isinstance(got, tuple) and got[0] == "dict" else {}
                if isinstance(data.get("time_process"), T):
                    sc.prove(f"{nm}: end of the process is not scaled", eq=(data["time_process"], const(1)), where=wt)
                x = data.get("time_in")
                if isinstance(x, tuple) and x[0] == "list" and len(x) == 2 and x[1][0] is TRUE and isinstance(x[1][1], T):
                    sc.prove(f"{nm}: volume and time are not scaled", eq=(x[1][1], HALF), where=wt)

    lab.attempt("reports", wg, reports)


# ------------------------------------------------------------------ Q05
def q05(lab):
    w = lab.where("gcode_interpreter.simulation.get_width")

    def go(kind, unit):
        def run():
            sc = lab.scene(normalize=True)
            h, dia = sc.sym("h", "pos"), sc.sym("dia", "pos")
            if kind in ("along x", "in the plane", "in space", "backwards"):
                dirs = {"along x": [const(1), ZERO, ZERO], "in the plane": [F("3/5"), F("-4/5"), ZERO], "in space": [F("2/3"), F("1/3"), F("-2/3")], "backwards": [const(-1), ZERO, ZERO]}
                a, b = sc.sym("va", "nonneg"), sc.sym("vb", "nonneg")
                ratio = sc.sym("q")
                u = dirs[kind] + [ratio]
                v0, v1 = [mul(a, x) for x in u], [mul(b, x) for x in u]
            elif kind == "filament only":
                v0, v1 = [ZERO, ZERO, ZERO, sc.sym("ea")], [ZERO, ZERO, ZERO, sc.sym("eb")]
            else:
                v0 = v1 = [ZERO] * 4
            p = sc.syms("px py pz pe")
            k = Piece(sc, ZERO, sc.sym("d", "pos"), p, v0, v1)
            set_ = plain_settings(sc)
            A, B = make_state(sc, k.p0, set_), make_state(sc, k.p1, set_)
            link(sc, A, B)
            blk = block(sc, A, A, [k.ref])
            sim = simulate(sc, [blk], [A, B], unit)
            area = mul(PI, mul(F("1/4"), mul(dia, dia)))
            for end, t, v in (("begin", k.t0, v0), ("middle", mul(HALF, k.d), [mul(HALF, add(x, y)) for x, y in zip(v0, v1)]), ("end", k.t1, v1)):
                got = ask(sc, sim, "get_width", t, h, dia)
                f = norm(v[:3])
                nm = f"{kind}, {unit}, at the {end}"
                if v[0] is not ZERO:
                    sc.prove(f"{nm}: width times height times speed is the filament volume rate", eq=(got, div(mul(v[3], area), mul(h, f))), where=w, assume=[LT(ZERO, f)])
                sc.prove(f"{nm}: zero without travel", eq=(got, ZERO), where=w, assume=[EQ(f, ZERO)] if v[0] is not ZERO else [])
                sc.no_raise(f"{nm}: no failure", w)

        lab.attempt(f"width {kind} {unit}", w, run)

    for kind in ("along x", "in the plane", "in space", "backwards", "filament only", "standstill"):
        for unit in UNITS:
            go(kind, unit)


# ------------------------------------------------------------------ Q06
def q06(lab):
    we = lab.where("gcode_interpreter.simulation.extrusion_extent")
    wm = lab.where("gcode_interpreter.simulation.extrusion_max_vel")

    def scene(n, extrude, axis, signs):
        """n moves; extrude[i] in '+', '-', '0'; symbolic start and displacements of the given signs on one axis."""
        sc = lab.scene(normalize=True)
        ps = plain_settings(sc)
        pts = []
        e = ZERO
        es = [e]
        for i, c in enumerate(extrude):
            e = add(e, {"+": sc.sym(f"e{i}", "pos"), "-": mul(const(-1), sc.sym(f"e{i}", "pos")), "0": ZERO}[c])
            es.append(e)
        at = sc.sym("p0")
        for i in range(n + 1):
            if i:
                at = add(at, mul(const(signs[(i - 1) % len(signs)]), sc.sym(f"l{i}", "pos")))
            pts.append([at if j == axis else const(7 * i + j) for j in range(3)] + [es[i]])
        st = [make_state(sc, p, ps) for p in pts]
        for x, y in zip(st, st[1:]):
            link(sc, x, y)
        blocks, prev, t = [], None, ZERO
        vels = []
        for i in range(n):
            d = [sub(y, x) for x, y in zip(pts[i], pts[i + 1])]
            mid = [mul(HALF, add(x, y)) for x, y in zip(pts[i], pts[i + 1])]
            z = [ZERO] * 4
            v = d  # peak velocity of a move in two seconds
            segs = [Piece(sc, t, const(1), pts[i], z, v), Piece(sc, add(t, const(1)), const(1), mid, v, z)]
            t = add(t, const(2))
            prev = block(sc, st[i], st[i + 1], [s.ref for s in segs], prev)
            blocks.append(prev)
            vels.append(v)
        return sc, simulate(sc, blocks, st), pts, vels

    def extent(pattern, axis, signs=(1,)):
        def go():
            n = len(pattern)
            sc, sim, pts, vels = scene(n, pattern, axis, signs)
            ext = ask(sc, sim, "extrusion_extent")
            nm = f"moves {pattern} directions {signs}"
            use = [p for i, c in enumerate(pattern) if c == "+" for p in (pts[i], pts[i + 1])]
            if not use:
                refused(sc, lab, f"{nm}: no extent but an error", we, ext, ("ValueError",))
                return
            if ext is None:
                lab.structural(f"{nm}: extent {AX[axis]}", False if sc.dead else None, we, "extent of a printed part is refused")
                return
            for j in range(3):
                for k, op in ((0, "min"), (1, "max")):
                    got = item(sc, ext, k, j)
                    want = None
                    for p in use:
                        want = p[j] if want is None else ITE(LT(p[j], want) if op == "min" else LT(want, p[j]), p[j], want)
                    sc.prove(f"{nm}: {op} {AX[j]} (symbolic {AX[axis]})", eq=(got, want), where=we)
            sc.no_raise(f"{nm}: no failure", we)

        lab.attempt(f"extent {pattern} {axis} {signs}", we, go)

    for axis in range(3):
        for pattern in ("+", "0+", "+0", "+-", "-+0", "0+-+" if axis == 0 else "0+-"):
            for signs in ((1,), (-1,), (1, -1), (-1, 1)) if len(pattern) > 1 else ((1,), (-1,)):
                extent(pattern, axis, signs)
    for pattern in ("0", "-", "0-"):
        extent(pattern, 0)

    def unknown_sign():
        sc = lab.scene(normalize=True)
        a, b = sc.syms("a b", "pos")
        t, p, per = ZERO, [sc.sym("px"), ZERO, ZERO, sc.sym("pe")], []
        for i, x in enumerate((a, mul(const(-1), b))):
            v = [x, ZERO, ZERO, sc.sym(f"e{i}")]
            per.append([Piece(sc, t, const(1), p, v, v)])
            t, p = per[-1][0].t1, per[-1][0].p1
        set_ = plain_settings(sc)
        st = [make_state(sc, q, set_) for q in (per[0][0].p0, per[0][0].p1, per[1][0].p1)]
        for x, y in zip(st, st[1:]):
            link(sc, x, y)
        b0 = block(sc, st[0], st[1], [per[0][0].ref])
        sim = simulate(sc, [b0, block(sc, st[1], st[2], [per[1][0].ref], b0)], st)
        pts = [per[0][0].p0, per[0][0].p1, per[1][0].p1]
        ext = ask(sc, sim, "extrusion_extent")
        on = [LT(pts[i][3], pts[i + 1][3]) for i in range(2)]
        if ext is None:
            lab.undecided("any extrusion: extent", we, "not derivable")
            return
        for k, op in ((0, "min"), (1, "max")):
            got = item(sc, ext, k, 0)
            for i in range(2):
                for p in (pts[i], pts[i + 1]):
                    sc.prove(f"any extrusion: {op} covers move {i}", cond=LE(got, p[0]) if op == "min" else LE(p[0], got), where=we, assume=[on[i]])
            sc.prove(f"any extrusion: {op} is taken by an extruding move", cond=OR(*[AND(on[i], EQ(got, p[0])) for i in range(2) for p in (pts[i], pts[i + 1])]), where=we, assume=[OR(*on)])
        sc.prove("any extrusion: refused without extrusion", cond=OR(*on), where=we)

    lab.attempt("any extrusion", we, unknown_sign)

    def speeds(pattern):
        def go():
            n = len(pattern)
            sc, sim, pts, vels = scene(n, pattern, 0, (1, -1))
            got = ask(sc, sim, "extrusion_max_vel")
            nm = f"moves {pattern}"
            use = [norm(v[:3]) for c, v in zip(pattern, vels) if c == "+"]
            if not use:
                if got is None and sc.dead:
                    lab.structural(f"{nm}: maximum velocity is an error", True, wm, "")
                else:
                    sc.prove(f"{nm}: maximum velocity is an error", cond=FALSE, where=wm)
                return
            if got is None:
                lab.structural(f"{nm}: maximum velocity", False if sc.dead else None, wm, "maximum velocity of a printed part is refused")
                return
            for i, v in enumerate(use):
                sc.prove(f"{nm}: not below the speed of extruding move {i}", cond=LE(v, got), where=wm)
            sc.prove(f"{nm}: the speed of an extruding move", cond=OR(*[EQ(got, v) for v in use]), where=wm)
            sc.no_raise(f"{nm}: no failure", wm)

        lab.attempt(f"max {pattern}", wm, go)

    for pattern in ("+", "0+", "+0", "+-", "-+0", "0+-+", "0", "-", "0-"):
        speeds(pattern)

    def ramps():
        # one move whose segments have different peak speeds in different directions of time
        sc = lab.scene(normalize=True)
        u = [F("2/3"), F("-1/3"), F("2/3"), sc.sym("q", "pos")]
        s = [sc.sym(f"s{i}", "nonneg") for i in range(4)]
        v = [[mul(x, y) for y in u] for x in s]
        ps, t, p = [], ZERO, sc.syms("px py pz pe")
        for i in range(3):
            k = Piece(sc, t, const(1), p, v[i], v[i + 1])
            ps.append(k)
            t, p = k.t1, k.p1
        set_ = plain_settings(sc)
        sc.assume.append(LT(ZERO, total(s)))
        A, B = make_state(sc, ps[0].p0, set_), make_state(sc, add_vec(ps[0].p0, [const(2), const(-1), const(2), const(1)]), set_)
        link(sc, A, B)
        b = block(sc, A, B, [k.ref for k in ps])
        sim = simulate(sc, [b], [A, B])
        got = ask(sc, sim, "extrusion_max_vel")
        for i, x in enumerate(s):
            sc.prove(f"speed profile: not below the speed at vertex {i}", cond=LE(x, got), where=wm)
        sc.prove("speed profile: speed of a vertex", cond=OR(*[EQ(got, x) for x in s]), where=wm)

    lab.attempt("speed profile", wm, ramps)


def add_vec(a, b):
    return [add(x, y) for x, y in zip(a, b)]
