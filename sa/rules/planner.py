"""K01-K05, K07: planned moves."""
from .common import *  # noqa: F401,F403
from .common import EQ, LE, LT, Move, CONFIGS, DWELL, HALF, ZERO, AX, p_settings, make_state, link, segment, dot, norm, setup_with
from ..engine import add, sub, mul, div, sqrt
from ..terms import mk, const, TRUE, FALSE, NONE, AND, OR, NOT


def each(lab, fn, configs=CONFIGS):
    where = lab.where("planner_block.planner_block.move_maker2")
    for name, kw in configs:
        def go():
            m = Move(lab, **kw)
            if not m.ok or not m.segs:
                lab.undecided(name, where, "the planned move has no abstract segments: " + "; ".join(m.sc.e.notes[:3]))
                return
            fn(lab, m, name, where)

        lab.attempt(name, where, go)


def k01(lab):
    def rule(lab, m, name, where):
        sc = m.sc
        for i, (g, s) in enumerate(m.segs):
            for k in range(4):
                sc.prove(f"{name}: segment {i} {AX[k]} displacement = mean velocity * duration", where=where, assume=[g],
                         eq=(sub(s.pe[k], s.pb[k]), mul(mul(add(s.vb[k], s.ve[k]), s.dt), HALF)))
                for v, tag in ((s.vb, "begin"), (s.ve, "end")):
                    sc.prove(f"{name}: segment {i} {AX[k]} {tag} velocity along the move", where=where, assume=[g], eq=(v[k], mul(m.pick(v), m.dir[k])))
            for v, tag in ((s.vb, "begin"), (s.ve, "end")):
                sc.prove(f"{name}: segment {i} {tag} velocity not backwards", where=where, assume=[g], cond=LE(ZERO, m.pick(v)))
            sc.prove(f"{name}: segment {i} duration not negative", where=where, assume=[g], cond=LE(ZERO, s.dt))

    each(lab, rule)


def k02(lab):
    def rule(lab, m, name, where):
        sc = m.sc
        for g, i in m.firsts():
            for k in range(4):
                sc.prove(f"{name}: begins at the previous end, {AX[k]} [{i}]", where=where, assume=[g], eq=(m.segs[i][1].pb[k], m.a[k]))
        for g, i in m.lasts():
            for k in range(4):
                sc.prove(f"{name}: ends at its target, {AX[k]} [{i}]", where=where, assume=[g, m.unit], eq=(m.segs[i][1].pe[k], m.b[k]))
        for g, i, j in m.chain():
            for k in range(4):
                sc.prove(f"{name}: segments join, {AX[k]} [{i},{j}]", where=where, assume=[g], eq=(m.segs[i][1].pe[k], m.segs[j][1].pb[k]))
        sc.prove(f"{name}: has segments", where=where, assume=[m.unit], cond=OR(*[g for g, s in m.segs]))

    each(lab, rule)
    # a dwell on the line of the move keeps the move
    each(lab, rule, DWELL)


def k03(lab):
    def rule(lab, m, name, where):
        sc = m.sc
        for i, (g, s) in enumerate(m.segs):
            b, e = m.pick(s.vb), m.pick(s.ve)
            d = sub(e, b)
            sc.prove(f"{name}: segment {i} constant speed or configured acceleration", where=where, assume=[g],
                     cond=OR(EQ(b, e), EQ(d, mul(m.acc, s.dt)), EQ(d, sub(ZERO, mul(m.acc, s.dt)))))
        for g, i, j in m.chain():
            d1 = sub(m.pick(m.segs[i][1].ve), m.pick(m.segs[i][1].vb))
            d2 = sub(m.pick(m.segs[j][1].ve), m.pick(m.segs[j][1].vb))
            sc.prove(f"{name}: no acceleration after constant speed or deceleration [{i},{j}]", where=where, assume=[g, LE(d1, ZERO)], cond=LE(d2, ZERO))

    each(lab, rule)


def k04(lab):
    def rule(lab, m, name, where):
        sc = m.sc
        for i, (g, s) in enumerate(m.segs):
            for v, tag in ((s.vb, "begin"), (s.ve, "end")):
                # isclose admits a peak within its tolerance of the target speed
                lim = add(m.spd, add(mul(m.spd, const(1e-4)), const(1e-7)))
                sc.prove(f"{name}: segment {i} {tag} speed within the commanded speed", where=where, assume=[g], cond=LE(m.pick(v), lim))

    each(lab, rule)


def k05(lab):
    def rule(lab, m, name, where):
        sc = m.sc
        for g, i in m.firsts():
            s = m.segs[i][1]
            sc.prove(f"{name}: begins when the previous motion ended [{i}]", where=where, assume=[g], eq=(s.tb, m.t0))
            for k in range(4):
                sc.prove(f"{name}: begins where the previous motion ended, {AX[k]} [{i}]", where=where, assume=[g], eq=(s.pb[k], m.a[k]))
        for g, i, j in m.chain():
            p, q = m.segs[i][1], m.segs[j][1]
            sc.prove(f"{name}: no gap in time [{i},{j}]", where=where, assume=[g], eq=(p.te, q.tb))
            for k in range(4):
                sc.prove(f"{name}: no gap in position {AX[k]} [{i},{j}]", where=where, assume=[g], eq=(p.pe[k], q.pb[k]))
                sc.prove(f"{name}: no jump in velocity {AX[k]} [{i},{j}]", where=where, assume=[g], eq=(p.ve[k], q.vb[k]))
        for i, (g, s) in enumerate(m.segs):
            sc.prove(f"{name}: segment {i} does not run backwards", where=where, assume=[g], cond=LE(s.tb, s.te))

    each(lab, rule)
    each(lab, rule, DWELL)


def k07(lab):
    where = lab.where("junction_handling.junction_handling.connect_state")
    for kind in ("travel", "e+", "e-", "none"):
        def go():
            sc = lab.scene(normalize=True)
            acc, spd, jerk = sc.sym("acc", "pos"), sc.sym("spd", "pos"), sc.sym("jerk", "nonneg")
            # the two states differ in their settings: the move uses those of its own line
            ps0 = p_settings(sc, sc.sym("acc0", "pos"), sc.sym("jerk0", "nonneg"), sc.sym("spd0", "pos"))
            ps = p_settings(sc, acc, jerk, spd)
            a = sc.syms("ax ay az ae")
            if kind == "travel":
                L, u = sc.sym("L", "pos"), sc.syms("ux uy uz")
                sc.unit_vector(*u)
                de = sc.sym("de")
                disp = [mul(L, x) for x in u] + [de]
                want = [mul(spd, x) for x in u] + [div(mul(spd, de), L)]
            elif kind == "none":
                disp = want = [ZERO] * 4
            else:
                s = const(1 if kind == "e+" else -1)
                disp = [ZERO] * 3 + [mul(s, sc.sym("Le", "pos"))]
                want = [ZERO] * 3 + [mul(s, spd)]
            A = make_state(sc, a, ps0)
            B = make_state(sc, [add(x, y) for x, y in zip(a, disp)], ps)
            link(sc, A, B)
            j = sc.call(sc.name("junction_handling", "junction_handling"), A, B)
            v = sc.vec(sc.meth(j, "get_target_vel"))
            if not sc.no_raise(f"{kind}: velocity defined", where):
                return
            for k in range(4):
                sc.prove(f"{kind}: target velocity {AX[k]}", eq=(v[k], want[k]), where=where)
            if kind == "none":
                wb = lab.where("planner_block.planner_block.__init__")
                b = sc.call(sc.name("planner_block", "planner_block"), B, NONE)
                sc.no_raise("none: no failure", wb)
                its = sc.items(sc.meth(b, "get_segments"))
                lab.structural("none: no motion planned", len(its) == 0, wb, "a line without motion produces segments")

        lab.attempt(kind, where, go)


# ------------------------------------------------------------------ K06: correction
def hand_block(sc, tag, n=2, still=False, segs=None):
    """A planner block of a line without motion, given known segments afterwards."""
    ps = p_settings(sc, sc.sym("acc" + tag, "pos"), sc.sym("jerk" + tag, "nonneg"), sc.sym("spd" + tag, "pos"))
    pos = [ZERO] * 4
    A, B = make_state(sc, pos, ps), make_state(sc, pos, ps)
    link(sc, A, B)
    b = sc.call(sc.name("planner_block", "planner_block"), B, NONE)
    t = sc.sym(f"t0{tag}", "nonneg")
    ts = []
    out = []
    for i in range(n):
        d = sc.sym(f"d{i}{tag}", "pos")
        out.append(segment(sc, t, add(t, d), pos, pos, [ZERO] * 4, [ZERO] * 4))
        ts.append((t, add(t, d)))
        t = add(t, d)
    sc.set(b, "segments", sc.list(out))
    return b, ts


def times(sc, block):
    return [(g, sc.get(r, "t_begin"), sc.get(r, "t_end")) for g, r in sc.items(sc.meth(block, "get_segments"))]


def k06(lab):
    from .common import segment
    from ..engine import Inst

    w_shift = lab.where("planner_block.planner_block.timeshift")
    w_self = lab.where("planner_block.planner_block.self_correction")
    w_all = lab.where("gcode_interpreter.simulation.trajectory_self_correct")
    w_ref = lab.where("gcode_interpreter.simulation.refresh")
    w_gen = lab.where("gcode_interpreter.generate_planner_blocks")

    def shift():
        sc = lab.scene(normalize=True)
        b, ts = hand_block(sc, "a", 3)
        d = sc.sym("delta")
        before = [[sc.vec(sc.get(r, f)) for f in ("pos_begin", "pos_end", "vel_begin", "vel_end")] for g, r in sc.items(sc.meth(b, "get_segments"))]
        sc.meth(b, "timeshift", delta_t=d)
        after = times(sc, b)
        lab.structural("shift: same segments", len(after) == 3, w_shift, "shifting a block changes its list of segments")
        for i, (g, tb, te) in enumerate(after[:3]):
            sc.prove(f"shift: segment {i} begins shifted", eq=(tb, add(ts[i][0], d)), where=w_shift)
            sc.prove(f"shift: segment {i} ends shifted", eq=(te, add(ts[i][1], d)), where=w_shift)
        for i, (g, r) in enumerate(sc.items(sc.meth(b, "get_segments"))[:3]):
            for f, old in zip(("pos_begin", "pos_end", "vel_begin", "vel_end"), before[i]):
                for k in range(4):
                    sc.prove(f"shift: segment {i} {f} {AX[k]} unchanged", eq=(sc.get(sc.get(r, f), AX[k]), old[k]), where=w_shift)

    def joined(sc, name, b, c, where, durations=None, starts=None):
        last, nxt = times(sc, b)[-1], times(sc, c)
        sc.prove(f"{name}: next move begins when the corrected one ends", eq=(nxt[0][1], last[2]), where=where)
        if durations:
            for i, (g, tb, te) in enumerate(nxt):
                sc.prove(f"{name}: duration of the next move's segment {i} unchanged", eq=(sub(te, tb), durations[i]), where=where)
                if i:
                    sc.prove(f"{name}: next move stays gap-free [{i}]", eq=(nxt[i][1], nxt[i - 1][2]), where=where)

    def same():
        sc = lab.scene(normalize=True)
        b, tb = hand_block(sc, "b", 2)
        c, tc = hand_block(sc, "c", 3)
        sc.set(b, "next_block", c)
        sc.set(c, "prev_block", b)
        sc.meth(b, "self_correction")
        sc.no_raise("correction without replanning: no failure", w_self, allow=("NameError",))
        joined(sc, "correction without replanning", b, c, w_self, [sub(y, x) for x, y in tc])
        for i, (g, x, y) in enumerate(times(sc, b)):
            sc.prove(f"correction without replanning: own segment {i} keeps its begin", eq=(x, tb[i][0]), where=w_self)
            sc.prove(f"correction without replanning: own segment {i} keeps its end", eq=(y, tb[i][1]), where=w_self)

    def last():
        sc = lab.scene(normalize=True)
        b, tb = hand_block(sc, "b", 2)
        sc.meth(b, "self_correction")
        sc.no_raise("correction of the last move: no failure", w_self)
        for i, (g, x, y) in enumerate(times(sc, b)):
            sc.prove(f"correction of the last move: segment {i} unchanged", eq=(x, tb[i][0]), where=w_self)

    def replan():
        # a first move planned to end at its commanded speed, followed by a move that begins slower
        m = Move(lab, kind="e+", speeds="still=", first=True)
        sc = m.sc
        m2, tc = hand_block(sc, "c", 2)
        sc.set(m.block, "next_block", m2)
        sc.set(m2, "prev_block", m.block)
        sc.meth(m.block, "self_correction")
        its = times(sc, m.block)
        nb = times(sc, m2)[0][1]
        for i, (g, x, y) in enumerate(its):
            c = AND(g, *[NOT(h) for h, _, _ in its[i + 1:]])
            if c is FALSE:
                continue
            sc.prove(f"correction with replanning: next move begins when the corrected one ends [{i}]", eq=(nb, y), where=w_self, assume=[c])

    def chain(sc, name, blocks, where):
        for i in range(len(blocks) - 1):
            l, n = times(sc, blocks[i])[-1], times(sc, blocks[i + 1])[0]
            sc.prove(f"{name}: move {i + 1} begins when move {i} ends", eq=(n[1], l[2]), where=where)
        f = times(sc, blocks[0])[0]
        return f

    def blocks(sc, n):
        bs = [hand_block(sc, t, k) for t, k in zip("pqrs"[:n], (1, 2, 1, 2))]
        out = [b for b, _ in bs]
        for x, y in zip(out, out[1:]):
            sc.set(x, "next_block", y)
            sc.set(y, "prev_block", x)
        return out

    def bare_sim(sc):
        cls = sc.name("gcode_interpreter", "simulation")
        return sc.e.alloc(sc.st, Inst(cls.args[0], {}))

    def all_blocks():
        for n in (1, 2, 3, 4):
            sc = lab.scene(normalize=True)
            bs = blocks(sc, n)
            sim = bare_sim(sc)
            sc.set(sim, "blocklist", sc.list(bs))
            sc.meth(sim, "trajectory_self_correct")
            sc.no_raise(f"all moves corrected ({n}): no failure", w_all, allow=("NameError",))
            chain(sc, f"all moves corrected ({n})", bs, w_all)

    def refresh():
        for given in (False, True):
            sc = lab.scene(normalize=True)
            bs = blocks(sc, 3)
            got = []

            def gen(e, st, f, args, kwargs, node):
                got.append((list(args), dict(kwargs)))
                return sc.list(bs)

            sc.e.overrides["generate_planner_blocks"] = gen
            sim = bare_sim(sc)
            s_old, s_new = sc.list([const("old state")]), sc.list([const("new state")])
            sc.set(sim, "states", s_old)
            sc.set(sim, "firmware", const("klipper"))
            sc.set(sim, "initial_machine_setup", sc.dict([(const("firmware"), const("klipper"))]))
            if given:
                sc.meth(sim, "refresh", new_state_list=s_new)
            else:
                sc.meth(sim, "refresh")
            sc.no_raise("refresh: no failure", w_ref, allow=("NameError",))
            want = s_new if given else s_old
            tag = "new states" if given else "same states"
            content = lambda r: [v for g, v in sc.items(r)]  # noqa: E731
            planned = [(a + [k.get("states")])[0] for a, k in got]
            lab.structural(f"refresh ({tag}): the given states are planned", bool(planned) and content(planned[-1]) == content(want), w_ref, "refresh plans other states than the given ones")
            lab.structural(f"refresh ({tag}): states kept", content(sc.get(sim, "states")) == content(want), w_ref, "refresh does not keep the state list it simulates")
            chain(sc, f"refresh ({tag})", bs, w_ref)

    def init():
        sc = lab.scene(normalize=True)
        bs = blocks(sc, 3)
        sc.e.overrides["generate_planner_blocks"] = lambda e, st, f, a, k, n: sc.list(bs)
        sc.e.overrides["generate_states"] = lambda e, st, f, a, k, n: sc.list([])
        sc.e.overrides["check_initial_setup"] = lambda e, st, f, a, k, n: NONE
        w = lab.where("gcode_interpreter.simulation.__init__")
        stp = setup_with(sc)
        sim = sc.call(sc.name("gcode_interpreter", "simulation"), const("part.gcode"), initial_machine_setup=stp)
        if sim is None:
            lab.undecided("simulation", w, "constructor not analysable")
            return
        chain(sc, "simulation", bs, w)

    def generate():
        # every block is linked to the previous one that moves, so that a correction reaches it
        sc = lab.scene(normalize=True)
        ps = p_settings(sc, sc.sym("acc", "pos"), sc.sym("jerk", "nonneg"), sc.sym("spd", "pos"))
        P = [[ZERO] * 4]
        for i, d in enumerate((1, 0, 2, 0, 0, 3)):
            P.append([add(P[-1][0], const(d))] + [ZERO] * 3)
        states = [make_state(sc, p, ps) for p in P]
        for x, y in zip(states, states[1:]):
            link(sc, x, y)

        def mm(e, st, f, args, kwargs, node):
            b = args[0]
            t0 = sc.sym(f"t{len(made)}", "nonneg")
            made.append(b)
            z = [ZERO] * 4
            sc2 = sc.fork()
            sc2.st = st
            e.setattr(st, b, "segments", sc2.list([segment(sc2, t0, t0, z, z, z, z)]))
            return NONE

        made = []
        sc.e.overrides["move_maker2"] = mm
        r = sc.call(sc.name("gcode_interpreter", "generate_planner_blocks"), sc.list(states))
        its = [v for g, v in sc.items(r)]
        lab.structural("planning: one block per line that moves", len(its) == 3, w_gen, f"{len(its)} blocks for 3 lines that move")
        if len(its) != 3:
            return
        for i, b in enumerate(its):
            p, n = sc.get(b, "prev_block"), sc.get(b, "next_block")
            lab.structural(f"planning: block {i} knows the previous block", p is (its[i - 1] if i else NONE), w_gen, f"block {i} refers to a wrong previous block")
            lab.structural(f"planning: block {i} knows the next block", n is (its[i + 1] if i < 2 else NONE), w_gen, f"block {i} refers to a wrong next block")

    for name, w, fn in [("shift", w_shift, shift), ("correction without replanning", w_self, same), ("correction of the last move", w_self, last),
                        ("correction with replanning", w_self, replan), ("all moves corrected", w_all, all_blocks), ("refresh", w_ref, refresh),
                        ("simulation", w_all, init), ("planning", w_gen, generate)]:
        lab.attempt(name, w, fn)
