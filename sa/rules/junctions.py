"""J01-J06: the speed at a corner."""
import os
import re
from fractions import Fraction

from .common import *  # noqa: F401,F403
from .common import EQ, IFF, LE, LT, ZERO, HALF, AX, p_settings, make_state, link, dot, norm, total, setup_with, segment
from ..engine import add, sub, mul, div, sqrt, absolute, power
from ..terms import mk, const, TRUE, FALSE, NONE, AND, OR, NOT, ITE, show

FIRMWARES = ("marlin_jd", "marlin_jerk", "klipper", "MKA")
WHERE = {
    "marlin_jd": "junction_handling.junction_handling_marlin_jd.calc_JD",
    "marlin_jerk": "junction_handling.junction_handling_marlin_jerk.calc_j_vel",
    "klipper": "junction_handling.junction_handling_klipper.calc_j_vel",
    "MKA": "junction_handling.junction_handling_MKA.calc_j_vel",
}


def F(s):
    return const(Fraction(s))


class Corner:
    """Move A -> B (direction u, length L, commanded speed spd) followed by B -> C (direction w, length M, speed nspd)."""

    def __init__(self, lab, u=None, w=None, firmware="marlin_jd", still=0, third=True, jerk=None, de=None, same_speed=False, cond=None):
        sc = self.sc = lab.scene(normalize=True)
        self.acc, self.spd = sc.sym("acc", "pos"), sc.sym("spd", "pos")
        self.jerk = jerk(sc) if jerk else sc.sym("jerk", "pos")
        self.nspd = self.spd if same_speed else sc.sym("nspd", "pos")
        self.L, self.M = sc.sym("L", "pos"), sc.sym("M", "pos")
        if callable(u):
            u = u(sc)
        if callable(w):
            w = w(sc)
        if u is None:
            u = sc.syms("ux uy uz")
            sc.unit_vector(*u)
        if w is None:
            w = sc.syms("wx wy wz")
            sc.unit_vector(*w)
        self.u, self.w = u, w
        de = de or (sc.sym("de0"), sc.sym("de1"))
        self.e0, self.e1 = de
        a = sc.syms("ax ay az ae")
        b = [add(x, mul(self.L, y)) for x, y in zip(a, u)] + [add(a[3], de[0])]
        c = [add(x, mul(self.M, y)) for x, y in zip(b, w)] + [add(b[3], de[1])]
        ps = p_settings(sc, self.acc, self.jerk, self.spd)
        other = lambda t: p_settings(sc, sc.sym("acc" + t, "pos"), sc.sym("jerk" + t, "pos"), sc.sym("spd" + t, "pos"))  # noqa: E731
        states = [make_state(sc, a, other("A")), make_state(sc, b, ps)]
        for i in range(still):
            states.append(make_state(sc, b, other(f"S{i}")))
        if third:
            states.append(make_state(sc, c, p_settings(sc, sc.sym("accC", "pos"), sc.sym("jerkC", "pos"), self.nspd)))
        for x, y in zip(states, states[1:]):
            link(sc, x, y)
        self.states = states
        self.v0 = [mul(self.spd, x) for x in u] + [div(mul(self.spd, de[0]), self.L)]
        self.v1 = [mul(self.nspd, x) for x in w] + [div(mul(self.nspd, de[1]), self.M)]
        self.speed, self.models = plan_speed(sc, states[1], firmware)
        self.ok = self.speed is not None


def plan_speed(sc, state, firmware):
    """Speed with which the planner wants the move to `state` to end, and the functions that delivered it."""
    got, models = [], []

    def mm(e, st, f, args, kwargs, node):
        got.append(kwargs["v_end"] if "v_end" in kwargs else args[1])
        z = [ZERO] * 4
        s2 = sc.fork()
        s2.st = st
        e.setattr(st, args[0], "segments", s2.list([segment(s2, ZERO, ZERO, z, z, z, z)]))
        return NONE

    def gj(e, st, f, args, kwargs, node):
        models.append(f.qualname if hasattr(f, "qualname") else str(f))
        return NotImplemented

    old = dict(sc.e.overrides)
    sc.e.overrides["move_maker2"] = mm
    sc.e.overrides["get_junction_vel"] = gj
    b = sc.call(sc.name("planner_block", "planner_block"), state, NONE, firmware=const(firmware) if firmware is not None else NONE)
    sc.e.overrides.clear()
    sc.e.overrides.update(old)
    if b is None or not got:
        return None, models
    return got[-1], models


def planar(c=None):
    """Directions with a known angle: u along x, w = (c, s, 0)."""
    return lambda sc: [const(1), ZERO, ZERO]


SIN81 = Fraction("0.98768834059513772619")
SIN9 = Fraction("0.15643446504023086901")
TOL = Fraction(1, 10**7)


def half_sine(u, w):
    """s with s^2 = (1 + u.w)/2: half-angle sine of the corner."""
    return sqrt(mul(HALF, add(const(1), dot(u, w))))


def sweep(lab, where, name, fn, **kw):
    """The corner in general position and in the coordinate planes."""
    shapes = {
        "any directions": {},
        "from +x": dict(u=lambda sc: [const(1), ZERO, ZERO]),
        "from -y": dict(u=lambda sc: [ZERO, const(-1), ZERO]),
        "from z": dict(u=lambda sc: [ZERO, ZERO, const(1)]),
        "right angle": dict(u=lambda sc: [const(1), ZERO, ZERO], w=lambda sc: [ZERO, const(1), ZERO]),
        "60 degrees in space": dict(u=lambda sc: [F("2/3"), F("2/3"), F("1/3")], w=lambda sc: [F("-1/3"), F("2/3"), F("2/3")]),
        "straight": dict(u=lambda sc: [F("3/5"), F("4/5"), ZERO], w=lambda sc: [F("3/5"), F("4/5"), ZERO]),
        "reversal": dict(u=lambda sc: [F("3/5"), F("4/5"), ZERO], w=lambda sc: [F("-3/5"), F("-4/5"), ZERO]),
        "slight bend": dict(u=lambda sc: [const(1), ZERO, ZERO], w=lambda sc: [F("4/5"), ZERO, F("3/5")]),
        "sharp bend": dict(u=lambda sc: [const(1), ZERO, ZERO], w=lambda sc: [F("-4/5"), F("3/5"), ZERO]),
        "nearly reversed": dict(u=lambda sc: [const(1), ZERO, ZERO], w=lambda sc: [F("-399/401"), F("40/401"), ZERO]),
        "nearly straight": dict(u=lambda sc: [const(1), ZERO, ZERO], w=lambda sc: [F("399/401"), F("40/401"), ZERO]),
    }
    for sh, a in shapes.items():
        def go():
            c = Corner(lab, **{**a, **kw})
            n = f"{name}: {sh}"
            if not c.ok:
                lab.undecided(n, where, "planned corner speed not derivable: " + "; ".join(c.sc.e.notes[:3]))
                return
            fn(c, n)

        lab.attempt(f"{name}: {sh}", where, go)


def nobody(lab, fw, where):
    """No neighbour move: stop."""
    def go():
        c = Corner(lab, firmware=fw, third=False)
        if c.ok:
            c.sc.prove("no following move: stop", eq=(c.speed, ZERO), where=where)

    lab.attempt("no following move", where, go)


def j02(lab):
    where = lab.where(WHERE["marlin_jd"])

    def formula(c, n):
        sc = c.sc
        s = half_sine(c.u, c.w)
        hi, lo = const(SIN81), const(SIN9)
        inside = [LE(s, const(SIN81 - TOL)), LE(const(SIN9 + TOL), s)]
        R = div(mul(div(mul(F("0.4"), mul(c.jerk, c.jerk)), c.acc), s), sub(const(1), s))
        v = sqrt(mul(c.acc, R))
        sc.prove(f"{n}, formula", eq=(c.speed, ITE(LT(v, c.spd), v, c.spd)), where=where, assume=inside)
        sc.prove(f"{n}, straight passes at full speed", eq=(c.speed, c.spd), where=where, assume=[LE(const(SIN81 + TOL), s)])
        sc.prove(f"{n}, sharp corner stops", eq=(c.speed, ZERO), where=where, assume=[LE(s, const(SIN9 - TOL))])
        sc.prove(f"{n}, never above the commanded speed", cond=LE(c.speed, c.spd), where=where)
        sc.no_raise(f"{n}: no failure", where)

    sweep(lab, where, "corner", formula, firmware="marlin_jd")

    def zero(c, n):
        c.sc.prove(f"{n}, stops", eq=(c.speed, ZERO), where=where)

    sweep(lab, where, "zero jerk", zero, firmware="marlin_jd", jerk=lambda sc: ZERO)
    nobody(lab, "marlin_jd", where)


def j03(lab):
    where = lab.where(WHERE["marlin_jerk"])

    def formula(c, n):
        sc = c.sc
        jump = norm([sub(x, y) for x, y in zip(c.v0[:3], c.v1[:3])])
        lim = mul(const(2), c.jerk)
        sc.prove(f"{n}, small jump passes at full speed", eq=(c.speed, c.spd), where=where, assume=[LE(jump, lim)])
        sc.prove(f"{n}, large jump is scaled", eq=(c.speed, div(mul(c.spd, lim), jump)), where=where, assume=[LT(lim, jump)])
        sc.no_raise(f"{n}: no failure", where)

    sweep(lab, where, "corner", formula, firmware="marlin_jerk")
    sweep(lab, where, "corner, equal speeds", formula, firmware="marlin_jerk", same_speed=True)

    def zero(c, n):
        jump = norm([sub(x, y) for x, y in zip(c.v0[:3], c.v1[:3])])
        c.sc.prove(f"{n}, any change of velocity stops", eq=(c.speed, ZERO), where=where, assume=[LE(F("0.001"), jump)])

    sweep(lab, where, "zero jerk", zero, firmware="marlin_jerk", jerk=lambda sc: ZERO)

    def last():
        c = Corner(lab, firmware="marlin_jerk", third=False)
        lim = mul(const(2), c.jerk)
        c.sc.prove("no following move: jump from the commanded speed", eq=(c.speed, ITE(LE(c.spd, lim), c.spd, lim)), where=where)

    lab.attempt("no following move", where, last)


def j04(lab):
    where = lab.where(WHERE["klipper"])

    def formula(c, n):
        sc = c.sc
        cos = sub(ZERO, dot(c.u, c.w))
        big = F("0.999999")
        delta = div(mul(mul(c.jerk, c.jerk), sub(sqrt(const(2)), const(1))), c.acc)

        def speed2(cs):
            s = sqrt(mul(HALF, sub(const(1), cs)))
            R = div(mul(delta, s), sub(const(1), s))
            tan = div(s, sqrt(mul(HALF, add(const(1), cs))))
            return [mul(c.acc, R), mul(mul(HALF, mul(c.L, tan)), c.acc), mul(mul(HALF, mul(c.M, tan)), c.acc), mul(c.spd, c.spd)]

        b = speed2(cos)
        inside = [LT(sub(ZERO, F("0.999998")), cos), LT(cos, F("0.999998"))]
        sq = mul(c.speed, c.speed)
        for i, x in enumerate(b):
            others = [LT(x, y) for j, y in enumerate(b) if j != i]
            sc.prove(f"{n}, speed when bound {i} is the least", eq=(c.speed, sqrt(x)), where=where, assume=inside + others, max_time=3)
        sc.prove(f"{n}, reversal stops", eq=(c.speed, ZERO), where=where, assume=[LT(F("0.9999995"), cos)])
        sc.prove(f"{n}, never above the commanded speed", cond=LE(sq, mul(c.spd, c.spd)), where=where, max_time=2)
        sc.prove(f"{n}, not negative", cond=LE(ZERO, c.speed), where=where, max_time=2)
        sc.no_raise(f"{n}: no failure", where)

    sweep(lab, where, "corner", formula, firmware="klipper")
    nobody(lab, "klipper", where)


def mka(c):
    """The corner speed as the property states it: the slower speed, times limit/jump for every axis in turn whose jump,
    after the reductions so far, exceeds the limit.  Every factor has jump > limit >= 0, so the speed is within [0, slower]."""
    v0, v1 = norm(c.v0[:3]), norm(c.v1[:3])
    least = ITE(LT(v1, v0), v1, v0)
    small = ITE(LT(ZERO, least), div(least, v0), ZERO)
    f, hit = const(1), FALSE
    for a, b in zip(c.v0, c.v1):
        b = mul(b, small)
        a, b = ITE(hit, mul(a, f), a), ITE(hit, mul(b, f), b)
        neg = lambda t: mul(const(-1), t)  # noqa: E731
        up = ITE(OR(LT(ZERO, a), LT(b, ZERO)), sub(b, a), ITE(LT(neg(a), b), b, neg(a)))
        down = ITE(OR(LT(a, ZERO), LT(ZERO, b)), sub(a, b), ITE(LT(neg(b), a), a, neg(b)))
        j = ITE(LT(a, b), up, down)
        over = LT(c.jerk, j)
        f = ITE(over, div(mul(f, c.jerk), j), f)
        hit = OR(hit, over)
    return ITE(hit, mul(least, f), least)


def j05(lab):
    where = lab.where(WHERE["MKA"])

    limit = {}

    def formula(c, n):
        sc = c.sc
        sc.prove(f"{n}, slower speed reduced by limit/jump of each offending axis", eq=(c.speed, mka(c)), where=where, **limit)
        sc.no_raise(f"{n}: no failure", where)

    limit.update(max_time=2)
    sweep(lab, where, "corner without extrusion", formula, firmware="MKA", de=(ZERO, ZERO))
    for k in range(3):
        for s0 in (1, -1):
            for s1 in (1, -1):
                def along():
                    x = lambda s: (lambda sc: [const(s) if i == k else ZERO for i in range(3)])  # noqa: E731
                    for de, t in (((ZERO, ZERO), "travel"), (None, "extruding")):
                        limit.clear()
                        if de is None and k:
                            continue
                        if de is None:
                            limit.update(max_time=1.5)
                        c = Corner(lab, firmware="MKA", u=x(s0), w=x(s1), de=de)
                        n = f"{t} {'+' if s0 > 0 else '-'}{AX[k]} then {'+' if s1 > 0 else '-'}{AX[k]}"
                        if c.ok:
                            formula(c, n)
                        else:
                            lab.undecided(n, where, "planned corner speed not derivable")

                lab.attempt(f"along {AX[k]} {s0} {s1}", where, along)
    limit.update(max_time=1.5)  # in general position: search for a counterexample only
    sweep(lab, where, "corner", formula, firmware="MKA")
    limit.clear()

    # one offending axis
    def one(k, sgn):
        def go():
            x = lambda sc: [const(sgn) if i == k else ZERO for i in range(3)] if k < 3 else [const(1), ZERO, ZERO]  # noqa: E731
            stop = Corner(lab, firmware="MKA", u=x, w=(lambda sc: [const(-sgn) if i == k else ZERO for i in range(3)]) if k < 3 else x, de=(ZERO, ZERO) if k < 3 else None, same_speed=True)
            sc, c = stop.sc, stop
            if k < 3:  # a reversal on one axis: the jump counts per direction
                sc.prove(f"reversal of {AX[k]}: full speed within the limit", eq=(c.speed, c.spd), where=where, assume=[LE(c.spd, c.jerk)])
                sc.prove(f"reversal of {AX[k]}: reduced by limit/jump", eq=(c.speed, c.jerk), where=where, assume=[LT(c.jerk, c.spd)])
            else:
                je = absolute(sub(c.v0[3], c.v1[3]))
                sc.prove("extruder jump: full speed within the limit", eq=(c.speed, c.spd), where=where, assume=[LE(je, c.jerk), LT(ZERO, c.v0[3]), LT(ZERO, c.v1[3])])
                sc.prove("extruder jump: reduced by limit/jump", eq=(c.speed, div(mul(c.spd, c.jerk), je)), where=where, assume=[LT(c.jerk, je), LT(ZERO, c.v0[3]), LT(ZERO, c.v1[3])])

        lab.attempt(f"one offending axis {AX[k]}", where, go)

    for k in range(4):
        for sgn in (1, -1):
            one(k, sgn)

    def two():
        # a right angle: x stops, y starts; both jump by the speed
        c = Corner(lab, firmware="MKA", u=lambda sc: [const(1), ZERO, ZERO], w=lambda sc: [ZERO, const(1), ZERO], de=(ZERO, ZERO), same_speed=True)
        sc = c.sc
        sc.prove("right angle: full speed within the limit", eq=(c.speed, c.spd), where=where, assume=[LE(c.spd, c.jerk)])
        # x reduces by jerk/spd, y then jumps by exactly the limit
        sc.prove("right angle: each axis held to the limit", eq=(c.speed, c.jerk), where=where, assume=[LT(c.jerk, c.spd)])

    lab.attempt("two axes", where, two)
    nobody(lab, "MKA", where)


def j06(lab):
    where = lab.where("junction_handling.junction_handling.calc_vel_next")
    for fw in FIRMWARES:
        for n in (1, 2, 3, 5):
            def go():
                for e_only in (False, True):
                    kw = dict(firmware=fw, u=lambda sc: [const(1), ZERO, ZERO], w=lambda sc: [F("4/5"), F("3/5"), ZERO])
                    if e_only:  # the next line that moves changes only one axis, or the extruder
                        kw["w"] = lambda sc: [ZERO, ZERO, const(1)]
                    a, b = Corner(lab, **kw), Corner(lab, still=n, **kw)
                    if not a.ok or not b.ok:
                        lab.undecided(f"{fw}, {n} motionless lines", where, "corner speed not derivable")
                        return
                    b.sc.prove(f"{fw}, {n} motionless lines before the next move{' along z' if e_only else ''} are skipped", eq=(b.speed, a.speed), where=where)
                    b.sc.no_raise(f"{fw}, {n} motionless lines: no failure", where)

            lab.attempt(f"{fw}, {n} motionless lines", where, go)

        def end():
            for n in (0, 1, 2, 4):
                c = Corner(lab, firmware=fw, still=n, third=False, u=lambda sc: [const(1), ZERO, ZERO])
                want = ITE(LE(c.spd, mul(const(2), c.jerk)), c.spd, mul(const(2), c.jerk)) if fw == "marlin_jerk" else ZERO
                c.sc.prove(f"{fw}, {n} motionless lines and no further move: next velocity is zero", eq=(c.speed, want), where=where)
                c.sc.no_raise(f"{fw}, end of program after {n} lines: no failure", where)

        lab.attempt(f"{fw}, end of program", where, end)

        def extruder():
            # the next line moves only the extruder: it is the next move, and it does not travel
            sc = lab.scene(normalize=True)
            acc, jerk, spd = sc.sym("acc", "pos"), sc.sym("jerk", "pos"), sc.sym("spd", "pos")
            ps = p_settings(sc, acc, jerk, spd)
            L, E1 = sc.sym("L", "pos"), sc.sym("E1", "pos")
            P = [[ZERO] * 4, [L, ZERO, ZERO, ZERO], [L, ZERO, ZERO, ZERO], [L, ZERO, ZERO, E1], [add(L, L), ZERO, ZERO, E1]]
            st = [make_state(sc, p, ps) for p in P]
            for x, y in zip(st, st[1:]):
                link(sc, x, y)
            v, _ = plan_speed(sc, st[1], fw)
            want = ITE(LE(spd, mul(const(2), jerk)), spd, mul(const(2), jerk)) if fw == "marlin_jerk" else ZERO
            sc.prove(f"{fw}, an extrusion-only line is the next move", eq=(v, want), where=where)

        lab.attempt(f"{fw}, extrusion only", where, extruder)

        def first():
            w = lab.where("planner_block.planner_block.__init__")
            for n in (1, 2, 3):
                sc = lab.scene(normalize=True)
                ps = p_settings(sc, sc.sym("acc", "pos"), sc.sym("jerk", "nonneg"), sc.sym("spd", "pos"))
                a = sc.syms("ax ay az ae")
                st = [make_state(sc, a, ps) for _ in range(n)]
                for x, y in zip(st, st[1:]):
                    link(sc, x, y)
                for i, s in enumerate(st):
                    b = sc.call(sc.name("planner_block", "planner_block"), s, NONE, firmware=const(fw))
                    sc.no_raise(f"{fw}, state {i} of {n}: no failure", w)
                    if b is None:
                        break
                    lab.structural(f"{fw}, state {i} of {n}: no motion", len(sc.items(sc.meth(b, "get_segments"))) == 0, w, "motion planned without any move")

        lab.attempt(f"{fw}, first state", where, first)


def j01(lab):
    where = lab.where("planner_block.planner_block.__init__")
    u, w = (lambda sc: [const(1), ZERO, ZERO]), (lambda sc: [ZERO, const(1), ZERO])
    used = {}

    def model():
        for fw in FIRMWARES + (None,):
            c = Corner(lab, firmware=fw, u=u, w=w, de=(ZERO, ZERO), same_speed=True)
            if not c.ok:
                lab.undecided(f"{fw}: corner speed", where, "not derivable")
                continue
            used[fw] = c.models[-1] if c.models else None
            s = sqrt(HALF)
            jj = mul(c.jerk, c.jerk)
            if fw is None:
                want = ZERO
            elif fw == "marlin_jd":
                v = sqrt(mul(F("0.4"), mul(jj, div(s, sub(const(1), s)))))
                want = ITE(LT(v, c.spd), v, c.spd)
            elif fw == "marlin_jerk":
                jump = mul(c.spd, sqrt(const(2)))
                lim = mul(const(2), c.jerk)
                want = ITE(LE(jump, lim), c.spd, div(mul(c.spd, lim), jump))
            elif fw == "MKA":
                want = ITE(LE(c.spd, c.jerk), c.spd, c.jerk)
            else:
                # square corner velocity: the corner of 90 degrees is passed at the setting, unless the move is slower or short
                lim = mul(HALF, mul(c.L, c.acc))
                lim2 = mul(HALF, mul(c.M, c.acc))
                c.sc.prove("klipper: square corner velocity at a right angle", eq=(c.speed, c.jerk), where=where,
                           assume=[LT(c.jerk, c.spd), LT(jj, lim), LT(jj, lim2)])
                continue
            c.sc.prove(f"{fw}: speed at a right angle", eq=(c.speed, want), where=where)
        names = [used.get(f) for f in FIRMWARES + (None,)]
        if all(names):
            lab.structural("different names select different models", len(set(names)) == len(names), where, f"two firmware names share one model: {used}")
        for none in (const("None"),):
            c = Corner(lab, firmware=None, u=u, w=w, de=(ZERO, ZERO))
            c.sc.prove("without firmware: full stop", eq=(c.speed, ZERO), where=where)

    lab.attempt("models", where, model)

    # shipped presets
    root = lab.root
    for base, dirs, files in os.walk(os.path.join(root, "pyGCodeDecode")):
        dirs.sort()
        for f in sorted(files):
            if f.endswith((".yaml", ".yml")):
                path = os.path.join(base, f)
                for i, line in enumerate(open(path, encoding="utf-8"), 1):
                    m = re.match(r"\s+firmware:\s*(.*?)\s*(#.*)?$", line)
                    if m:
                        v = m.group(1).strip("'\"")
                        ok = v in FIRMWARES or v in ("", "None", "null", "~")
                        lab.structural(f"preset {f} line {i}: firmware is supported", ok, f"{os.path.relpath(path, root)}:{i}", f"firmware {v!r} is not supported")

    # the firmware used is the configured one
    wg = lab.where("gcode_interpreter.generate_planner_blocks")

    def passed():
        for fw in FIRMWARES + (None,):
            sc = lab.scene(normalize=True)
            ps = p_settings(sc, sc.sym("acc", "pos"), sc.sym("jerk", "pos"), sc.sym("spd", "pos"))
            st = [make_state(sc, [const(i), ZERO, ZERO, ZERO], ps) for i in range(4)]
            for x, y in zip(st, st[1:]):
                link(sc, x, y)
            seen = []

            def gj(e, s, f, args, kwargs, node):
                seen.append(f.qualname)
                return NotImplemented

            def mm(e, s, f, args, kwargs, node):
                z = [ZERO] * 4
                s2 = sc.fork()
                s2.st = s
                e.setattr(s, args[0], "segments", s2.list([segment(s2, ZERO, ZERO, z, z, z, z)]))
                return NONE

            sc.e.overrides["get_junction_vel"], sc.e.overrides["move_maker2"] = gj, mm
            sc.call(sc.name("gcode_interpreter", "generate_planner_blocks"), sc.list(st), firmware=const(fw) if fw else NONE)
            ok = None if not seen or used.get(fw) is None else set(seen) == {used[fw]}
            lab.structural(f"every move of a program uses the model of {fw}", ok, wg, f"models used: {sorted(set(seen))}")

    lab.attempt("passed on", wg, passed)

    def in_simulation():
        for fw in FIRMWARES:
            for how in ("simulation", "refresh"):
                sc = lab.scene(normalize=True)
                got = []

                def gen(e, s, f, args, kwargs, node):
                    got.append((list(args[1:]) + [kwargs.get("firmware", NONE)])[0])
                    return sc.list([])

                sc.e.overrides["generate_planner_blocks"] = gen
                sc.e.overrides["generate_states"] = lambda e, st, f, a, k, n: sc.list([])
                sc.e.overrides["print_summary"] = lambda e, st, f, a, k, n: NONE
                stp = setup_with(sc, {"firmware": const(fw)})
                sim = sc.call(sc.name("gcode_interpreter", "simulation"), const("part.gcode"), initial_machine_setup=stp)
                w = lab.where("gcode_interpreter.simulation.__init__" if how == "simulation" else "gcode_interpreter.simulation.refresh")
                if sim is None:
                    lab.undecided(f"{how} with {fw}", w, "not derivable")
                    continue
                if how == "refresh":
                    del got[:]
                    sc.meth(sim, "refresh")
                lab.structural(f"{how} uses the configured firmware {fw}", (got[-1] is const(fw)) if got else None, w, f"the planner is called with firmware {show(got[-1]) if got else '?'}")

    lab.attempt("simulation", where, in_simulation)
