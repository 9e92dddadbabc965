"""Building blocks shared by the rules: abstract states, segments and planned moves made through the package's own classes."""
from fractions import Fraction

from ..engine import add, sub, mul, div, sqrt, absolute, Inst
from ..terms import mk, const, TRUE, FALSE, NONE, AND, OR, NOT, ITE

AX = "xyze"
HALF = const(Fraction(1, 2))
ZERO = const(0)


def EQ(a, b):
    return mk("eq", *sorted((a, b), key=lambda t: t.id))


def LE(a, b):
    return NOT(mk("lt", b, a))


def LT(a, b):
    return mk("lt", a, b)


def IFF(a, b):
    return OR(AND(a, b), AND(NOT(a), NOT(b)))


def dot(a, b):
    t = ZERO
    for x, y in zip(a, b):
        t = add(t, mul(x, y))
    return t


def total(ts):
    t = ZERO
    for x in ts:
        t = add(t, x)
    return t


def norm(v):
    return sqrt(dot(v, v))


def p_settings(sc, acc, jerk, speed, vmax=None, units=None):
    st = sc.name("state", "state")
    vmax = vmax or [sc.sym("v" + a.upper() + "max", "pos") for a in AX]
    kw = dict(p_acc=acc, jerk=jerk, speed=speed, vX=vmax[0], vY=vmax[1], vZ=vmax[2], vE=vmax[3])
    if units is not None:
        kw["units"] = units
    return sc.call(sc.get(st, "p_settings"), **kw)


def make_state(sc, pos, settings):
    p = sc.call(sc.name("utils", "position"), *pos)
    return sc.call(sc.name("state", "state"), state_position=p, state_p_settings=settings)


def link(sc, a, b):
    sc.set(a, "next_state", b)
    sc.set(b, "prev_state", a)


def segment(sc, t0, t1, p0, p1, v0, v1):
    P, V = sc.name("utils", "position"), sc.name("utils", "velocity")
    return sc.call(sc.name("utils", "segment"), t_begin=t0, t_end=t1, pos_begin=sc.call(P, *p0), pos_end=sc.call(P, *p1),
                   vel_begin=sc.call(V, *v0), vel_end=sc.call(V, *v1))


class Seg:
    """Fields of one abstract segment."""

    def __init__(self, sc, ref):
        self.ref = ref
        self.pb, self.pe = sc.vec(sc.get(ref, "pos_begin")), sc.vec(sc.get(ref, "pos_end"))
        self.vb, self.ve = sc.vec(sc.get(ref, "vel_begin")), sc.vec(sc.get(ref, "vel_end"))
        self.tb, self.te = sc.get(ref, "t_begin"), sc.get(ref, "t_end")
        self.dt = sub(self.te, self.tb)


class Move:
    """A planned move A -> B in a fresh scene.

    kind      'travel'  displacement L*(ux,uy,uz), extrusion de
              'e+', 'e-'  extrusion of +-Le only
    first     first move of the program, else after a segment that ends at A with speed v0 at time t0
    speeds    order of entry speed v0, junction speed VE and commanded speed spd
    """

    def __init__(self, lab, kind="travel", speeds="still<", first=False, pause=None, firmware="marlin_jd"):
        sc = self.sc = lab.scene(normalize=True)
        self.acc, self.jerk = sc.sym("acc", "pos"), sc.sym("jerk", "nonneg")
        self.a = sc.syms("ax ay az ae")
        if kind == "travel":
            self.L = sc.sym("L", "pos")
            self.u = sc.syms("ux uy uz")
            sc.unit_vector(*self.u)
            self.unit = NOT(AND(*[EQ(x, ZERO) for x in self.u]))
            self.de = sc.sym("de")
            self.disp = [mul(self.L, x) for x in self.u] + [self.de]
            self.dir = self.u + [div(self.de, self.L)]
            self.b = [add(x, y) for x, y in zip(self.a, self.disp)]
            self.pick = lambda v: dot(v[:3], self.u)  # speed along the path
        else:
            self.unit = TRUE
            self.L = sc.sym("Le", "pos")
            s = const(1 if kind == "e+" else -1)
            self.disp = [ZERO, ZERO, ZERO, mul(s, self.L)]
            self.dir = [ZERO, ZERO, ZERO, s]
            self.b = self.a[:3] + [add(self.a[3], self.disp[3])]
            self.pick = lambda v: mul(s, v[3])
        # entry speed v0 >= 0, exit speed 0 <= VE <= spd, by the order of the three
        v0, VE, spd = ZERO, ZERO, sc.sym("spd", "pos")
        if speeds == "still<":  # 0 = v0 <= VE < spd
            VE = sc.sym("VE", "nonneg")
            spd = add(VE, sc.sym("q", "pos"))
        elif speeds == "still=":  # 0 = v0, VE = spd
            VE = spd
        elif speeds == "v0<=VE<spd":
            v0 = sc.sym("v0", "nonneg")
            VE = add(v0, sc.sym("p", "nonneg"))
            spd = add(VE, sc.sym("q", "pos"))
        elif speeds == "VE<v0<spd":
            VE = sc.sym("VE", "nonneg")
            v0 = add(VE, sc.sym("p", "pos"))
            spd = add(v0, sc.sym("q", "pos"))
        elif speeds == "VE<spd<=v0":
            VE = sc.sym("VE", "nonneg")
            spd = add(VE, sc.sym("q", "pos"))
            v0 = add(spd, sc.sym("p", "nonneg"))
        elif speeds == "v0<spd=VE":
            v0 = sc.sym("v0", "nonneg")
            spd = add(v0, sc.sym("q", "pos"))
            VE = spd
        elif speeds == "spd=VE<=v0":
            v0 = add(spd, sc.sym("p", "nonneg"))
            VE = spd
        elif speeds == "v0<spd":  # planner without junction model: VE = 0
            v0 = sc.sym("v0", "nonneg")
            spd = add(v0, sc.sym("q", "pos"))
        elif speeds == "spd<=v0":
            v0 = add(spd, sc.sym("p", "nonneg"))
        self.spd, self.VE, self.v0 = spd, VE, v0
        ps = p_settings(sc, self.acc, self.jerk, self.spd)
        self.A, self.B = make_state(sc, self.a, ps), make_state(sc, self.b, ps)
        link(sc, self.A, self.B)
        if pause is not None:
            sc.set(self.B, "pause", pause)
        if firmware:
            sc.e.overrides["get_junction_vel"] = lambda e, st, f, a, k, n: self.VE
        self.prev, self.t0 = NONE, ZERO
        pb = sc.name("planner_block", "planner_block")
        if not first:
            self.prev = sc.call(pb, self.A, NONE)  # the block of a state without motion, then given a known last segment
            self.t0 = sc.sym("t0", "nonneg")
            vel = [v0, ZERO, ZERO, sc.sym("w0")] if kind == "travel" else [ZERO] * 4
            sc.set(self.prev, "segments", sc.list([segment(sc, self.t0, self.t0, self.a, self.a, vel, vel)]))
        self.block = sc.call(pb, self.B, self.prev, firmware=const(firmware) if firmware else NONE)
        self.ok = self.block is not None and not sc.dead
        self.segs = []
        if self.ok:
            for g, r in sc.items(sc.meth(self.block, "get_segments")):
                if AND(sc.st.pc, g) is not FALSE:
                    self.segs.append((g, Seg(sc, r)))

    def chain(self):
        """(guard, i, j) for every pair of segments that follow each other directly."""
        for i in range(len(self.segs)):
            skipped = []
            for j in range(i + 1, len(self.segs)):
                g = AND(self.segs[i][0], self.segs[j][0], *[NOT(x) for x in skipped])
                if g is not FALSE:
                    yield g, i, j
                skipped.append(self.segs[j][0])

    def firsts(self):
        sk = []
        for i, (g, s) in enumerate(self.segs):
            c = AND(g, *[NOT(x) for x in sk])
            if c is not FALSE:
                yield c, i
            sk.append(g)

    def lasts(self):
        for i, (g, s) in enumerate(self.segs):
            c = AND(g, *[NOT(x) for x, _ in self.segs[i + 1:]])
            if c is not FALSE:
                yield c, i


# entry speed v0, exit speed VE and commanded speed spd in every possible order
CONFIGS = [(f"{k}, {'first move' if f else 'after motion'}, {s}", dict(kind=k, speeds=s, first=f)) for k, f, s in [
    ("travel", True, "still<"), ("travel", True, "still="),
    ("travel", False, "v0<=VE<spd"), ("travel", False, "VE<v0<spd"), ("travel", False, "VE<spd<=v0"), ("travel", False, "v0<spd=VE"), ("travel", False, "spd=VE<=v0"),
    ("e+", True, "still<"), ("e+", True, "still="), ("e-", True, "still<"), ("e-", True, "still="),
    ("e+", False, "still<"), ("e-", False, "still<"), ("e-", False, "still="),
]] + [(f"travel, full stop planner, {s}", dict(kind="travel", speeds=s, firmware=None)) for s in ("v0<spd", "spd<=v0")]
DWELL = [(f"travel with dwell, {s}", dict(kind="travel", speeds=s, firmware=None, pause=const(3))) for s in ("v0<spd", "spd<=v0")]


SETUP_KEYS = [("p_vel", 35), ("p_acc", 1000), ("jerk", 10), ("vX", 180), ("vY", 181), ("vZ", 30), ("vE", 33), ("firmware", "klipper"), ("nozzle_diam", 0.4), ("filament_diam", 1.75)]


def setup_with(sc, values=None, printer="my_printer", layer_cue=None):
    """A setup object whose presets file holds one printer with known entries."""
    pres = sc.dict([(const(k), values.get(k, const(v)) if values else const(v)) for k, v in SETUP_KEYS])
    sc.e.overrides["load_setup"] = lambda e, st, f, a, k, n: sc_dict(sc, e, st, [(const(printer), pres)])
    kw = {} if layer_cue is None else {"layer_cue": layer_cue}
    return sc.call(sc.name("gcode_interpreter", "setup"), const("presets.yaml"), const(printer), **kw)


def sc_dict(sc, e, st, pairs):
    return e.new_dict(st, pairs)
