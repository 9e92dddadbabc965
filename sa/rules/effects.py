"""Q04, X05: what calls change besides their result."""
from fractions import Fraction

from .common import *  # noqa: F401,F403
from .common import EQ, LE, LT, ZERO, HALF, AX, link, make_state
from .queries import motion, simulate, plain_settings, F, Piece
from .settings import snapshot
from ..engine import Inst, Lst, Dct, add, sub, mul, div
from ..terms import T, mk, const, TRUE, FALSE, NONE, AND, OR, NOT, ITE, show, is_const, cval

DATA = ("blocklist", "states", "initial_machine_setup", "filename", "output_unit_system", "firmware")


def held(sc, sim):
    """Attributes of the simulation object with their content."""
    o = sc.obj(sim)
    seen = {}
    return {k: snapshot(sc, o.fields[k], seen) for k in DATA if k in o.fields}


def differences(a, b, path=""):
    """(path, before, after) for every leaf that differs; attributes that did not exist before are not changes."""
    if a is b or (isinstance(a, T) and isinstance(b, T) and a == b):
        return
    if isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] == b[0] and isinstance(a[0], str):
        kind = a[0]
        if kind in ("list", "tuple", "set", "deque"):
            if len(a) != len(b):
                yield path, f"{len(a) - 1} elements", f"{len(b) - 1} elements"
                return
            for i, (x, y) in enumerate(zip(a[1:], b[1:])):
                if kind == "tuple" and not (isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], T)):
                    yield from differences(x, y, f"{path}[{i}]")
                    continue
                if isinstance(x, T) or isinstance(y, T):
                    yield from differences(x, y, f"{path}[{i}]")
                    continue
                if x[0] is not y[0]:
                    yield f"{path}[{i}] presence", x[0], y[0]
                yield from differences(x[1], y[1], f"{path}[{i}]")
            return
        if kind == "dict":
            bk = {k: (g, v) for k, g, v in b[1:]}
            ak = {k for k, _, _ in a[1:]}
            for k, g, v in a[1:]:
                if k not in bk:
                    yield f"{path}[{show(k)}]", "present", "missing"
                    continue
                if g is not bk[k][0]:
                    yield f"{path}[{show(k)}] presence", g, bk[k][0]
                yield from differences(v, bk[k][1], f"{path}[{show(k)}]")
            for k in bk:
                if k not in ak and bk[k][0] is not FALSE:
                    yield f"{path}[{show(k)}]", "missing", "present"
            return
        if kind == "inst":
            if a[1] != b[1]:
                yield path, a[1], b[1]
                return
            bk = dict(b[2:])
            for k, v in a[2:]:
                if k not in bk:
                    yield f"{path}.{k}", "present", "missing"
                    continue
                yield from differences(v, bk[k], f"{path}.{k}")
            return
        if kind == "ite":
            if a[1] is b[1]:
                yield from differences(a[2], b[2], path)
                yield from differences(a[3], b[3], path)
                return
        if kind == "seen" and a[1] == b[1]:
            return
    yield path, a, b


def observed(sc, sim):
    """What positions and velocities answer when asked for their coordinates."""
    out = {}

    def ask(what, v):
        if v is None or v is NONE or v.op != "ref" or not isinstance(sc.obj(v), Inst):
            return
        r = sc.meth(v, "get_vec", withExtrusion=TRUE)
        if r is None or r.op != "ref" or not isinstance(sc.obj(r), Lst):
            return
        for x, (g, y) in zip("XYZE", sc.items(r)):
            if g is TRUE:
                out[f"{what} {x}"] = y

    def of(ref, name):
        try:
            return sc.get(ref, name)
        except Exception:
            return None

    for i, (_, b) in enumerate(sc.items(of(sim, "blocklist"))):
        for j, (_, k) in enumerate(sc.items(of(b, "segments"))):
            for n in ("pos_begin", "pos_end", "vel_begin", "vel_end"):
                ask(f"block {i} segment {j} {n}", of(k, n))
    for i, (_, x) in enumerate(sc.items(of(sim, "states"))):
        ask(f"state {i} position", of(x, "state_position"))
    return out


CALLS = [
    ("get_values", "sim", "get_values", lambda sc, c: ([c["t"]], {})),
    ("get_values in another unit", "sim", "get_values", lambda sc, c: ([c["t"]], {"output_unit_system": const("inch")})),
    ("get_width", "sim", "get_width", lambda sc, c: ([c["t"], sc.sym("h", "pos"), sc.sym("dia", "pos")], {})),
    ("extrusion_extent", "sim", "extrusion_extent", lambda sc, c: ([], {})),
    ("extrusion_extent in another unit", "sim", "extrusion_extent", lambda sc, c: ([], {"output_unit_system": const("SI")})),
    ("extrusion_max_vel", "sim", "extrusion_max_vel", lambda sc, c: ([], {})),
    ("save_summary", "sim", "save_summary", lambda sc, c: ([const("out/summary.yaml")], {})),
    ("print_summary", "sim", "print_summary", lambda sc, c: ([sc.sym("start")], {})),
    ("get_scaling_factor", "sim", "get_scaling_factor", lambda sc, c: ([const("inch")], {})),
    ("plot_2d_position", "sim", "plot_2d_position", lambda sc, c: ([], {"filepath": const("out/p.png")})),
    ("plot_2d_position by acceleration, with points", "sim", "plot_2d_position", lambda sc, c: ([], {"filepath": const("out/p.png"), "show_points": TRUE, "colvar": const("Velocity")})),
    ("plot_3d", "sim", "plot_3d", lambda sc, c: ([], {"screenshot_path": const("out/p.png"), "extrusion_only": FALSE})),
    ("plot_3d with vtk", "sim", "plot_3d", lambda sc, c: ([], {"vtk_path": const("out/p.vtk")})),
    ("plot_vel", "sim", "plot_vel", lambda sc, c: ([], {"filepath": const("out/v.png")})),
    ("generate_abaqus_event_series", "abaqus_file_generator", "generate_abaqus_event_series", lambda sc, c: ([c["sim"], const("out.inp")], {})),
    ("generate_abaqus_event_series in another unit", "abaqus_file_generator", "generate_abaqus_event_series", lambda sc, c: ([c["sim"], const("out.inp")], {"output_unit_system": const("SI")})),
    ("save_layer_metrics", "tools", "save_layer_metrics", lambda sc, c: ([c["sim"], const("out/m.csv")], {})),
    ("write_submodel_times", "tools", "write_submodel_times", lambda sc, c: ([c["sim"], sc.list([const(5), const(0), const(0)]), const(4), const(4), const(4)], {"filename": const("out/s.yaml")})),
    ("unpack_blocklist", "gcode_interpreter", "unpack_blocklist", lambda sc, c: ([sc.get(c["sim"], "blocklist")], {})),
    ("block travel", "block", "get_block_travel", lambda sc, c: ([], {})),
    ("block segments", "block", "get_segments", lambda sc, c: ([], {})),
    ("block maximum velocity", "block", "extrusion_block_max_vel", lambda sc, c: ([], {})),
    ("block time at a distance", "block", "inverse_time_at_pos", lambda sc, c: ([const(3)], {})),
    ("block text", "block", "__str__", lambda sc, c: ([], {})),
    ("segment velocity", "segment", "get_velocity", lambda sc, c: ([c["t"]], {})),
    ("segment position", "segment", "get_position", lambda sc, c: ([c["t"]], {})),
    ("segment length", "segment", "get_segm_len", lambda sc, c: ([], {})),
    ("segment duration", "segment", "get_segm_duration", lambda sc, c: ([], {})),
    ("segment extruding", "segment", "is_extruding", lambda sc, c: ([], {})),
    ("setup dictionary", "setup", "get_dict", lambda sc, c: ([], {})),
]


def scene_for(lab, shape=(2, 1), layers=(0, 0, 1), concrete=False):
    from .exports import Path

    sc = lab.scene(normalize=True)
    if concrete:
        p = Path(sc, [(0, 0, 0), (10, 0, 0), (10, 4, 0)], [("1/4", "3/4"), ()], "0=1?")
        blocks, states = p.blocks, p.states
        for s, l in zip(states, (0, 0, 1)):
            sc.set(s, "layer", const(l))
        end = p.end
    else:
        blocks, per, states = motion(sc, list(shape), layers=[const(x) for x in layers])
        end = None
    sim = simulate(sc, blocks, states, "SImm", layer_cue=const("LAYER"))
    return sc, sim, blocks, states


def q04(lab):
    def run(label, target, name, args, concrete=False):
        anchor = {"sim": f"gcode_interpreter.simulation.{name}", "block": f"planner_block.planner_block.{name}", "segment": f"utils.segment.{name}", "setup": f"gcode_interpreter.setup.{name}"}.get(target, f"{target}.{name}")
        w = lab.where(anchor)

        def go():
            sc, sim, blocks, states = scene_for(lab, concrete=concrete)
            c = {"sim": sim, "t": sc.sym("t", "nonneg")}
            first = [v for _, v in sc.items(sc.get(blocks[0], "segments"))][0]
            before = held(sc, sim)
            earlier = len(sc.st.pending)  # failures while the scene is set up
            if not before.get("blocklist"):
                lab.undecided(label, w, "the simulation's data is held under other names")
                return
            seen = observed(sc.fork(), sim)
            a, kw = args(sc, c)
            obj = {"sim": sim, "block": blocks[0], "segment": first}.get(target)
            if target == "setup":
                return
            if obj is not None:
                sc.meth(obj, name, *a, **kw)
            else:
                sc.call(sc.name(target, name), *a, **kw)
            lost = sc.dead
            ends = [] if lost else [("", sc.fork())]
            for i, (cnd, st2, x) in enumerate(sc.st.pending[earlier:]):
                s2 = sc.fork()
                s2.st = st2
                ends.append((f" when it fails with {x.args[0] if x is not None and x.op == 'exc' else 'an error'}", s2))
            if not ends:
                lab.undecided(label, w, "control lost")
                return
            clean = True
            reported = set()
            for tag, s2 in ends[:12]:
                after = held(s2, sim)
                for k in before:
                    if k not in after:
                        lab.structural(f"{label}: keeps {k}{tag}", False, w, f"{name} removes {k} of the simulation")
                        clean = False
                        continue
                    for path, x, y in differences(before[k], after[k], k):
                        key = (path, tag)
                        if key in reported:
                            continue
                        reported.add(key)
                        clean = False
                        if isinstance(x, T) and isinstance(y, T):
                            s2.prove(f"{label}: {path} unchanged{tag}", eq=(y, x), where=w, what=f"{name} changes {path} of the simulation")
                        elif isinstance(x, str):
                            s2.prove(f"{label}: {path} unchanged{tag}", cond=FALSE, where=w, what=f"{name} changes {path} of the simulation: {x} -> {y}")
                        else:
                            s2.prove(f"{label}: {path} unchanged{tag}", cond=FALSE, where=w, what=f"{name} replaces {path} of the simulation")
            for tag, s2 in ends[:4]:
                now = observed(s2, sim)
                for k, x in seen.items():
                    y = now.get(k)
                    if y is not None and y is not x:
                        clean = False
                        s2.prove(f"{label}: {k} unchanged{tag}", eq=(y, x), where=w, what=f"{name} changes {k} of the simulation")
            if clean:
                lab.structural(f"{label}: the simulation is unchanged", True, w)
            sc.finish()

        lab.attempt(label, w, go)

    for c in CALLS:
        if c[1] != "setup":
            run(*c)
            run(c[0] + ", moves along axes", *c[1:], concrete=True)
