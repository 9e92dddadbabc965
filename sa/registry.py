"""Which rules decide which property."""

RULES = {}


VF = "gated value-flow analysis"
LINT = "whole-program lint"


def prop(pid, rules, rule, assumptions=(), min=1, note="", technique=VF):
    RULES[pid] = {"rules": rules, "rule": rule, "assumptions": list(assumptions), "min": min, "note": note, "technique": technique}


NOT_APPLICABLE = {
    "N01": "whether speeds meet after correction depends on how a backward replan converges over an unbounded chain of moves and on floating-point residue; no static argument in reach bounds it",
    "N02": "compares simulated with measured times of a real machine; the source alone cannot decide it",
    "N03": "whether every program can be planned depends on runtime speeds, lengths and rounding along whole histories (planner case selection is not total); not bounded by a static argument in reach",
}


REAL = "numbers are the reals: floating-point rounding is outside the claim"

prop(
    "L01",
    [("vectors", "arithmetic")],
    "Value-graph equivalence: the result components of each vector operation, for operands of every accepted kind, equal the componentwise operation; operands are not written.",
    [REAL],
    min=40,
)

MOVES = ("Checked for a first move, a move after a segment of any speed, extrusion-only moves in both directions and the full-stop planner; "
         "all coordinates, directions, lengths, speeds, accelerations and junction speeds are symbolic.")
prop("K01", [("planner", "k01")], "Value-graph equivalence over every segment the planner can emit (each under its guard): displacement equals mean velocity times duration per axis and begin/end velocity are parallel to the move. " + MOVES, [REAL], min=60)
prop("K02", [("planner", "k02")], "Gated value flow: first segment begins at state A, each segment ends where the next begins, the last ends at state B, on every axis and for every profile shape. " + MOVES, [REAL], min=40)
prop("K03", [("planner", "k03")], "For every segment the speed change is zero or acceleration times duration; order of accelerating, constant and decelerating segments. " + MOVES, [REAL], min=20)
prop("K04", [("planner", "k04")], "For every segment and guard: speed at both ends is at most the commanded speed (within the tolerance of the planner's own isclose). " + MOVES, [REAL], min=20)
prop("K05", [("planner", "k05")], "Gated value flow: time, position and velocity of consecutive segments of a move coincide; the first begins where and when the previous motion ended. " + MOVES, [REAL], min=40)
prop("K07", [("planner", "k07")], "Value-graph equivalence of the target velocity with commanded speed times unit direction (extruder in proportion), for travel, extrusion-only and motionless lines.", [REAL], min=12)
prop("K06", [("planner", "k06")], "Gated value flow: after a time shift all segment times differ by exactly the shift; after self_correction (with and without replanning), trajectory_self_correct, refresh and construction, each block's first segment begins at the previous block's last end with durations kept; blocks are linked to their moving neighbours.", [REAL], min=60)

HIST = "Lines carry their commands and arguments optionally and with symbolic values; histories of the relevant commands are enumerated by kind. "
prop("I01", [("generator", "i01")], "Gated value flow: position of every state equals the reference semantics of absolute/relative positioning. " + HIST, [REAL], min=200)
prop("I02", [("generator", "i02")], "Gated value flow: physical position of every state over histories of G92, absolute and relative moves equals the reference coordinate-system semantics. " + HIST, [REAL], min=200)
prop("I03", [("generator", "i03")], "Gated value flow: every setting in every state equals the reference modal semantics, for all pairs of commands. " + HIST, [REAL], min=200)
prop("I04", [("generator", "i04")], "Gated value flow: the pause of every state is the dwell of its own line; the planned dwell segment is a standstill of that duration at the position and time reached. " + HIST, [REAL], min=100)
prop("I05", [("generator", "i05")], "Gated value flow: positions, settings and unit of every state under G20/G21 equal the reference with factor 25.4. " + HIST, [REAL], min=200)
prop("I06", [("generator", "i06")], "Gated value flow over comment classes (equal, padded, containing, prefix, other case, empty, arbitrary text): the layer is the count of comments equal to the cue.", [], min=40)
prop("I07", [("generator", "i07")], "Gated value flow: initial state from a setup with and without each key; later states keep values.", [REAL], min=60)
TXT = "Lines are structured strings: known characters interleaved with any written number and any text without capitals, ';' and line breaks. "
prop("P01", [("parser", "p01")], "Value-graph equivalence of every state and of the report with and without comments; the comment of each line is the text after the delimiter. Every prefix (supported, unsupported, unknown commands, several commands) with comments around every command word and argument letter. " + TXT, [REAL], min=200)
prop("P04", [("parser", "p04")], "Query over the command tables, the README tables and every command or argument the interpreter asks for; for every fully supported command and argument the value graphs of the states with and without it differ.", [], min=100, technique=LINT)
prop("P05", [("parser", "p05")], "Value-graph equivalence of every state read from text with the reference semantics of the command written, over spellings (spacing, order, leading zeros, several commands per line) and over codes that share a prefix with a supported one. " + TXT, [REAL], min=200)

prop("P02", [("generator", "p02")], "Value graph of the state list for lines of every content pair: length, order, line numbers, neighbour references; reader and composition checked separately.", [], min=100)
prop("P03", [("generator", "p03")], "Gated value flow: unsupported commands leave position, settings, pause, unit and layer as the reference without them; occurrence counts over optional presence.", [REAL], min=100)

CORN = "Directions, lengths, speeds, acceleration and jerk are symbolic (general position) plus twelve fixed corner shapes; the two moves carry different settings. "
prop("J01", [("junctions", "j01")], "Gated value flow: speed at a right angle per firmware name equals that model's formula; the functions that deliver it differ; presets name supported firmwares; constructor, refresh and block generation pass the configured name on.", [REAL], min=20)
prop("J02", [("junctions", "j02")], "Value-graph equivalence of the planned corner speed with the junction-deviation formula and its limits. " + CORN, [REAL, "angle limits are compared outside a band of 1e-7 around them"], min=30)
prop("J03", [("junctions", "j03")], "Value-graph equivalence of the planned corner speed with the classic-jerk formula. " + CORN, [REAL], min=30)
prop("J04", [("junctions", "j04")], "Value-graph equivalence of the planned corner speed with Klipper's formula, bound by bound. " + CORN, [REAL], min=30)
prop("J05", [("junctions", "j05")], "Sign and value-graph analysis of the MKA corner speed: never above the slower move, equal to it without an offending axis, reduced by limit/jump for an offending axis. " + CORN, [REAL], min=30)
prop("J06", [("junctions", "j06")], "Value-graph equivalence of the corner speed with and without motionless lines in between; zero next velocity at the program end; no failure at the first state. ", [REAL], min=30)

prop("Q01", [("queries", "q01")], "Value-graph equivalence of velocity and position inside a segment with the exact motion, at both bounds, for ramps, constant speed and zero duration; a time outside never completes normally.", [REAL], min=60)
prop("Q02", [("queries", "q02")], "Gated value flow of the lookup over paths of up to three segments (five in the thorough tier), any time in them, every previous index including stale ones: containing segment, its index, same result as without history; sequences of questions to one simulation.", [REAL], min=60)
prop("Q03", [("queries", "q03")], "Value-graph equivalence of every output with the millimetre value times the factor once, for all pairs of simulation unit and requested unit; input factors reciprocal.", [REAL], min=200)
prop("Q05", [("queries", "q05")], "Value-graph equivalence of the width with volume rate / (height * speed), zero without travel.", [REAL], min=40)
prop("Q06", [("queries", "q06")], "Gated value flow: extent and maximum velocity for all short sequences of extruding, retracting and travelling moves equal minimum and maximum over exactly the extruding ones.", [REAL], min=60)

prop("S01", [("settings", "s01")], "Gated value flow: the condition under which the G-code is read equals the validity of the setup, names and unit; every other configuration ends in an error; the error for a missing printer contains its name.", [], min=40)
prop("S02", [("settings", "s02")], "Effect analysis over abstract heap: a setup is unchanged by reading it; settings read and simulations created earlier keep their values under every later change of the setup; content of the settings.", [], min=100)
prop("S03", [("settings", "s03")], "Value-graph equivalence of the stored position with value times the input factor for tuple and dictionary; other forms never complete.", [REAL], min=80)

prop("X01", [("exports", "x01")], "Value-graph equivalence of every row of the returned series and of every written line with segment ends (time, scaled position) and the extrusion flag; number and order of rows. Paths of one to six segments in one to three moves.", [REAL, "printed numbers are rounded to at least six digits"], min=100)
prop("X02", [("exports", "x02")], "Value-graph equivalence of every reported layer with begin, end and travel of its moves over all short assignments of moves to layers; sums; rows of the file.", [REAL], min=100)
prop("X03", [("exports", "x03")], "Value-graph equivalence of each summary entry with the figure of that name, all figures pairwise distinct symbolic values.", [REAL], min=100)

prop("X04", [("exports", "x04")], "Value-graph equivalence of every reported time, in the result and in the file, with the time at which the motion has covered the distance to the crossing, for concrete paths and volumes (every face in both directions, diagonals, several moves, starts and ends inside, paths outside) and symbolic speeds at the ends of every segment; number, direction and order of the crossings. The time at a distance is also decided for the block directly.", [REAL], min=100)

prop("Q04", [("effects", "q04")], "Effect analysis over the abstract heap: states, blocks, segments, setup and names held by a simulation, as nested value graphs, are identical before and after every query, print, export and plot, on completion and on every exception that leaves it.", [], min=20)

prop("L03", [("lints", "l03")], "Whole-program name resolution and flow-insensitive type inference: every name read is bound, every attribute read on a value whose class is known is defined by that class (and set before it is read), every call resolved to a function, class or standard-library callable binds to its signature.", [], min=300, technique=LINT)
prop("S04", [("lints", "s04")], "Query over every resolved call: no YAML reader that builds objects, no unpickling, evaluation or process execution of non-constant text; the value of the setup's dictionary stems from a safe reader.", [], min=2, technique=LINT)
prop("L05", [("lints", "l05")], "Query over syntax tree, tokens and resolved names against the oldest declared Python: grammar, evaluated annotations, f-string nesting, library names and arguments by version, run-time imports against declared dependencies, data files against package data.", [], min=50, technique=LINT)
prop("L04", [("cli", "l04")], "Gated value flow of the command line from its entry point over declared options (given, absent, valid, invalid), files found and answers: exit status of every early end, absence of simulation and output effects, arguments of setup, simulation and every output; query that declared and read options agree.", [], min=40)
prop("L06", [("console", "l06")], "Gated value flow of the print wrapper with the interpreter path inside and outside ABAQUS for every kind of value; effect analysis of everything that reaches the console while each operation runs inside ABAQUS; query over direct console writes.", [], min=60)
prop("X05", [("files", "x05")], "Effect analysis of every export, plot, query, the reading of setups and programs and the command line: every write, directory and deletion with its guard and path, for a given path, the default path and no path, with the directory existing or not; typestate of every opened file; query over every call that opens, writes, deletes or renames.", [], min=60)
prop("L02", [("purity", "l02")], "Effect analysis of data that outlives a call (module variables, class attributes, defaults, function attributes) with a query for who reads what is changed; value-graph equality of states and trajectories before and after other programs, setups and queries in the same process; no value graph of a result contains time, randomness, environment, identity or the order of a set.", [], min=40)
prop("X06", [("plots", "x06")], "Value-graph equivalence of the data handed to the plotting libraries with the planned motion: points and speeds of every line of the 3D mesh for all patterns of extruding, retracting and travelling moves; times, velocities, positions and marks of the velocity diagram; outline from above; duration in the printed summary.", [REAL, "an uncoloured 2D outline; the interpolation of the coloured one is not decided"], min=200)
