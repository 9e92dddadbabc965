"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, pathlib

P = []
def p(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": ["pyGCodeDecode/" + f if not f.endswith((".toml", ".md")) else f for f in files],
                    "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                    "mechanism": [dict(name=a, where=b) for a, b in mechanism],
                    "observe_at": list(observe), "hook_needed": None},
    })

SG, ST, PB, JH, UT, GI, TO, AB, CL, HE = ("state_generator.py", "state.py", "planner_block.py", "junction_handling.py",
    "utils.py", "gcode_interpreter.py", "tools.py", "abaqus_file_generator.py", "cli.py", "helpers.py")

# ---------------------------------------------------------------- parsing
p("P01", "Comment text never acts as a command",
  "Text after the first ';' of a G-code line never changes position, settings, timing or the unsupported-command report, whatever command words it contains. It is available only as that line's comment, complete from the delimiter on and trimmed of surrounding whitespace. Words before the ';' keep the meaning they have without the comment.",
  ["inputs"], "every G-code line, with any text before and after the comment delimiter",
  "the existing parser test feeds one fixed file (a Git-LFS pointer in this checkout); comments are free text, so command words can occur in them in unbounded ways",
  [SG], [("comment position and store guard", "state_generator.arg_extract"), ("comment attached to the state", "state_generator.dict_list_traveler")],
  observe=["state.comment", "state.state_position"])
p("P02", "One state per line, in order, numbered and linked",
  "Interpreting a G-code file yields the initial state followed by exactly one state per line of the file, in file order, whatever the line contains. Every state after the first carries the 1-based number of its line, and consecutive states refer to each other as previous and next.",
  ["inputs"], "every G-code file, every line content",
  "a fixed sample cannot show that no line content (blank, comment, unknown or unsupported command) drops, duplicates or reorders a state",
  [SG, ST], [("line loop", "state_generator.read_gcode_to_dict_list"), ("state loop", "state_generator.dict_list_traveler")],
  observe=["simulation.states", "state.line_number", "state.prev_state", "state.next_state"])
p("P03", "Unsupported commands change nothing and are counted exactly",
  "Commands that are known but not supported (arcs, homing, levelling, firmware retraction) alter no position, setting, pause or layer of any state. Each is reported with exactly the number of lines in which it occurs, and nothing else is reported as unsupported.",
  ["inputs"], "every parsed G-code program",
  "absence of an effect for every program cannot be sampled",
  [SG], [("unsupported table and counter", "state_generator.check_for_unsupported_commands"), ("interpreter ignores them", "state_generator.dict_list_traveler")],
  observe=["check_for_unsupported_commands() result", "simulation.states"])
p("P04", "Parser vocabulary, interpreter and documentation agree",
  "Every command and argument the interpreter acts on is one the parser can deliver, and every command the README lists as fully supported is in the parser's supported vocabulary with exactly the listed arguments and influences the states produced. No command is listed both as supported and as unsupported.",
  ["programs"], "every command and argument in the vocabulary",
  "tests exercise a hand-picked subset of commands; a table entry that silently stops matching has no failing test",
  [SG, "README.md"], [("supported_commands / unsupported_commands tables", "state_generator"), ("consumption", "state_generator.dict_list_traveler")])
p("P05", "Commands and numbers are read exactly as written",
  "A line's command is recognised by its letter and whole number: G10 or G12 is not read as G1, G04 is G4, and only commands of the vocabulary are recognised. Every argument has exactly the value written after its letter (sign, decimals, leading zeros), regardless of spacing between words, of the order of arguments and of the presence of other arguments.",
  ["inputs"], "every spelling of a supported command: spacing, argument order, number formats, neighbouring codes",
  "spellings are unbounded; tests read one fixed spelling per command",
  [SG], [("regular-expression matching", "state_generator.arg_extract")],
  observe=["state.state_position", "state.state_p_settings"])
# ---------------------------------------------------------------- interpreter
p("I01", "Absolute and relative moves position each axis correctly",
  "Under absolute positioning a G0/G1 coordinate replaces that axis' coordinate in the current coordinate system, under relative positioning it is added; axes not named keep their position, and G0 and G1 position identically. G90/G91 govern X, Y and Z only, M82/M83 govern E only, each stays in force until changed, and absolute is the default for both.",
  ["inputs", "histories"], "every sequence of mode changes and moves",
  "mode state makes the result depend on the whole preceding program",
  [SG], [("virtual machine update", "state_generator.dict_list_traveler")],
  state=[("virtual_machine", "modal interpreter state", "state_generator.dict_list_traveler")], observe=["state.state_position"])
p("I02", "G92 redefines coordinates without moving the machine",
  "Setting a position with G92 never changes the physical position of any axis. It makes the named axes read the given value from then on, so that a later absolute move to coordinate c ends at the old physical position plus c minus the given value, however many G92 came before; axes not named are unaffected.",
  ["inputs", "histories"], "every sequence of G92 and moves, every value",
  "needs arbitrary histories with non-zero values; the existing test only nulls the axes",
  [SG], [("offset bookkeeping", "state_generator.dict_list_traveler")], observe=["state.state_position"])
p("I03", "Feed rate and limits are modal and apply from their line on",
  "A feed rate given with a move (per minute) becomes the target speed (per second) of that and all following moves; M204 P sets the acceleration, M205 X the jerk and M203 the maximum speed of each named axis, in the state of that line and of all following lines until changed. No command other than these changes any of those settings.",
  ["inputs", "histories"], "every sequence of setting commands and moves",
  "persistence and non-interference over arbitrary histories",
  [SG, ST], [("settings update", "state_generator.dict_list_traveler"), ("settings snapshot per state", "state.state.p_settings")],
  observe=["state.state_p_settings"])
p("I04", "A dwell holds position for exactly the commanded time",
  "G4 P pauses for the given milliseconds and G4 S for the given seconds, on that line only. In the simulated motion a dwell is a standstill of exactly that duration at the position reached so far, starting when the previous motion ends (or at time zero at the initial position when it is the first), and a line without a dwell adds no pause.",
  ["inputs", "histories"], "every dwell value and every position of the dwell in the program, including first",
  "the existing test checks two literal pauses at the state level and never plans a dwell",
  [SG, PB], [("pause decoding", "state_generator.dict_list_traveler"), ("dwell segment", "planner_block.planner_block.__init__")],
  observe=["state.pause", "planner_block.get_segments()"])
p("I05", "Inch programs are simulated at their true size",
  "While G20 is in force, coordinates, G92 values, feed rates and the speed, acceleration and jerk settings are read in inches and simulated as 25.4 times as many millimetres; while G21 is in force, and by default, they are taken as millimetres. Switching units changes only how later values are read, and each state reports the unit in force.",
  ["inputs", "histories"], "every program that switches units",
  "the existing test looks only at the recorded unit label, never at a coordinate",
  [SG], [("unit factor", "state_generator.dict_list_traveler")], observe=["state.state_position", "state.state_p_settings"])
p("I06", "Layers advance exactly at the layer cue",
  "When a layer cue is configured, the layer number starts at zero, increases by one at each line whose comment equals the cue exactly and at no other line, and every line's state carries the current number. Without a cue no state carries a layer.",
  ["inputs", "histories"], "every program and every cue text",
  "depends on the whole history of comments",
  [SG], [("layer counter", "state_generator.dict_list_traveler")], observe=["state.layer"])
p("I07", "The initial state reflects the machine setup",
  "The first state has the configured initial position on each axis and the configured speed, acceleration, jerk and axis limits, each taken from the setup when given there and from the documented default otherwise; every configured value ends up in the setting of the same name. Until a command changes one, all later states keep these values.",
  ["configurations"], "every setup dictionary",
  "each preset field must be wired to its own setting for every value",
  [SG, ST, GI], [("defaults merge and initial state", "state_generator.dict_list_traveler")], observe=["simulation.states[0]"])
# ---------------------------------------------------------------- setup
p("S01", "Invalid machine setups are rejected before simulating",
  "A simulation is refused with an error before any G-code is read when the setup lacks a required entry or contains an unknown one, when neither a setup nor a machine name is given, when the two disagree, or when the output unit system is unknown; a setup with only valid entries is accepted. A printer name missing from the presets file is rejected by an error naming that printer.",
  ["configurations"], "every setup dictionary and constructor argument combination",
  "each missing/extra key is a separate configuration",
  [GI], [("validation", "gcode_interpreter.simulation.check_initial_setup"), ("constructor checks", "gcode_interpreter.simulation.__init__"), ("printer selection", "gcode_interpreter.setup.select_printer")])
p("S02", "A simulation owns its settings",
  "Reading the machine settings out of a setup does not change the setup, and the result is independent of it: later changes to the setup affect neither settings read earlier nor a simulation created earlier. The settings read contain the selected printer's presets, the properties set on it, the initial position, the layer cue if one is configured and the printer's name.",
  ["histories", "configurations"], "every interleaving of setup edits, reads and simulations",
  "aliasing shows only when a setup is edited after it was used",
  [GI], [("settings assembly", "gcode_interpreter.setup.get_dict"), ("snapshot in the simulation", "gcode_interpreter.simulation.__init__")])
p("S03", "Initial position is stored per axis in millimetres",
  "Setting the initial position from a tuple or from a dictionary gives the same result, with each axis' value stored for that axis and converted from the chosen input unit to millimetres exactly once. Any other form of input is rejected with an error.",
  ["inputs", "configurations"], "every position value, both input forms, every unit system",
  "the existing test uses one tuple in the default unit",
  [GI], [("conversion", "gcode_interpreter.setup.set_initial_position"), ("input unit table", "gcode_interpreter.setup.__init__")])
p("S04", "Loading a presets file never executes code",
  "Reading a printer presets file builds only plain data; no content of the file can instantiate objects or call code. No part of the library evaluates file or G-code content as program text.",
  ["inputs"], "every file content",
  "absence of a code-execution path for all inputs cannot be tested by examples",
  [GI], [("YAML loading", "gcode_interpreter.setup.load_setup")])
# ---------------------------------------------------------------- kinematics
p("K01", "Every planned segment is constant-acceleration motion",
  "In every planned segment the displacement of each axis, extrusion included, equals the mean of its start and end velocity on that axis times the segment's duration, and the velocity lies along the move's direction throughout. This holds for every shape of velocity profile the planner produces.",
  ["inputs"], "every move length, speed, acceleration, entry and exit speed",
  "three hand-computed blocks cannot cover the profile shapes and parameter space",
  [PB, UT], [("profile construction", "planner_block.planner_block.move_maker2"), ("segment", "utils.segment")],
  observe=["planner_block.get_segments()"])
p("K02", "A planned move covers exactly its commanded distance",
  "The segments of a planned move start where the previous motion ended and together displace every axis by exactly the difference between the move's two states, also for moves that only extrude. This holds for each velocity profile shape, whether or not the commanded speed is reached.",
  ["inputs"], "every move length, speed, acceleration, entry and exit speed",
  "distance closure is an identity over all real parameters, tests check three points",
  [PB, JH], [("ramp lengths and peak speeds", "planner_block.planner_block.move_maker2"), ("direction vector", "junction_handling.junction_handling.connect_state"), ("normalisation", "utils.velocity.get_norm_dir")])
p("K03", "Speed changes use exactly the configured acceleration",
  "Within every planned segment the speed along the path is either constant or changes at exactly plus or minus the acceleration configured for that move; accelerating segments precede constant ones and those precede decelerating ones.",
  ["inputs"], "every move and acceleration setting",
  "identity over all parameters",
  [PB], [("profile construction", "planner_block.planner_block.move_maker2")])
p("K04", "No planned move exceeds its commanded speed",
  "No segment of a move is planned to begin or end faster than the move's target speed, whatever speed the previous motion ended with; peak speeds of profiles that do not reach the target stay at or below it.",
  ["inputs", "histories"], "every move and every entry speed",
  "depends on the speed left by the preceding moves",
  [PB], [("entry clamp and profile selection", "planner_block.planner_block.move_maker2")])
p("K05", "Motion is gap-free in time and position",
  "Within a move each segment begins at the time, position and velocity at which the one before it ends, and a move begins at the time and position at which the previous motion ended, the first one at time zero at the initial position. Segments that involve no motion may be left out without breaking this chain.",
  ["inputs", "histories"], "every sequence of moves",
  "chaining across arbitrary histories",
  [PB, GI, UT], [("segment chaining", "planner_block.planner_block.move_maker2"), ("block chaining", "gcode_interpreter.generate_planner_blocks"), ("initial segment", "utils.segment.create_initial")])
p("K06", "Correcting the trajectory keeps all motion aligned in time",
  "Shifting a move in time shifts begin and end of all its segments by the same amount and changes nothing else. When a correction changes a move, the next move is shifted so that it begins exactly when the corrected one ends, and the correction is applied to every move of the simulation, also after the simulation is refreshed.",
  ["inputs", "histories"], "every trajectory that needs correction",
  "needs trajectories with mismatching junction speeds; the existing test marks this as to do",
  [PB, GI, UT], [("time shift", "planner_block.planner_block.timeshift"), ("correction", "planner_block.planner_block.self_correction"), ("pass over all blocks", "gcode_interpreter.simulation.trajectory_self_correct")])
p("K07", "Velocity is directed along the move at the commanded speed",
  "The target velocity of a move points from its start to its end position; its magnitude over X, Y and Z is the commanded speed and extrusion runs in the same proportion as distance. A move that only extrudes runs the extruder at the commanded speed in the right direction, and a line without motion has no velocity and produces no motion.",
  ["inputs"], "every pair of positions and every speed",
  "identity over all displacements including pure extrusion and zero moves",
  [JH, UT], [("target velocity", "junction_handling.junction_handling.connect_state"), ("direction", "utils.velocity.get_norm_dir")])
# ---------------------------------------------------------------- junctions
p("J01", "Each firmware name selects its own junction model",
  "Each supported firmware name selects exactly one cornering model and different names select different ones; every firmware named in a shipped printer preset is supported, and without a firmware the planner comes to a full stop at each junction. The firmware used is the one in the simulation's settings, also when the simulation is refreshed.",
  ["configurations"], "every firmware name and every shipped preset",
  "dispatch completeness over a table of names",
  [PB, JH, GI], [("dispatch", "planner_block.planner_block.__init__"), ("firmware passed on", "gcode_interpreter.generate_planner_blocks")])
p("J02", "Marlin junction deviation follows the published formula",
  "With junction deviation, the speed at a corner of half-angle sine s is the square root of acceleration times radius, with radius 0.4*jerk^2/acceleration*s/(1-s), capped by the commanded speed; corners straighter than 162 degrees pass at the commanded speed, corners sharper than 18 degrees stop, and a zero jerk setting or a missing neighbour move stops.",
  ["inputs"], "every pair of move directions, speed, acceleration and jerk",
  "only the straight-line case is tested",
  [JH], [("formula", "junction_handling.junction_handling_marlin_jd.calc_JD")])
p("J03", "Marlin classic jerk limits the velocity jump at a corner",
  "With classic jerk a corner is passed at the move's full speed when the velocity difference between the two moves is at most twice the jerk setting; otherwise the speed is scaled down in the ratio of twice the jerk to that difference. With a zero jerk setting any change of velocity forces a stop.",
  ["inputs"], "every pair of move velocities and every jerk setting",
  "no test uses this model",
  [JH], [("formula", "junction_handling.junction_handling_marlin_jerk.calc_j_vel")])
p("J04", "Klipper corner speed follows the published formula",
  "With the Klipper model the corner speed is the square root of the least of: acceleration times corner radius (from square_corner_velocity and the corner angle), the mid-move centripetal bound of either of the two moves, and the squared commanded speed. Reversals and missing neighbour moves stop.",
  ["inputs"], "every pair of move directions, lengths and settings",
  "no test uses this model",
  [JH], [("formula", "junction_handling.junction_handling_klipper.calc_j_vel"), ("corner deviation", "junction_handling.junction_handling_klipper.calc_j_delta")])
p("J05", "The MKA model limits each axis' velocity jump",
  "With the MKA model the corner speed is the smaller of the two moves' speeds when no axis' velocity jump, extruder included, exceeds the jerk setting. Otherwise it is that speed multiplied once by the factor jerk/jump of every offending axis, where the axes are examined in the order x, y, z, extruder and each jump is measured after the reductions found so far. It is never larger than the smaller of the two speeds.",
  ["inputs"], "every pair of move velocities and every jerk setting",
  "no test uses this model",
  [JH], [("formula", "junction_handling.junction_handling_MKA.calc_j_vel")])
p("J06", "Look-ahead uses the next line that actually moves",
  "The junction speed of a move is computed against the next move that changes any axis, skipping any number of lines in between that do not move; if there is none, the velocity to continue with is zero. The first state of a program and its neighbours never cause a failure.",
  ["inputs", "histories"], "every number and kind of non-moving lines between two moves",
  "unbounded number of intermediate lines",
  [JH], [("look-ahead", "junction_handling.junction_handling.calc_vel_next")])
# ---------------------------------------------------------------- queries
p("Q01", "Values inside a segment are the exact motion",
  "Inside a segment the velocity runs linearly from begin to end velocity and the position is its time integral from the begin position, for each axis and for every time in the segment; the boundary values are met exactly, zero-duration segments are defined, and a time outside the segment is refused with an error.",
  ["inputs"], "every segment and every time",
  "identity in time; tests look at end points only",
  [UT], [("interpolation", "utils.segment.get_velocity"), ("integration", "utils.segment.get_position")])
p("Q02", "Any time of the simulation can be looked up, in any order",
  "For every time from zero to the end of the simulation, both ends included, a lookup finds a segment containing that time, reports its correct index, and gives a result that does not depend on which times were asked before.",
  ["inputs", "histories"], "every time and every sequence of lookups",
  "the lookup caches its last index, so results could depend on the history of queries; no test queries by time",
  [GI], [("segment search", "gcode_interpreter.find_current_segment"), ("cache", "gcode_interpreter.simulation.get_values"), ("flattening", "gcode_interpreter.unpack_blocklist")])
p("Q03", "Output units scale every length once and nothing else",
  "Positions, velocities and extents returned in an output unit system are the millimetre values times that system's factor, exactly once, using the simulation's unit system when none is given; times, flags and layer numbers are never scaled. The input and output factors of each unit system are reciprocal and describe metre, millimetre and inch.",
  ["configurations", "inputs"], "every unit system and every query",
  "tests use the identity system only",
  [GI, AB], [("factors", "gcode_interpreter.simulation.__init__ / setup.__init__"), ("use", "simulation.get_values, extrusion_extent, extrusion_max_vel, generate_abaqus_event_series")])
p("Q04", "Queries and exports leave the simulation unchanged",
  "Querying values, widths, extents or maximum velocities, printing or saving summaries, and writing event series, layer metrics, submodel times or plots never changes states, moves, segments or settings of the simulation; only the lookup's internal cache may change.",
  ["histories"], "every sequence of queries and exports",
  "interference between outputs depends on their order",
  [GI, TO, AB, PB, UT], [("read-only access", "all query and export functions")])
p("Q05", "Extrusion width follows from volume conservation",
  "At every time the reported extrusion width equals the extruded filament volume rate divided by extrusion height and travel speed, with the filament cross section computed from the given diameter, and is zero when the nozzle does not travel.",
  ["inputs"], "every time, height and diameter",
  "untested formula over real inputs",
  [GI], [("formula", "gcode_interpreter.simulation.get_width")])
p("Q06", "Extent and maximum velocity cover exactly the extruding moves",
  "The reported extrusion extent is the per-axis minimum and maximum over start and end positions of all moves that extrude material and of no others; the reported maximum velocity is the largest travel speed occurring in them. A simulation without extrusion reports no extent but an error.",
  ["inputs"], "every trajectory",
  "aggregates over arbitrary trajectories; tests only check that a file exists",
  [GI, PB, UT], [("extent", "gcode_interpreter.simulation.extrusion_extent"), ("maximum", "gcode_interpreter.simulation.extrusion_max_vel"), ("per move", "planner_block.planner_block.extrusion_block_max_vel")])
# ---------------------------------------------------------------- exports
p("X01", "ABAQUS event series is the exact trajectory",
  "The event series has one row for the start and one per segment end, in order, with the unscaled time, the scaled position and a flag that is 1 exactly when the following segment extrudes more than the tolerance; the last flag is 0. The file and the returned tuple have the same rows.",
  ["inputs"], "every trajectory, tolerance and unit system",
  "tests only check that the file exists",
  [AB], [("series construction", "abaqus_file_generator.generate_abaqus_event_series")])
p("X02", "Layer metrics partition the whole print",
  "Each layer's duration runs from the first move of the layer (the start of the print for the first) to the first move of the next layer or the end of the print, and each layer's travel distance is the sum over exactly its own moves, so that durations add up to the print time and distances to the total travel, the last layer included. The average speed is distance over duration.",
  ["inputs"], "every trajectory and layer sequence",
  "tests only check that the file exists",
  [TO], [("accumulation", "tools.save_layer_metrics")])
p("X03", "The saved summary states the simulation's true figures",
  "The summary file contains the simulated file's name, the end time of the last segment, the minimum and maximum of each axis under that axis' own key and the maximum velocity while extruding; no figure is attached to another's key.",
  ["inputs"], "every simulation",
  "tests only check that the file exists",
  [GI], [("summary", "gcode_interpreter.simulation.save_summary")])
p("X04", "Submodel times are the true crossing times of the volume",
  "For every move that crosses a face of the control volume, the reported time is the time at which the simulated motion is at the crossing point, also while the move accelerates or decelerates, and it is reported as entry or exit according to the direction of crossing. Entry and exit times are each in ascending order, and a trajectory that never crosses yields empty lists.",
  ["inputs"], "every trajectory and control volume",
  "no test calls this export",
  [TO, PB, UT], [("intersection", "tools.write_submodel_times"), ("time at distance", "planner_block.planner_block.inverse_time_at_pos"), ("inverse motion", "utils.segment._interpolate_time_to_space")])
p("X05", "Files are written only where asked and never left open",
  "Every file the library opens is closed again on every path, including errors. Files are written only at paths the caller passed in (or their documented default), with missing parent directories created for the data exports, and no path other than these is created, changed or deleted.",
  ["inputs", "fault_sequences"], "every call and every failure point",
  "leaks and stray writes show only on error paths and unusual arguments",
  [GI, TO, AB, CL], [("writers", "save_summary, save_layer_metrics, write_submodel_times, generate_abaqus_event_series"), ("readers", "read_gcode_to_dict_list, setup.load_setup")])
p("X06", "Plots and printed summary show the planned motion",
  "The 3D mesh of plot_3d consists of one line per uninterrupted run of extruding segments (or one line through everything on request), through the begin of its first and the end of every segment in order, coloured by the speed there; a mesh passed in is drawn and returned as it is. The diagram of plot_vel shows, per chosen axis, velocity and position of the motion at every plotted time, the speed, and marks at the ends of blocks or segments as asked. The uncoloured outline of plot_2d_position passes through the segment ends, and the printed summary names the duration of the whole program.",
  ["inputs", "configurations"], "every trajectory and every choice of axes, times and marks",
  "no test draws anything; a dropped, merged or shifted run or curve looks plausible in a picture",
  [GI], [("mesh", "gcode_interpreter.simulation.plot_3d"), ("diagram", "gcode_interpreter.simulation.plot_vel"), ("outline", "gcode_interpreter.simulation.plot_2d_position"), ("summary", "gcode_interpreter.simulation.print_summary")],
  observe=["data handed to pyvista and matplotlib", "mesh returned"])
# ---------------------------------------------------------------- library wide
p("L01", "4D vector arithmetic is componentwise and immutable",
  "Adding, subtracting, scaling and dividing positions and velocities acts on x, y, z and e independently, accepts the other operand as vector, list, tuple or array with the same result, returns the same kind of vector and never changes an operand; equality compares all four components. Norms and distances cover X, Y and Z, and E exactly when requested.",
  ["inputs"], "all operand values and operand kinds",
  "all combinations of operand kinds and components; untested today",
  [UT], [("operators", "utils.vector_4D"), ("distance", "utils.position.get_t_distance")])
p("L02", "Results depend only on the inputs of that simulation",
  "A simulation's states and trajectory are a function of its G-code, setup and arguments: they do not depend on time, randomness, environment or set ordering, nor on other simulations run before in the same process. No module-level or class-level data that influences results is modified after import.",
  ["histories", "configurations"], "every sequence of simulations in one process",
  "hidden shared state shows only for particular call histories",
  [SG, ST, PB, JH, UT, GI, TO, AB], [("no shared mutable state", "all modules")])
p("L03", "No operation fails on an undefined name, attribute or signature",
  "Every public operation can be called as documented without failing on an internal programming error: each name used is bound, each attribute of the library's own classes that is read is defined by that class, and each call to a function or constructor of the library matches its parameters.",
  ["programs", "inputs"], "every statement of the library, reached or not by tests",
  "tests reach a fraction of the statements; an undefined attribute fails only when its line runs",
  [SG, ST, PB, JH, UT, GI, TO, AB, CL, HE], [("resolved program", "all modules")])
p("L04", "The command line reports failure and honours its options",
  "Whenever the command line ends early because of an invalid or missing input, the process exit status is non-zero. Every declared option reaches the simulation or output it describes, and nothing is written when the user declines an output directory.",
  ["inputs", "configurations"], "every combination of options and prompts",
  "no test runs the command line",
  [CL], [("option wiring", "cli._plot"), ("exits", "cli._plot"), ("parser", "cli._main")])
p("L05", "The package works on every Python version it declares",
  "The sources use only syntax, evaluated annotations and standard-library features available in the oldest declared Python version, import only the standard library and declared dependencies at run time, and every data file looked up at run time exists and is included in the built package.",
  ["configurations"], "every declared Python version and a clean installation",
  "tests run on a single interpreter version from the source tree",
  [CL, GI, "pyproject.toml"], [("metadata", "pyproject.toml"), ("sources", "all modules")])
p("L06", "Console output is safe inside ABAQUS",
  "When running inside ABAQUS, everything the simulation, the exports and the setup print is stripped of non-ASCII characters first and printing never fails because of the type of what is printed; outside ABAQUS messages are printed unchanged.",
  ["configurations", "inputs"], "every message, inside and outside ABAQUS",
  "tests never run with the ABAQUS flag set",
  [HE, GI, SG, PB, TO, AB], [("print wrapper", "helpers.custom_print")])
# ---------------------------------------------------------------- not applicable
p("N01", "Speed is continuous across moves after correction",
  "After trajectory correction, the speed at the end of each move equals the speed at the start of the next one within numerical tolerance, for every program.",
  ["inputs", "histories"], "every program",
  "fixed point of a backwards-propagating correction over arbitrary block sequences",
  [PB, GI], [("correction", "planner_block.planner_block.self_correction")])
p("N02", "Simulated times match the real printer",
  "Simulated layer and print times agree with a real printer running the selected firmware within the accuracy stated in the paper.",
  ["inputs"], "every program and printer",
  "needs measurements on hardware",
  [PB, JH], [("planner model", "planner_block, junction_handling")])
p("N03", "Planning succeeds for every valid program",
  "For every G-code program within the supported commands and every valid setup, planning finishes without numerical failure and no move is impossible to model.",
  ["inputs"], "every program",
  "depends on floating-point tolerances of comparisons between computed speeds and distances",
  [PB, UT], [("profile selection", "planner_block.planner_block.move_maker2"), ("self check", "utils.segment.self_check")])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(x, ensure_ascii=False) + "\n" for x in P))
print(len(P), "properties")
