From 2c046fab5b32e34237ae2f10719a5fa493801401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:08 +0000
Subject: [PATCH 01/28] fix: G92 with a non-zero value no longer moves the
 machine

The offset has to be old coordinate minus new coordinate.
---
 pyGCodeDecode/state_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyGCodeDecode/state_generator.py b/pyGCodeDecode/state_generator.py
index fc370c8..d75bded 100644
--- a/pyGCodeDecode/state_generator.py
+++ b/pyGCodeDecode/state_generator.py
@@ -310,7 +310,7 @@ def dict_list_traveler(line_dict_list: List[dict], initial_machine_setup: dict)
             for key in line_dict["G92"]:
                 if key in known_commands["G92"]:
                     virtual_machine["_" + key] = (
-                        virtual_machine[key] + line_dict["G92"][key] + virtual_machine["_" + key]
+                        virtual_machine[key] - line_dict["G92"][key] + virtual_machine["_" + key]
                     )
                     virtual_machine[key] = line_dict["G92"][key]
 
-- 
2.43.0


From a7ceeb8de271f4d2e3e94af1c6044fd10152756b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:08 +0000
Subject: [PATCH 02/28] fix: stop at corners with zero jerk in Marlin classic
 jerk

---
 pyGCodeDecode/junction_handling.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyGCodeDecode/junction_handling.py b/pyGCodeDecode/junction_handling.py
index ddc7371..4aaea34 100644
--- a/pyGCodeDecode/junction_handling.py
+++ b/pyGCodeDecode/junction_handling.py
@@ -182,6 +182,9 @@ class junction_handling_marlin_jerk(junction_handling):
 
         vel_diff = vel_0 - vel_1
         jerk_move = vel_diff.get_norm()
+        if self.jerk == 0 and not np.isclose(jerk_move, 0.0):  # no jerk allowed, stop at every change of velocity
+            self.junction_vel = 0
+            return
         scale = jerk_move / self.jerk if self.jerk > 0 else 0
 
         if scale >= 1:
-- 
2.43.0


From ffb2421363a45fe27cdcf7c68d9657f1aaa97bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:08 +0000
Subject: [PATCH 03/28] fix: segment lookup finds every time up to the end,
 independent of earlier lookups

---
 pyGCodeDecode/gcode_interpreter.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pyGCodeDecode/gcode_interpreter.py b/pyGCodeDecode/gcode_interpreter.py
index 7f91066..395728f 100644
--- a/pyGCodeDecode/gcode_interpreter.py
+++ b/pyGCodeDecode/gcode_interpreter.py
@@ -97,12 +97,12 @@ def find_current_segment(path: List[segment], t: float, last_index: int = None,
     """
     if keep_position:
         # use this if eval for times where no planner blocks are created
-        if last_index is None or len(path) - 1 < last_index or path[last_index].t_begin > t:
+        if last_index is None or len(path) - 1 < last_index or path[last_index].t_begin >= t:
             # unoptimized search, still returns index
             for last_index, segm in enumerate(path):
-                if t >= segm.t_begin and t < segm.t_end:
+                if t >= segm.t_begin and t <= segm.t_end:
                     return segm, last_index
-                elif t >= segm.t_end and t < path[last_index + 1].t_begin:
+                elif last_index + 1 < len(path) and t >= segm.t_end and t < path[last_index + 1].t_begin:
                     # if no segment exists, create one that interpolates the previous segment as static
                     interpolated_segment = segment(
                         t_begin=segm.t_end,
@@ -115,30 +115,30 @@ def find_current_segment(path: List[segment], t: float, last_index: int = None,
                     return interpolated_segment, last_index
         else:
             # optimized search
-            for id, segm in enumerate(path[last_index:]):
+            for index, segm in enumerate(path[last_index:], start=last_index):
                 if t >= segm.t_begin and t <= segm.t_end:
-                    return segm, last_index + id
-                elif t >= segm.t_end and t < path[last_index + 1].t_begin:
+                    return segm, index
+                elif index + 1 < len(path) and t >= segm.t_end and t < path[index + 1].t_begin:
                     # if no segment exists, create one that interpolates the previous segment as static
                     interpolated_segment = segment(
                         t_begin=segm.t_end,
-                        t_end=path[last_index + 1].t_begin,
+                        t_end=path[index + 1].t_begin,
                         pos_begin=segm.pos_end,
                         pos_end=segm.pos_end,
                         vel_begin=velocity(0, 0, 0, 0),
                         vel_end=velocity(0, 0, 0, 0),
                     )
-                    return interpolated_segment, last_index
+                    return interpolated_segment, index
     else:
         # original function untouched
         # some robustness checks
         if path[-1].t_end < t:
             custom_print("No movement at this time in Path!")
             return None, None
-        elif last_index is None or len(path) - 1 < last_index or path[last_index].t_begin > t:
+        elif last_index is None or len(path) - 1 < last_index or path[last_index].t_begin >= t:
             # custom_print(f"unoptimized Search, last index: {last_index}")
             for last_index, segm in enumerate(path):
-                if t >= segm.t_begin and t < segm.t_end:
+                if t >= segm.t_begin and t <= segm.t_end:
                     return segm, last_index
         else:
             for id, segm in enumerate(path[last_index:]):
-- 
2.43.0


From cea1c293d6514db5af74dc23a4364a7396125f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:08 +0000
Subject: [PATCH 04/28] fix: dwell before the first move and dwell on the line
 of a move

---
 pyGCodeDecode/planner_block.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/pyGCodeDecode/planner_block.py b/pyGCodeDecode/planner_block.py
index 9c43909..4b1fb7f 100644
--- a/pyGCodeDecode/planner_block.py
+++ b/pyGCodeDecode/planner_block.py
@@ -318,6 +318,8 @@ class planner_block:
 
         # standard move maker
         if self.valid:
+            if self.state_B.pause is not None:
+                v_JD = 0  # a dwell after the move requires a full stop
             self.JD = v_JD * self.direction  # jd writeout for debugging plot
             self.move_maker2(v_end=v_JD)
             self.is_extruding = self.state_A.state_position.is_extruding(
@@ -327,16 +329,23 @@ class planner_block:
         # dwell functionality
         if self.state_B.pause is not None:
             self.JD = [0, 0, 0, 0]
-            self.segments = [
+            # previous motion: move of this line, previous block or standstill at the beginning of the program
+            if len(self.segments) > 0:
+                previous_segment = self.segments[-1]
+            elif self.prev_block is not None:
+                previous_segment = self.prev_block.segments[-1]
+            else:
+                previous_segment = segment.create_initial(initial_position=self.state_B.state_position)
+            self.segments.append(
                 segment(
-                    t_begin=self.prev_block.segments[-1].t_end,
-                    t_end=self.prev_block.segments[-1].t_end + self.state_B.pause,
-                    pos_begin=self.prev_block.segments[-1].pos_end,
-                    pos_end=self.prev_block.segments[-1].pos_end,
+                    t_begin=previous_segment.t_end,
+                    t_end=previous_segment.t_end + self.state_B.pause,
+                    pos_begin=previous_segment.pos_end,
+                    pos_end=previous_segment.pos_end,
                     vel_begin=velocity(0, 0, 0, 0),
                     vel_end=velocity(0, 0, 0, 0),
                 )
-            ]
+            )
 
     @property
     def prev_block(self):
-- 
2.43.0


From 10f14d3e778f595003b8d016dd11826b46f1f226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:08 +0000
Subject: [PATCH 05/28] fix: segment.create_initial without a position

---
 pyGCodeDecode/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyGCodeDecode/utils.py b/pyGCodeDecode/utils.py
index 5405adb..6ab5953 100644
--- a/pyGCodeDecode/utils.py
+++ b/pyGCodeDecode/utils.py
@@ -556,5 +556,5 @@ class segment:
             segment: (segment) initial beginning segment
         """
         velocity_0 = velocity(0, 0, 0, 0)
-        pos_0 = position(x=0, y=0, z=0, e=0) if initial_position is None else initial_position
+        pos_0 = position(0, 0, 0, 0) if initial_position is None else initial_position
         return cls(t_begin=0, t_end=0, pos_begin=pos_0, vel_begin=velocity_0, pos_end=pos_0, vel_end=velocity_0)
-- 
2.43.0


From aaac780c7bb0cad35cc548480e6793c0d7f3c434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:41 +0000
Subject: [PATCH 06/28] fix: division of 4D vectors by int as documented

---
 pyGCodeDecode/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyGCodeDecode/utils.py b/pyGCodeDecode/utils.py
index 6ab5953..080248d 100644
--- a/pyGCodeDecode/utils.py
+++ b/pyGCodeDecode/utils.py
@@ -129,7 +129,7 @@ class vector_4D:
         Returns:
             div: (self) scalar division, scaling
         """
-        if type(other) is float or type(other) is np.float64:
+        if type(other) is float or type(other) is np.float64 or type(other) is int:
             x = self.x / other
             y = self.y / other
             z = self.z / other
-- 
2.43.0


From c0e90d76fb2c1f02e386fea45e95ff8eba2392c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:41 +0000
Subject: [PATCH 07/28] fix: velocity.avoid_overspeed uses the existing
 attributes

---
 pyGCodeDecode/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyGCodeDecode/utils.py b/pyGCodeDecode/utils.py
index 080248d..c14e330 100644
--- a/pyGCodeDecode/utils.py
+++ b/pyGCodeDecode/utils.py
@@ -225,10 +225,10 @@ class velocity(vector_4D):
             vel: (velocity) constrained by max velocity
         """
         scale = 1.0
-        scale = p_settings.Vx / self.Vx if self.Vx > 0 and p_settings.Vx / self.Vx < scale else scale
-        scale = p_settings.Vy / self.Vy if self.Vy > 0 and p_settings.Vy / self.Vy < scale else scale
-        scale = p_settings.Vz / self.Vz if self.Vz > 0 and p_settings.Vz / self.Vz < scale else scale
-        scale = p_settings.Ve / self.Ve if self.Vz > 0 and p_settings.Ve / self.Ve < scale else scale
+        for vel_ax, vel_max in zip(
+            self.get_vec(withExtrusion=True), [p_settings.vX, p_settings.vY, p_settings.vZ, p_settings.vE]
+        ):
+            scale = vel_max / abs(vel_ax) if abs(vel_ax) > 0 and vel_max / abs(vel_ax) < scale else scale
 
         return self * scale
 
-- 
2.43.0


From 99c7ea2a1df610e8d3e0f2ff74c53ce5559652ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:41 +0000
Subject: [PATCH 08/28] fix: segment results are stored in an initialized
 dictionary

---
 pyGCodeDecode/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyGCodeDecode/utils.py b/pyGCodeDecode/utils.py
index c14e330..3dc6b99 100644
--- a/pyGCodeDecode/utils.py
+++ b/pyGCodeDecode/utils.py
@@ -347,6 +347,7 @@ class segment:
         self.pos_end = pos_end
         self.vel_begin = vel_begin
         self.vel_end = vel_end
+        self.result = {}  # store segment results here
         self.self_check()
 
     def __str__(self) -> str:
-- 
2.43.0


From 0bdd0490ca924ab03237b69b4d13415fec8dfc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:41 +0000
Subject: [PATCH 09/28] fix: submodel times in decelerating segments and at
 standstill

---
 pyGCodeDecode/utils.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/pyGCodeDecode/utils.py b/pyGCodeDecode/utils.py
index 3dc6b99..fbe516f 100644
--- a/pyGCodeDecode/utils.py
+++ b/pyGCodeDecode/utils.py
@@ -467,15 +467,10 @@ class segment:
             return slope * t + scalar_begin
 
         def get_time(x):
-            a = (self.vel_end - self.vel_begin).get_norm() / (self.t_end - self.t_begin)
-            if a > 0:
-                v_sq = 2 * a * x + self.vel_begin.get_norm() ** 2
-                t = (np.sqrt(v_sq) - self.vel_begin.get_norm()) / a if v_sq > 0 else 0
-                if v_sq <= 0:
-                    raise ValueError("Could not map time dependant scalar to space.")
-            elif a == 0:
-                t = x / self.vel_begin.get_norm()
-            return t
+            v_begin = self.vel_begin.get_norm()
+            a = (self.vel_end.get_norm() - v_begin) / (self.t_end - self.t_begin)  # negative while decelerating
+            v_sum = v_begin + np.sqrt(max(2 * a * x + v_begin**2, 0))  # sum of begin velocity and velocity at x
+            return 2 * x / v_sum if v_sum > 0 else 0
 
         t = get_time(x)
         scalar = lin_scalar(t)
-- 
2.43.0


From 5f974077d087ba5d6407c8baba168c754542dfa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:41 +0000
Subject: [PATCH 10/28] fix: submodel times of a trajectory that never crosses
 the volume

---
 pyGCodeDecode/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyGCodeDecode/tools.py b/pyGCodeDecode/tools.py
index ac79908..674e56b 100644
--- a/pyGCodeDecode/tools.py
+++ b/pyGCodeDecode/tools.py
@@ -252,7 +252,7 @@ def write_submodel_times(
                 if isec is not None and point_inside(p_eval=point_eval(isec, control_volume.get_plane_lim())):
                     timetable.append([float(block.inverse_time_at_pos(s_len)), sgn])
 
-    timetable = np.asarray(timetable)  # convert list to array for sorting
+    timetable = np.asarray(timetable, dtype=float).reshape(-1, 2)  # convert list to array for sorting
     timetable = timetable[timetable[:, 0].argsort()]  # sort array by first column
 
     time_in = timetable[:, 0][np.asarray(timetable[:, 1], dtype=bool)]  # filter the data for entering the CV
-- 
2.43.0


From 1524c2be6a358b636797503b25b17afe9d01f8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:41 +0000
Subject: [PATCH 11/28] fix: create missing parent directory for submodel times

---
 pyGCodeDecode/tools.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyGCodeDecode/tools.py b/pyGCodeDecode/tools.py
index 674e56b..9e18666 100644
--- a/pyGCodeDecode/tools.py
+++ b/pyGCodeDecode/tools.py
@@ -267,6 +267,9 @@ def write_submodel_times(
     }
 
     if filename is not None:
+        # create directory if necessary
+        pathlib.Path(filename).parent.mkdir(parents=True, exist_ok=True)
+
         with open(filename, "w") as file:
             yaml.dump(result, file)
 
-- 
2.43.0


From be70968cd920a301e8f85f9484b7a1d03719f180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:41 +0000
Subject: [PATCH 12/28] fix: load presets with the safe YAML loader and close
 the file

---
 pyGCodeDecode/gcode_interpreter.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/pyGCodeDecode/gcode_interpreter.py b/pyGCodeDecode/gcode_interpreter.py
index 395728f..0bccb34 100644
--- a/pyGCodeDecode/gcode_interpreter.py
+++ b/pyGCodeDecode/gcode_interpreter.py
@@ -839,12 +839,8 @@ class setup:
         Args:
             filepath: (string) specify path to setup file
         """
-        import yaml
-        from yaml import Loader
-
-        file = open(file=filepath)
-
-        setup_dict = yaml.load(file, Loader=Loader)
+        with open(file=filepath) as file:
+            setup_dict = yaml.safe_load(file)
         return setup_dict
 
     def select_printer(self, printer_name):
-- 
2.43.0


From 8ba4528beae3ba68356be958555e547ff6ecfc86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:41 +0000
Subject: [PATCH 13/28] fix: setup.get_dict returns an independent dictionary

---
 pyGCodeDecode/gcode_interpreter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyGCodeDecode/gcode_interpreter.py b/pyGCodeDecode/gcode_interpreter.py
index 0bccb34..5b815cb 100644
--- a/pyGCodeDecode/gcode_interpreter.py
+++ b/pyGCodeDecode/gcode_interpreter.py
@@ -907,7 +907,7 @@ class setup:
         Returns:
             return_dict: (dict) setup dictionary
         """
-        return_dict = self.setup_dict[self.printer_select]  # create dict
+        return_dict = dict(self.setup_dict[self.printer_select])  # create dict, independent of the setup
         return_dict.update(self.initial_position)  # add initial position
         if self.layer_cue is not None:
             return_dict.update({"layer_cue": self.layer_cue})  # add layer cue
-- 
2.43.0


From c864f13e36ed59cdad0309adac566373b8be493a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:41 +0000
Subject: [PATCH 14/28] fix: name the missing printer in the error message

---
 pyGCodeDecode/gcode_interpreter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyGCodeDecode/gcode_interpreter.py b/pyGCodeDecode/gcode_interpreter.py
index 5b815cb..9ef4e68 100644
--- a/pyGCodeDecode/gcode_interpreter.py
+++ b/pyGCodeDecode/gcode_interpreter.py
@@ -850,7 +850,7 @@ class setup:
             printer_name: (string) select printer by name
         """
         if printer_name not in self.setup_dict:
-            raise ValueError(f"Selected Printer {self.printer_select} not found in setup file: {self.filename}.")
+            raise ValueError(f"Selected Printer {printer_name} not found in setup file: {self.filename}.")
         else:
             self.printer_select = printer_name
 
-- 
2.43.0


From 810b9f0872ac5effc01998d49330bbf0869aa12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:41 +0000
Subject: [PATCH 15/28] fix: non-zero exit status when the CLI aborts

---
 pyGCodeDecode/cli.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyGCodeDecode/cli.py b/pyGCodeDecode/cli.py
index 7b4e484..c9d456f 100644
--- a/pyGCodeDecode/cli.py
+++ b/pyGCodeDecode/cli.py
@@ -3,6 +3,7 @@
 import argparse
 import importlib.resources
 import pathlib
+import sys
 
 from pyGCodeDecode import __version__
 from pyGCodeDecode.examples.benchy import benchy_example
@@ -31,13 +32,13 @@ def _plot(args: argparse.Namespace):
             custom_print(
                 f"❌ The specified G-code:\n{specified_path.resolve()}\nis not valid.\n" "🛑 Exiting the program."
             )
-            exit()
+            sys.exit(1)
         else:
             custom_print("⚠️ No G-code file specified. Looking for a G-code file in the current directory... 👀")
             files_list = list(pathlib.Path.cwd().glob("*.gcode"))
             if files_list.__len__() == 0:
                 custom_print("❌ No G-code file found in the current directory.\n" "🛑 Exiting the program.")
-                exit()
+                sys.exit(1)
             elif files_list.__len__() == 1:
                 g_code_file = files_list[0]
             else:
@@ -45,7 +46,7 @@ def _plot(args: argparse.Namespace):
                 for file in files_list:
                     custom_print(f"    - {file.resolve()}")
                 custom_print("🛑 Exiting the program.")
-                exit()
+                sys.exit(1)
 
         custom_print(f"✅ Using the G-code file:\n{g_code_file.resolve()}")
         return g_code_file
@@ -59,7 +60,7 @@ def _plot(args: argparse.Namespace):
             custom_print(
                 f"❌ The specified presets file:\n{presets_file.resolve()}\nis not valid.\n" "🛑 Exiting the program."
             )
-            exit()
+            sys.exit(1)
         else:
             custom_print(f"✅ Using the presets file:\n{presets_file.resolve()}")
 
-- 
2.43.0


From f6de67b279a065471ddc43691d94856c87aeb0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:41 +0000
Subject: [PATCH 16/28] fix: CLI annotations for Python 3.9

---
 pyGCodeDecode/cli.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyGCodeDecode/cli.py b/pyGCodeDecode/cli.py
index c9d456f..91a65c4 100644
--- a/pyGCodeDecode/cli.py
+++ b/pyGCodeDecode/cli.py
@@ -4,6 +4,7 @@ import argparse
 import importlib.resources
 import pathlib
 import sys
+from typing import Optional
 
 from pyGCodeDecode import __version__
 from pyGCodeDecode.examples.benchy import benchy_example
@@ -24,7 +25,7 @@ def _run_example(args: argparse.Namespace):
 def _plot(args: argparse.Namespace):
     """Generate a plot from a GCode file."""
 
-    def _find_gcode_file(specified_path: pathlib.Path | None) -> pathlib.Path:
+    def _find_gcode_file(specified_path: Optional[pathlib.Path]) -> pathlib.Path:
         """Check if the G-code file exists and try to find one in the cwd if not specified."""
         if specified_path is not None and specified_path.is_file():
             g_code_file = specified_path
@@ -51,7 +52,7 @@ def _plot(args: argparse.Namespace):
         custom_print(f"✅ Using the G-code file:\n{g_code_file.resolve()}")
         return g_code_file
 
-    def _get_presets_file(presets_file: pathlib.Path | None) -> pathlib.Path:
+    def _get_presets_file(presets_file: Optional[pathlib.Path]) -> pathlib.Path:
         """Get the machine setup from the presets file."""
         if presets_file is None:
             custom_print("⚠️ No presets file specified. Using the default presets shipped with pyGCD.")
@@ -66,7 +67,7 @@ def _plot(args: argparse.Namespace):
 
         return presets_file
 
-    def _get_out_dir(out_dir: pathlib.Path | None, g_code_file: pathlib.Path) -> pathlib.Path:
+    def _get_out_dir(out_dir: Optional[pathlib.Path], g_code_file: pathlib.Path) -> pathlib.Path:
         """Get the output directory for the plot."""
         if out_dir is None:
             answer = ""
-- 
2.43.0


From 9820eb1b6550949921888e8679daaeadff6628eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:41 +0000
Subject: [PATCH 17/28] fix: custom_print accepts any type inside ABAQUS

---
 pyGCodeDecode/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyGCodeDecode/helpers.py b/pyGCodeDecode/helpers.py
index 595e185..0a49d35 100644
--- a/pyGCodeDecode/helpers.py
+++ b/pyGCodeDecode/helpers.py
@@ -16,7 +16,7 @@ def custom_print(*args, **kwargs) -> None:
     if FLAG_USING_ABAQUS:
         # remove non-ascii characters like emojis as ABAQUS can't handle them
         for arg in args:
-            sanitized_args.append(arg.encode("ascii", "ignore").decode())
+            sanitized_args.append(str(arg).encode("ascii", "ignore").decode())
     else:
         sanitized_args = args
 
-- 
2.43.0


From f8fa84571b8117fb6547fbc8659cbc8d4ae606a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:41 +0000
Subject: [PATCH 18/28] fix: initial state carries the unit in force

---
 pyGCodeDecode/state_generator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyGCodeDecode/state_generator.py b/pyGCodeDecode/state_generator.py
index d75bded..1c4e4ce 100644
--- a/pyGCodeDecode/state_generator.py
+++ b/pyGCodeDecode/state_generator.py
@@ -254,6 +254,7 @@ def dict_list_traveler(line_dict_list: List[dict], initial_machine_setup: dict)
         vY=virtual_machine["vY"],
         vZ=virtual_machine["vZ"],
         vE=virtual_machine["vE"],
+        units=virtual_machine["units"],
     )
     new_state = state(state_position=state_position, state_p_settings=p_settings)  # create new state
 
-- 
2.43.0


From b7ab20359991557545c9ca4b09ad373df65853c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:42 +0000
Subject: [PATCH 19/28] fix: apply inch units (G20) to positions, speeds and
 accelerations

---
 pyGCodeDecode/state_generator.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/pyGCodeDecode/state_generator.py b/pyGCodeDecode/state_generator.py
index 1c4e4ce..dc810c4 100644
--- a/pyGCodeDecode/state_generator.py
+++ b/pyGCodeDecode/state_generator.py
@@ -195,6 +195,25 @@ def read_gcode_to_dict_list(filepath: pathlib.Path) -> List[dict]:
     return dict_list
 
 
+def inch_to_mm(line_dict: dict) -> dict:
+    """Convert all lengths, speeds and accelerations of a line from inches to millimeters.
+
+    Args:
+        line_dict: (dict) commands of one line
+
+    Returns:
+        dict: (dict) commands of that line with converted arguments
+    """
+    converted = dict(line_dict)
+    for command in ["G0", "G1", "G92", "M203", "M204", "M205"]:
+        if command in line_dict:
+            converted[command] = {
+                key: value * 25.4 if isinstance(value, (int, float)) else value
+                for key, value in line_dict[command].items()
+            }
+    return converted
+
+
 def dict_list_traveler(line_dict_list: List[dict], initial_machine_setup: dict) -> List[state]:
     """
     Convert the line dictionary to a state.
@@ -283,6 +302,8 @@ def dict_list_traveler(line_dict_list: List[dict], initial_machine_setup: dict)
             virtual_machine["units"] = "inch"
         if "G21" in line_dict:
             virtual_machine["units"] = "SImm"
+        if virtual_machine["units"] == "inch":
+            line_dict = inch_to_mm(line_dict)
 
         # position & velocity
         pos_keys = ["X", "Y", "Z"]
-- 
2.43.0


From 215c844d0b319d1240201b01def413cbf929025d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:02 +0000
Subject: [PATCH 20/28] fix: layer metrics include the last move and a last
 layer of a single move

---
 pyGCodeDecode/tools.py | 36 ++++++++++++++++--------------------
 1 file changed, 16 insertions(+), 20 deletions(-)

diff --git a/pyGCodeDecode/tools.py b/pyGCodeDecode/tools.py
index 9e18666..4c39d39 100644
--- a/pyGCodeDecode/tools.py
+++ b/pyGCodeDecode/tools.py
@@ -46,37 +46,33 @@ def save_layer_metrics(
     last_layer_time = 0
     travel = 0
 
+    def finish_layer(layer_end):
+        duration = layer_end - last_layer_time
+        average_speed = travel / duration if duration != 0 else "NaN"
+
+        layers.append(current_layer)
+        durations.append(duration)
+        travel_distances.append(travel)
+        avg_speeds.append(average_speed)
+
     for block in simulation.blocklist:
-        last_block_of_layer = False
         next_layer = block.state_B.layer
 
-        # calculate the duration of the block
         if next_layer > current_layer:  # layer switch in this block
-            last_block_of_layer = True
             block_begin = block.segments[0].t_begin
-            duration = block_begin - last_layer_time
-        elif block.next_block is None:  # last block of the print
-            last_block_of_layer = True
-            block_end = block.segments[-1].t_end
-            duration = block_end - last_layer_time
-
-        if last_block_of_layer:
-            average_speed = travel / duration if duration != 0 else "NaN"
-
-            layers.append(current_layer)
-            durations.append(duration)
-            travel_distances.append(travel)
-            avg_speeds.append(average_speed)
+            finish_layer(layer_end=block_begin)
 
             # set variables for next layer
-            if next_layer > current_layer:
-                travel = 0
-                last_layer_time = block_begin
-                current_layer = next_layer
+            travel = 0
+            last_layer_time = block_begin
+            current_layer = next_layer
 
         # add travel distance of current block
         travel += block.get_block_travel()
 
+        if block.next_block is None:  # last block of the print
+            finish_layer(layer_end=block.segments[-1].t_end)
+
     # write the layer info to a csv if a filepath is given
     if filepath is not None:
         # create directory if necessary
-- 
2.43.0


From c63d744a5a68a9a8ca8c265601d1576332e90a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:21 +0000
Subject: [PATCH 21/28] fix: crossing points are not lost to rounding in
 submodel times

---
 pyGCodeDecode/tools.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyGCodeDecode/tools.py b/pyGCodeDecode/tools.py
index 4c39d39..361af04 100644
--- a/pyGCodeDecode/tools.py
+++ b/pyGCodeDecode/tools.py
@@ -162,12 +162,12 @@ def write_submodel_times(
 
             return [X_pos, X_neg, Y_pos, Y_neg, Z_pos, Z_neg]
 
-    def point_eval(point, pl_lim):
+    def point_eval(point, pl_lim, tolerance=0.0):
         p_eval = []
         for lim_n, p_n in zip(pl_lim, point):
             inters_pl = [
-                p_n <= lim_n[0],
-                p_n >= lim_n[1],
+                p_n <= lim_n[0] + tolerance,
+                p_n >= lim_n[1] - tolerance,
             ]  # check if point is inside of [CV+, CV-]
             p_eval.append(inters_pl)
         return p_eval
@@ -245,7 +245,9 @@ def write_submodel_times(
                     p_no=plane_normal,
                 )
 
-                if isec is not None and point_inside(p_eval=point_eval(isec, control_volume.get_plane_lim())):
+                if isec is not None and point_inside(
+                    p_eval=point_eval(isec, control_volume.get_plane_lim(), tolerance=1e-9)  # isec is subject to rounding
+                ):
                     timetable.append([float(block.inverse_time_at_pos(s_len)), sgn])
 
     timetable = np.asarray(timetable, dtype=float).reshape(-1, 2)  # convert list to array for sorting
-- 
2.43.0


From a110bcc9a1e11188d0a6d0777b674d22566c8949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:44 +0000
Subject: [PATCH 22/28] fix: inverse_time_at_pos is defined at the end of the
 block despite rounding

---
 pyGCodeDecode/planner_block.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyGCodeDecode/planner_block.py b/pyGCodeDecode/planner_block.py
index 4b1fb7f..8c7c99f 100644
--- a/pyGCodeDecode/planner_block.py
+++ b/pyGCodeDecode/planner_block.py
@@ -397,7 +397,9 @@ class planner_block:
         Returns:
             time_global: (float) global time when the point will be reached.
         """
-        # block_length = sum(segm.get_segm_len() for segm in self.segments)
+        block_length = sum(segm.get_segm_len() for segm in self.segments)
+        if np.isclose(dist_local, block_length):
+            dist_local = min(dist_local, block_length)  # the end of the block is subject to rounding
 
         cum_dist = 0
         # last_cum_dist = 0
-- 
2.43.0


From 74f9b4c85b91e28f2d2b640a0e0ceed18bc5468e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:44 +0000
Subject: [PATCH 23/28] fix: plot_2d_position can show points with velocity
 coloring

---
 pyGCodeDecode/gcode_interpreter.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyGCodeDecode/gcode_interpreter.py b/pyGCodeDecode/gcode_interpreter.py
index 9ef4e68..53c01ea 100644
--- a/pyGCodeDecode/gcode_interpreter.py
+++ b/pyGCodeDecode/gcode_interpreter.py
@@ -328,13 +328,14 @@ class simulation:
                 update_progress((i + 1) / len(segments), name="2D Plot Lines")
                 x.append(segm.pos_end.get_vec()[0])
                 y.append(segm.pos_end.get_vec()[1])
-            fig = plt.subplot()
-            fig.plot(x, y, color="black")
+            fig = plt.figure()
+            ax1 = fig.add_subplot(1, 1, 1)
+            ax1.plot(x, y, color="black")
 
         if show_points:
             for i, block in enumerate(self.blocklist):
                 update_progress(i / len(self.blocklist), name="2D Plot Points")
-                fig.scatter(
+                ax1.scatter(
                     block.get_segments()[-1].pos_end.get_vec()[0],
                     block.get_segments()[-1].pos_end.get_vec()[1],
                     color="blue",
-- 
2.43.0


From 3e037c5d0235758a6c74df6baee9354e0e5d29b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:24 +0000
Subject: [PATCH 24/28] fix: MKA junction speed is scaled once for all axes

---
 pyGCodeDecode/junction_handling.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyGCodeDecode/junction_handling.py b/pyGCodeDecode/junction_handling.py
index 4aaea34..6cd0007 100644
--- a/pyGCodeDecode/junction_handling.py
+++ b/pyGCodeDecode/junction_handling.py
@@ -324,10 +324,10 @@ class junction_handling_MKA(junction_handling):
                 v_factor *= self.jerk / jerk
                 lim_flag = True
 
-            if lim_flag:
-                v_max_junc *= v_factor
+        if lim_flag:
+            v_max_junc *= v_factor
 
-            self.junction_vel = v_max_junc
+        self.junction_vel = v_max_junc
 
     def get_junction_vel(self):
         """Return the calculated junction velocity.
-- 
2.43.0


From 4f3767263d71a5d3f7ffe19d036805408b41a4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:29 +0000
Subject: [PATCH 25/28] fix: klipper junction speed respects the length of both
 moves at the corner

---
 pyGCodeDecode/junction_handling.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyGCodeDecode/junction_handling.py b/pyGCodeDecode/junction_handling.py
index 6cd0007..19c09a4 100644
--- a/pyGCodeDecode/junction_handling.py
+++ b/pyGCodeDecode/junction_handling.py
@@ -262,7 +262,9 @@ class junction_handling_klipper(junction_handling):
         # [from klipper]: Approximated circle must contact moves no further away than mid-move
         j_tan_theta_d2 = j_sin_theta_d2 / math.sqrt(0.5 * (1.0 + j_cos_theta))
 
-        move_centripetal_v2 = 0.5 * self.t_distance * j_tan_theta_d2 * self.state_B.state_p_settings.p_acc
+        # t_distance was left at the next move by calc_vel_next, the shorter of both moves at the corner is limiting
+        move_distance = min(self.state_B.state_position.get_t_distance(self.state_A.state_position), self.t_distance)
+        move_centripetal_v2 = 0.5 * move_distance * j_tan_theta_d2 * self.state_B.state_p_settings.p_acc
 
         self.junction_vel = math.sqrt(
             min(self.state_B.state_p_settings.p_acc * j_R, move_centripetal_v2, self.state_B.state_p_settings.speed**2)
-- 
2.43.0


From 1113d668646c3bcd321ff05e32d23f8b8b30396d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:12 +0000
Subject: [PATCH 26/28] fix: comments such as '; G1 5' no longer abort parsing

---
 pyGCodeDecode/state_generator.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyGCodeDecode/state_generator.py b/pyGCodeDecode/state_generator.py
index dc810c4..9f0ff2c 100644
--- a/pyGCodeDecode/state_generator.py
+++ b/pyGCodeDecode/state_generator.py
@@ -154,10 +154,11 @@ def arg_extract(string: str, key_dict: dict) -> dict:
             arg = arg.replace(" ", "")  # remove spaces if argument is not a comment
             arg = arg.replace("\n", "")  # remove \n if argument is not a comment
 
-            try:
-                arg = float(arg)  # casting to float if possible
-            except ValueError:
-                pass
+            if key_dict[key] is None:  # arguments of nested commands stay text for their own extraction
+                try:
+                    arg = float(arg)  # casting to float if possible
+                except ValueError:
+                    pass
         else:
             arg = string[match_end:]  # special case for comments where everything coming after match is arg
 
-- 
2.43.0


From 392c3df90c5544b990b80816223536aeb6693e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:42 +0000
Subject: [PATCH 27/28] fix: commands are recognised by their whole number

---
 pyGCodeDecode/state_generator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyGCodeDecode/state_generator.py b/pyGCodeDecode/state_generator.py
index 9f0ff2c..8d596c0 100644
--- a/pyGCodeDecode/state_generator.py
+++ b/pyGCodeDecode/state_generator.py
@@ -120,7 +120,8 @@ def arg_extract(string: str, key_dict: dict) -> dict:
     matches: List[Match] = list()  # list to store matching keywords
 
     for key in key_dict.keys():  # look for each key in the dictionary
-        match = re.search(key, string)  # regex search for key in string
+        # regex search for key in string, the number of a command ends with its last digit and may have leading zeros
+        match = re.search(f"{key[0]}0*{key[1:]}(?![0-9])" if key[1:] else key, string)
         if match is not None:
             matches.append(match)  # append found matches
 
@@ -146,6 +147,7 @@ def arg_extract(string: str, key_dict: dict) -> dict:
     for match in matches:  # iterate through all matches, with next match available
         match_end = match.end()  # find arg beginning by using end of match
         key = match.group()  # get key from match
+        key = f"{key[0]}{int(key[1:])}" if key[1:] else key
         arg = None
 
         match_next_start = next_larger(match_start_list, match_end)  # find arg end by using beginning of next arg
-- 
2.43.0


From 4c0af1057543a408b95b2d2f7dbd657c239d91a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:22 +0000
Subject: [PATCH 28/28] fix: README calls name existing parameters

---
 README.md | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/README.md b/README.md
index 561de2a..b2e6067 100644
--- a/README.md
+++ b/README.md
@@ -104,7 +104,7 @@ from pyGCodeDecode import gcode_interpreter
 1. Load your setup `.yaml` file through:
 
 ```python
-setup = gcode_interpreter.setup(filename=r"e./pygcodedecode/data/default_printer_presets.yaml")
+setup = gcode_interpreter.setup(presets_file=r"./pyGCodeDecode/data/default_printer_presets.yaml")
 ```
 
 1. Select your printer from the setup by name:
@@ -122,7 +122,7 @@ setup.set_property({"layer_cue": "LAYER_CHANGE"})
 1. Finally, run the simulation by providing a `GCode` and passing the setup defined before:
 
 ```python
-simulation = gcode_interpreter.simulation(filename=r"example\example.gcode", initial_machine_setup=setup)
+simulation = gcode_interpreter.simulation(gcode_path=r"example\example.gcode", initial_machine_setup=setup)
 ```
 
 ### Access the Results
@@ -144,9 +144,11 @@ simulation.plot_3d()
 pyGCD can also be used to create files defining an event series for ABAQUS simulations.
 
 ```python
+from pyGCodeDecode.abaqus_file_generator import generate_abaqus_event_series
+
 generate_abaqus_event_series(
         simulation=simulation,
-        filpath="path/to/event_series.csv"
+        filepath="path/to/event_series.csv"
 )
 ```
 
-- 
2.43.0

