From 4c01ef3f245172e2a265edbf66eaf5e26ced0e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:42 +0000
Subject: [PATCH 01/27] fix: read the diameter of a junction into diameter
 instead of color

---
 src/kiutils/items/schitems.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kiutils/items/schitems.py b/src/kiutils/items/schitems.py
index 1c31cd5..0a5dac4 100644
--- a/src/kiutils/items/schitems.py
+++ b/src/kiutils/items/schitems.py
@@ -68,7 +68,7 @@ class Junction():
         for item in exp:
             if item[0] == 'at': object.position = Position().from_sexpr(item)
             if item[0] == 'color': object.color = ColorRGBA().from_sexpr(item)
-            if item[0] == 'diameter': object.color = item[1]
+            if item[0] == 'diameter': object.diameter = item[1]
             if item[0] == 'uuid': object.uuid = item[1]
         return object
 
-- 
2.43.0


From 3a6327f40fd7ec5d498e07e03ace4b8a5dca5818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:42 +0000
Subject: [PATCH 02/27] fix: write the complete curve token of a symbol curve

---
 src/kiutils/items/syitems.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/kiutils/items/syitems.py b/src/kiutils/items/syitems.py
index a78cb22..0a4303f 100644
--- a/src/kiutils/items/syitems.py
+++ b/src/kiutils/items/syitems.py
@@ -247,10 +247,10 @@ class SyCurve():
         endline = '\n' if newline else ''
 
         expression =  f'{indents}(curve\n'
-        expression =  f'{indents}  (pts\n'
+        expression += f'{indents}  (pts\n'
         for point in self.points:
-            expression =  f'{indents}    (xy {point.X} {point.Y})\n'
-        expression =  f'{indents}  )\n'
+            expression += f'{indents}    (xy {point.X} {point.Y})\n'
+        expression += f'{indents}  )\n'
         expression += self.stroke.to_sexpr(indent+2)
         expression += self.fill.to_sexpr(indent+2)
         expression += f'{indents}){endline}'
-- 
2.43.0


From b44f65fb9781ccd60c1c4a14c716b8bf64958b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:42 +0000
Subject: [PATCH 03/27] fix: read back the locked flag of a graphical text

---
 src/kiutils/items/gritems.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/kiutils/items/gritems.py b/src/kiutils/items/gritems.py
index 075a926..e8ae2cb 100644
--- a/src/kiutils/items/gritems.py
+++ b/src/kiutils/items/gritems.py
@@ -81,8 +81,13 @@ class GrText():
             raise Exception("Expression does not have the correct type")
 
         object = cls()
-        object.text = exp[1]
-        for item in exp[2:]:
+        start_at = 1
+        # Extract "locked" token, if any is present
+        if exp[1] == 'locked' and not isinstance(exp[2], list):
+            object.locked = True
+            start_at = 2
+        object.text = exp[start_at]
+        for item in exp[start_at+1:]:
             if type(item) != type([]):
                 if item == 'locked': object.locked = True
                 continue
-- 
2.43.0


From 8157e42fc71d2ad329bdf89a41f172df4fb532a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:42 +0000
Subject: [PATCH 04/27] fix: close the angle token of a graphical line and read
 it back

---
 src/kiutils/items/gritems.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kiutils/items/gritems.py b/src/kiutils/items/gritems.py
index e8ae2cb..cad1fc7 100644
--- a/src/kiutils/items/gritems.py
+++ b/src/kiutils/items/gritems.py
@@ -333,6 +333,7 @@ class GrLine():
                 continue
             if item[0] == 'start': object.start = Position.from_sexpr(item)
             if item[0] == 'end': object.end = Position.from_sexpr(item)
+            if item[0] == 'angle': object.angle = item[1]
             if item[0] == 'layer': object.layer = item[1]
             if item[0] == 'tstamp': object.tstamp = item[1]
             if item[0] == 'width': object.width = item[1]
@@ -354,7 +355,7 @@ class GrLine():
 
         tstamp = f' (tstamp {self.tstamp})' if self.tstamp is not None else ''
         layer =  f' (layer "{dequote(self.layer)}")' if self.layer is not None else ''
-        angle = f' (angle {self.angle}' if self.angle is not None else ''
+        angle = f' (angle {self.angle})' if self.angle is not None else ''
 
         return f'{indents}(gr_line{locked} (start {self.start.X} {self.start.Y}) (end {self.end.X} {self.end.Y}){angle}{layer} (width {self.width}){tstamp}){endline}'
 
-- 
2.43.0


From 01837bfa1ea039f9fc5ab42818f06528ec7873a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:42 +0000
Subject: [PATCH 05/27] fix: omit the width token of graphic items when no
 width is set

---
 src/kiutils/items/gritems.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/kiutils/items/gritems.py b/src/kiutils/items/gritems.py
index cad1fc7..0da3702 100644
--- a/src/kiutils/items/gritems.py
+++ b/src/kiutils/items/gritems.py
@@ -354,10 +354,11 @@ class GrLine():
         locked = f' locked' if self.locked else ''
 
         tstamp = f' (tstamp {self.tstamp})' if self.tstamp is not None else ''
+        width = f' (width {self.width})' if self.width is not None else ''
         layer =  f' (layer "{dequote(self.layer)}")' if self.layer is not None else ''
         angle = f' (angle {self.angle})' if self.angle is not None else ''
 
-        return f'{indents}(gr_line{locked} (start {self.start.X} {self.start.Y}) (end {self.end.X} {self.end.Y}){angle}{layer} (width {self.width}){tstamp}){endline}'
+        return f'{indents}(gr_line{locked} (start {self.start.X} {self.start.Y}) (end {self.end.X} {self.end.Y}){angle}{layer}{width}{tstamp}){endline}'
 
 @dataclass
 class GrRect():
@@ -436,10 +437,11 @@ class GrRect():
         locked = f' locked' if self.locked else ''
 
         tstamp = f' (tstamp {self.tstamp})' if self.tstamp is not None else ''
+        width = f' (width {self.width})' if self.width is not None else ''
         layer =  f' (layer "{dequote(self.layer)}")' if self.layer is not None else ''
         fill = f' (fill {self.fill})' if self.fill is not None else ''
 
-        return f'{indents}(gr_rect{locked} (start {self.start.X} {self.start.Y}) (end {self.end.X} {self.end.Y}){layer} (width {self.width}){fill}{tstamp}){endline}'
+        return f'{indents}(gr_rect{locked} (start {self.start.X} {self.start.Y}) (end {self.end.X} {self.end.Y}){layer}{width}{fill}{tstamp}){endline}'
 
 @dataclass
 class GrCircle():
@@ -519,10 +521,11 @@ class GrCircle():
         locked = f' locked' if self.locked else ''
 
         tstamp = f' (tstamp {self.tstamp})' if self.tstamp is not None else ''
+        width = f' (width {self.width})' if self.width is not None else ''
         layer =  f' (layer "{dequote(self.layer)}")' if self.layer is not None else ''
         fill = f' (fill {self.fill})' if self.fill is not None else ''
 
-        return f'{indents}(gr_circle{locked} (center {self.center.X} {self.center.Y}) (end {self.end.X} {self.end.Y}){layer} (width {self.width}){fill}{tstamp}){endline}'
+        return f'{indents}(gr_circle{locked} (center {self.center.X} {self.center.Y}) (end {self.end.X} {self.end.Y}){layer}{width}{fill}{tstamp}){endline}'
 
 @dataclass
 class GrArc():
@@ -602,9 +605,10 @@ class GrArc():
         locked = f' locked' if self.locked else ''
 
         tstamp = f' (tstamp {self.tstamp})' if self.tstamp is not None else ''
+        width = f' (width {self.width})' if self.width is not None else ''
         layer =  f' (layer "{dequote(self.layer)}")' if self.layer is not None else ''
 
-        return f'{indents}(gr_arc{locked} (start {self.start.X} {self.start.Y}) (mid {self.mid.X} {self.mid.Y}) (end {self.end.X} {self.end.Y}){layer} (width {self.width}){tstamp}){endline}'
+        return f'{indents}(gr_arc{locked} (start {self.start.X} {self.start.Y}) (mid {self.mid.X} {self.mid.Y}) (end {self.end.X} {self.end.Y}){layer}{width}{tstamp}){endline}'
 
 @dataclass
 class GrPoly():
@@ -688,6 +692,7 @@ class GrPoly():
             return f'{indents}{endline}'
 
         tstamp = f' (tstamp {self.tstamp})' if self.tstamp is not None else ''
+        width = f' (width {self.width})' if self.width is not None else ''
         layer =  f' (layer "{dequote(self.layer)}")' if self.layer is not None else ''
         fill = f' (fill {self.fill})' if self.fill is not None else ''
         locked = f' locked' if self.locked else ''
@@ -700,7 +705,7 @@ class GrPoly():
 
         for point in self.coordinates:
             expression += f'{indents}    (xy {point.X} {point.Y})\n'
-        expression += f'{indents}  ){layer} (width {self.width}){fill}{tstamp}){endline}'
+        expression += f'{indents}  ){layer}{width}{fill}{tstamp}){endline}'
         return expression
 
 @dataclass
@@ -776,11 +781,12 @@ class GrCurve():
             return f'{indents}{endline}'
 
         tstamp = f' (tstamp {self.tstamp})' if self.tstamp is not None else ''
+        width = f' (width {self.width})' if self.width is not None else ''
         layer =  f' (layer "{dequote(self.layer)}")' if self.layer is not None else ''
         locked = f' locked' if self.locked else ''
 
         expression = f'{indents}(gr_curve{locked} (pts\n'
         for point in self.coordinates:
             expression += f'{indents}  (xy {point.X} {point.Y})\n'
-        expression += f'{indents}){layer} (width {self.width}){tstamp}){endline}'
+        expression += f'{indents}){layer}{width}{tstamp}){endline}'
         return expression
-- 
2.43.0


From a6515c6e74e30088e0d65c4ee0ada8a95950eed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:42 +0000
Subject: [PATCH 06/27] fix: write the useauxorigin plot setting instead of a
 constant

---
 src/kiutils/items/brditems.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kiutils/items/brditems.py b/src/kiutils/items/brditems.py
index f4c1a80..1e534d6 100644
--- a/src/kiutils/items/brditems.py
+++ b/src/kiutils/items/brditems.py
@@ -631,7 +631,7 @@ class PlotSettings():
         expression += f'{indents}  (plotframeref {str(self.plotFameRef).lower()})\n'
         expression += f'{indents}  (viasonmask {str(self.viasOnMask).lower()})\n'
         expression += f'{indents}  (mode {self.mode})\n'
-        expression += f'{indents}  (useauxorigin false)\n'
+        expression += f'{indents}  (useauxorigin {"true" if self.useAuxOrigin else "false"})\n'
         expression += f'{indents}  (hpglpennumber {self.hpglPenNumber})\n'
         expression += f'{indents}  (hpglpenspeed {self.hpglPenSpeed})\n'
         expression += f'{indents}  (hpglpendiameter {float(self.hpglPenDiameter):.6f})\n'
-- 
2.43.0


From 19385c9fd79077e9807ea706f417892f0ca931d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:42 +0000
Subject: [PATCH 07/27] fix: write the locked flag of a dimension, escape its
 layer and omit an unset tstamp

---
 src/kiutils/items/dimensions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/kiutils/items/dimensions.py b/src/kiutils/items/dimensions.py
index 47b38e9..ef1f17b 100644
--- a/src/kiutils/items/dimensions.py
+++ b/src/kiutils/items/dimensions.py
@@ -321,7 +321,10 @@ class Dimension():
         if len(points) == 0:
             raise Exception("Number of points must not be zero")
 
-        expression =   f'{indents}(dimension (type {self.type}) (layer "{self.layer}") (tstamp {self.tstamp})\n'
+        locked = ' locked' if self.locked else ''
+        tstamp = f' (tstamp {self.tstamp})' if self.tstamp is not None else ''
+
+        expression =   f'{indents}(dimension{locked} (type {self.type}) (layer "{dequote(self.layer)}"){tstamp}\n'
         expression +=  f'{indents}  (pts{points})\n'
         if self.height is not None:
             expression +=  f'{indents}  (height {self.height})\n'
-- 
2.43.0


From 81837abb2e4f7d91e4dec4187bcd6dc4d31d6c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:42 +0000
Subject: [PATCH 08/27] fix: escape the layer of a target and omit an unset
 tstamp

---
 src/kiutils/items/brditems.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kiutils/items/brditems.py b/src/kiutils/items/brditems.py
index 1e534d6..0f93d8f 100644
--- a/src/kiutils/items/brditems.py
+++ b/src/kiutils/items/brditems.py
@@ -1101,4 +1101,5 @@ class Target():
         indents = ' '*indent
         endline = '\n' if newline else ''
 
-        return f'{indents}(target {self.type} (at {self.position.X} {self.position.Y}) (size {self.size}) (width {self.width}) (layer "{self.layer}") (tstamp {self.tstamp})){endline}'
+        tstamp = f' (tstamp {self.tstamp})' if self.tstamp is not None else ''
+        return f'{indents}(target {self.type} (at {self.position.X} {self.position.Y}) (size {self.size}) (width {self.width}) (layer "{dequote(self.layer)}"){tstamp}){endline}'
-- 
2.43.0


From fe5851da5ccc5af2bb79e98b7fb4d9197cba675f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:42 +0000
Subject: [PATCH 09/27] fix: omit the tstamp token of a segment when it has
 none

---
 src/kiutils/items/brditems.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kiutils/items/brditems.py b/src/kiutils/items/brditems.py
index 0f93d8f..cbea615 100644
--- a/src/kiutils/items/brditems.py
+++ b/src/kiutils/items/brditems.py
@@ -830,7 +830,8 @@ class Segment():
         endline = '\n' if newline else ''
         locked = ' locked' if self.locked else ''
 
-        return f'{indents}(segment{locked} (start {self.start.X} {self.start.Y}) (end {self.end.X} {self.end.Y}) (width {self.width}) (layer "{dequote(self.layer)}") (net {self.net}) (tstamp {self.tstamp})){endline}'
+        tstamp = f' (tstamp {self.tstamp})' if self.tstamp else ''
+        return f'{indents}(segment{locked} (start {self.start.X} {self.start.Y}) (end {self.end.X} {self.end.Y}) (width {self.width}) (layer "{dequote(self.layer)}") (net {self.net}){tstamp}){endline}'
 
 @dataclass
 class Via():
-- 
2.43.0


From 9b636f4274e262b5217dee0244c3d4b10ed908da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:31 +0000
Subject: [PATCH 10/27] fix: write the locked flag of a footprint line

---
 src/kiutils/items/fpitems.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kiutils/items/fpitems.py b/src/kiutils/items/fpitems.py
index 7ef2b66..59b5a34 100644
--- a/src/kiutils/items/fpitems.py
+++ b/src/kiutils/items/fpitems.py
@@ -222,7 +222,8 @@ class FpLine():
         else:
             width = ''
 
-        return f'{indents}(fp_line (start {self.start.X} {self.start.Y}) (end {self.end.X} {self.end.Y}) (layer "{dequote(self.layer)}"){width}{tstamp}){endline}'
+        locked = ' locked' if self.locked else ''
+        return f'{indents}(fp_line (start {self.start.X} {self.start.Y}) (end {self.end.X} {self.end.Y}) (layer "{dequote(self.layer)}"){width}{locked}{tstamp}){endline}'
 
 @dataclass
 class FpRect():
-- 
2.43.0


From f9a99eba21bf73fac4fa4f068ec0ad3982b767ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:31 +0000
Subject: [PATCH 11/27] fix: do not read the offset of a drill as its width

---
 src/kiutils/footprint.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/kiutils/footprint.py b/src/kiutils/footprint.py
index 5d32bb6..7040941 100644
--- a/src/kiutils/footprint.py
+++ b/src/kiutils/footprint.py
@@ -262,10 +262,11 @@ class DrillDefinition():
         if exp[1] == 'oval':
             object.oval = True
             object.diameter = exp[2]
-            object.width = exp[3]
+            if len(exp) > 3 and not isinstance(exp[3], list):
+                object.width = exp[3]
         else:
             object.diameter = exp[1]
-            if len(exp) > 2:
+            if len(exp) > 2 and not isinstance(exp[2], list):
                 object.width = exp[2]
 
         # The ``offset`` token may not be given
-- 
2.43.0


From 0aaf84123072b0c075448e9d96e0897277cf1294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:31 +0000
Subject: [PATCH 12/27] fix: omit unset thermal tokens of zone fill settings

---
 src/kiutils/items/zones.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/kiutils/items/zones.py b/src/kiutils/items/zones.py
index 714a035..0b84bf4 100644
--- a/src/kiutils/items/zones.py
+++ b/src/kiutils/items/zones.py
@@ -249,7 +249,10 @@ class FillSettings():
         hba = f'\n{indents}  (hatch_border_algorithm {self.hatchBorderAlgorithm})' if self.hatchBorderAlgorithm is not None else ''
         hmha = f' (hatch_min_hole_area {self.hatchMinHoleArea})' if self.hatchMinHoleArea is not None else ''
 
-        return f'{indents}(fill{yes}{mode} (thermal_gap {self.thermalGap}) (thermal_bridge_width {self.thermalBridgeWidth}){smoothing}{radius}{irm}{iam}{ht}{hg}{ho}{hsl}{hsv}{hba}{hmha}){endline}'
+        tg = f' (thermal_gap {self.thermalGap})' if self.thermalGap is not None else ''
+        tbw = f' (thermal_bridge_width {self.thermalBridgeWidth})' if self.thermalBridgeWidth is not None else ''
+
+        return f'{indents}(fill{yes}{mode}{tg}{tbw}{smoothing}{radius}{irm}{iam}{ht}{hg}{ho}{hsl}{hsv}{hba}{hmha}){endline}'
 
 @dataclass
 class ZonePolygon():
-- 
2.43.0


From 5c12db1b644550051d678ed38234f32aafe82604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:39 +0000
Subject: [PATCH 13/27] fix: omit the generator token of a symbol library when
 it is unset

---
 src/kiutils/symbol.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/kiutils/symbol.py b/src/kiutils/symbol.py
index 022a229..ac4d6a3 100644
--- a/src/kiutils/symbol.py
+++ b/src/kiutils/symbol.py
@@ -585,7 +585,9 @@ class SymbolLib():
         indents = ' '*indent
         endline = '\n' if newline else ''
 
-        expression =  f'{indents}(kicad_symbol_lib (version {self.version}) (generator {self.generator})\n'
+        generator = f' (generator {self.generator})' if self.generator is not None else ''
+
+        expression = f'{indents}(kicad_symbol_lib (version {self.version}){generator}\n'
         for item in self.symbols:
             expression += f'{indents}{item.to_sexpr(indent+2)}'
         expression += f'{indents}){endline}'
-- 
2.43.0


From 86b3df8f67b9d273d026d94dd143a457975d3704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:39 +0000
Subject: [PATCH 14/27] fix: give netclass flags default objects instead of
 classes

---
 src/kiutils/items/schitems.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kiutils/items/schitems.py b/src/kiutils/items/schitems.py
index 0a5dac4..9599789 100644
--- a/src/kiutils/items/schitems.py
+++ b/src/kiutils/items/schitems.py
@@ -1845,10 +1845,10 @@ class NetclassFlag():
     """The ``shape`` token defines the shape of the netclass flag. Valid values are ``round``,
     ``rectangle``, ``dot`` or``diamond``."""
 
-    position: Position = field(default_factory=lambda: Position)
+    position: Position = field(default_factory=lambda: Position())
     """The ``position`` token defines the position and rotation of the netclass flag"""
 
-    effects: Effects = field(default_factory=lambda: Effects)
+    effects: Effects = field(default_factory=lambda: Effects())
     """The ``effects`` token defines how the text is drawn"""
 
     properties: List[Property] = field(default_factory=list)
-- 
2.43.0


From 91d779a2c6b1afac400b99e385c026f4987d6403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:39 +0000
Subject: [PATCH 15/27] fix: do not lock a group because of its name

---
 src/kiutils/items/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kiutils/items/common.py b/src/kiutils/items/common.py
index 707328e..f511ec8 100644
--- a/src/kiutils/items/common.py
+++ b/src/kiutils/items/common.py
@@ -600,7 +600,7 @@ class Group():
 
         object = cls()
         object.name = exp[1]
-        for item in exp:
+        for item in exp[2:]:
             if type(item) != type([]):
                 if item == 'locked': object.locked = True
                 continue
-- 
2.43.0


From cca92d98b2a32f87138f02b8be88914908d4d96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:39 +0000
Subject: [PATCH 16/27] fix: do not look for tokens in the text and id of a
 render cache

---
 src/kiutils/items/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kiutils/items/common.py b/src/kiutils/items/common.py
index f511ec8..863c8fa 100644
--- a/src/kiutils/items/common.py
+++ b/src/kiutils/items/common.py
@@ -992,7 +992,7 @@ class RenderCache():
         object = cls()
         object.text = exp[1]
         object.id = exp[2]
-        for item in exp:
+        for item in exp[3:]:
             if item[0] == 'polygon': object.polygons.append(RenderCachePolygon.from_sexpr(item))
         return object
 
-- 
2.43.0


From e91881b019f8583bc00c1683f18b1094840a1e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:39 +0000
Subject: [PATCH 17/27] fix: remember the path a footprint was loaded from

---
 src/kiutils/footprint.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/kiutils/footprint.py b/src/kiutils/footprint.py
index 7040941..5403d0a 100644
--- a/src/kiutils/footprint.py
+++ b/src/kiutils/footprint.py
@@ -933,7 +933,9 @@ class Footprint():
             rawFootprint = infile.read()
 
             fpData = sexpr.parse_sexp(rawFootprint)
-            return cls.from_sexpr(fpData)
+            item = cls.from_sexpr(fpData)
+            item.filePath = filepath
+            return item
 
     @classmethod
     def create_new(cls, library_id: str, value: str,
-- 
2.43.0


From 277ba4b1a44b75b480f582fe1a10f22d8d6bdf6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:39 +0000
Subject: [PATCH 18/27] fix: let worksheets be saved with an encoding

---
 src/kiutils/wks.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kiutils/wks.py b/src/kiutils/wks.py
index d19ea61..1dd42a1 100644
--- a/src/kiutils/wks.py
+++ b/src/kiutils/wks.py
@@ -922,7 +922,7 @@ class WorkSheet():
             generator = KIUTILS_CREATE_NEW_GENERATOR_STR
         )
 
-    def to_file(self, filepath = None):
+    def to_file(self, filepath = None, encoding: Optional[str] = None):
         """Save the object to a file in S-Expression format
 
         Args:
@@ -937,7 +937,7 @@ class WorkSheet():
                 raise Exception("File path not set")
             filepath = self.filePath
 
-        with open(filepath, 'w') as outfile:
+        with open(filepath, 'w', encoding=encoding) as outfile:
             outfile.write(self.to_sexpr())
 
     def to_sexpr(self, indent=0, newline=True):
-- 
2.43.0


From c017fa40f94b5d8769ba70f6f98114c0ea1cb97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:39 +0000
Subject: [PATCH 19/27] fix: generate the whole file content before an existing
 file is truncated

---
 src/kiutils/board.py     | 3 ++-
 src/kiutils/dru.py       | 3 ++-
 src/kiutils/footprint.py | 3 ++-
 src/kiutils/libraries.py | 3 ++-
 src/kiutils/schematic.py | 3 ++-
 src/kiutils/symbol.py    | 3 ++-
 src/kiutils/wks.py       | 3 ++-
 7 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/kiutils/board.py b/src/kiutils/board.py
index 95f0959..602ed3b 100644
--- a/src/kiutils/board.py
+++ b/src/kiutils/board.py
@@ -237,8 +237,9 @@ class Board():
                 raise Exception("File path not set")
             filepath = self.filePath
 
+        data = self.to_sexpr()
         with open(filepath, 'w', encoding=encoding) as outfile:
-            outfile.write(self.to_sexpr())
+            outfile.write(data)
 
     def to_sexpr(self, indent=0, newline=True) -> str:
         """Generate the S-Expression representing this object
diff --git a/src/kiutils/dru.py b/src/kiutils/dru.py
index a1b5a4a..2b56175 100644
--- a/src/kiutils/dru.py
+++ b/src/kiutils/dru.py
@@ -289,8 +289,9 @@ class DesignRules():
                 raise Exception("File path not set")
             filepath = self.filePath
 
+        data = self.to_sexpr()
         with open(filepath, 'w', encoding=encoding) as outfile:
-            outfile.write(self.to_sexpr())
+            outfile.write(data)
 
     def to_sexpr(self, indent=0, newline=False):
         """Generate the S-Expression representing this object
diff --git a/src/kiutils/footprint.py b/src/kiutils/footprint.py
index 5403d0a..f96c9d0 100644
--- a/src/kiutils/footprint.py
+++ b/src/kiutils/footprint.py
@@ -1006,8 +1006,9 @@ class Footprint():
                 raise Exception("File path not set")
             filepath = self.filePath
 
+        data = self.to_sexpr()
         with open(filepath, 'w', encoding=encoding) as outfile:
-            outfile.write(self.to_sexpr())
+            outfile.write(data)
 
     def to_sexpr(self, indent=0, newline=True, layerInFirstLine=False) -> str:
         """Generate the S-Expression representing this object
diff --git a/src/kiutils/libraries.py b/src/kiutils/libraries.py
index 9098613..a2eddba 100644
--- a/src/kiutils/libraries.py
+++ b/src/kiutils/libraries.py
@@ -193,8 +193,9 @@ class LibTable():
                 raise Exception("File path not set")
             filepath = self.filePath
 
+        data = self.to_sexpr()
         with open(filepath, 'w', encoding=encoding) as outfile:
-            outfile.write(self.to_sexpr())
+            outfile.write(data)
 
     def to_sexpr(self, indent=0, newline=True) -> str:
         """Generate the S-Expression representing this object
diff --git a/src/kiutils/schematic.py b/src/kiutils/schematic.py
index a3396ff..5b29cd5 100644
--- a/src/kiutils/schematic.py
+++ b/src/kiutils/schematic.py
@@ -226,8 +226,9 @@ class Schematic():
                 raise Exception("File path not set")
             filepath = self.filePath
 
+        data = self.to_sexpr()
         with open(filepath, 'w', encoding=encoding) as outfile:
-            outfile.write(self.to_sexpr())
+            outfile.write(data)
 
     def to_sexpr(self, indent=0, newline=True) -> str:
         """Generate the S-Expression representing this object
diff --git a/src/kiutils/symbol.py b/src/kiutils/symbol.py
index ac4d6a3..93b4cb4 100644
--- a/src/kiutils/symbol.py
+++ b/src/kiutils/symbol.py
@@ -569,8 +569,9 @@ class SymbolLib():
                 raise Exception("File path not set")
             filepath = self.filePath
 
+        data = self.to_sexpr()
         with open(filepath, 'w', encoding=encoding) as outfile:
-            outfile.write(self.to_sexpr())
+            outfile.write(data)
 
     def to_sexpr(self, indent: int = 0, newline: bool = True) -> str:
         """Generate the S-Expression representing this object
diff --git a/src/kiutils/wks.py b/src/kiutils/wks.py
index 1dd42a1..9eb1c8d 100644
--- a/src/kiutils/wks.py
+++ b/src/kiutils/wks.py
@@ -937,8 +937,9 @@ class WorkSheet():
                 raise Exception("File path not set")
             filepath = self.filePath
 
+        data = self.to_sexpr()
         with open(filepath, 'w', encoding=encoding) as outfile:
-            outfile.write(self.to_sexpr())
+            outfile.write(data)
 
     def to_sexpr(self, indent=0, newline=True):
         """Generate the S-Expression representing this object
-- 
2.43.0


From 60de4af0e445a5ae6056d5c9892de6af8d7b4329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:39 +0000
Subject: [PATCH 20/27] fix: honour the newline argument in zone polygons

---
 src/kiutils/items/zones.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/kiutils/items/zones.py b/src/kiutils/items/zones.py
index 0b84bf4..d6865a7 100644
--- a/src/kiutils/items/zones.py
+++ b/src/kiutils/items/zones.py
@@ -313,7 +313,7 @@ class ZonePolygon():
         for point in self.coordinates:
             expression += f'{indents}    (xy {point.X} {point.Y})\n'
         expression += f'{indents}  )\n'
-        expression += f'{indents})\n'
+        expression += f'{indents}){endline}'
         return expression
 
 @dataclass
@@ -392,7 +392,7 @@ class FilledPolygon():
         for point in self.coordinates:
             expression += f'{indents}    (xy {point.X} {point.Y})\n'
         expression += f'{indents}  )\n'
-        expression += f'{indents})\n'
+        expression += f'{indents}){endline}'
         return expression
 
 # TODO: This is KiCad 4 stuff, has to be tested yet ..
@@ -466,7 +466,7 @@ class FillSegments():
         for point in self.coordinates:
             expression += f'{indents}    (xy {point.X} {point.Y})\n'
         expression += f'{indents}  )\n'
-        expression += f'{indents})\n'
+        expression += f'{indents}){endline}'
         return expression
 
 @dataclass
-- 
2.43.0


From a552847b7803356a5e619ddffaca5c849b3d950c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:39 +0000
Subject: [PATCH 21/27] fix: recognise numbers followed by any whitespace

---
 src/kiutils/utils/sexpr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kiutils/utils/sexpr.py b/src/kiutils/utils/sexpr.py
index 764fa58..134b983 100644
--- a/src/kiutils/utils/sexpr.py
+++ b/src/kiutils/utils/sexpr.py
@@ -10,7 +10,7 @@ term_regex = r'''(?mx)
     \s*(?:
         (?P<brackl>\()|
         (?P<brackr>\))|
-        (?P<num>[+-]?\d+\.\d+(?=[\ \)])|\-?\d+(?=[\ \)]))|
+        (?P<num>[+-]?\d+\.\d+(?=[\s\)])|\-?\d+(?=[\s\)]))|
         (?P<sq>"(?:[^"]|(?<=\\)")*"(?:(?=\))|(?=\s)))|
         (?P<s>[^(^)\s]+)
        )'''
-- 
2.43.0


From 89b888433eb44b10003cbb7a703eed4a9f01040d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:39 +0000
Subject: [PATCH 22/27] fix: read numbers written in exponent notation as
 numbers

---
 src/kiutils/utils/sexpr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kiutils/utils/sexpr.py b/src/kiutils/utils/sexpr.py
index 134b983..4789a88 100644
--- a/src/kiutils/utils/sexpr.py
+++ b/src/kiutils/utils/sexpr.py
@@ -10,7 +10,7 @@ term_regex = r'''(?mx)
     \s*(?:
         (?P<brackl>\()|
         (?P<brackr>\))|
-        (?P<num>[+-]?\d+\.\d+(?=[\s\)])|\-?\d+(?=[\s\)]))|
+        (?P<num>[+-]?\d+(?:\.\d+)?[eE][+-]\d+(?=[\s\)])|[+-]?\d+\.\d+(?=[\s\)])|\-?\d+(?=[\s\)]))|
         (?P<sq>"(?:[^"]|(?<=\\)")*"(?:(?=\))|(?=\s)))|
         (?P<s>[^(^)\s]+)
        )'''
-- 
2.43.0


From ee853be3fe906b3a6605bd58a44598cbcd13ee0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:39 +0000
Subject: [PATCH 23/27] fix: keep the caret in unquoted words

---
 src/kiutils/utils/sexpr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kiutils/utils/sexpr.py b/src/kiutils/utils/sexpr.py
index 4789a88..a1ec858 100644
--- a/src/kiutils/utils/sexpr.py
+++ b/src/kiutils/utils/sexpr.py
@@ -12,7 +12,7 @@ term_regex = r'''(?mx)
         (?P<brackr>\))|
         (?P<num>[+-]?\d+(?:\.\d+)?[eE][+-]\d+(?=[\s\)])|[+-]?\d+\.\d+(?=[\s\)])|\-?\d+(?=[\s\)]))|
         (?P<sq>"(?:[^"]|(?<=\\)")*"(?:(?=\))|(?=\s)))|
-        (?P<s>[^(^)\s]+)
+        (?P<s>[^()\s]+)
        )'''
 
 def parse_sexp(sexp):
-- 
2.43.0


From d2fbbcf1901064e6beff99af81854d20477a7266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:39 +0000
Subject: [PATCH 24/27] fix: escape the type of a stackup layer

---
 src/kiutils/items/brditems.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kiutils/items/brditems.py b/src/kiutils/items/brditems.py
index cbea615..1990103 100644
--- a/src/kiutils/items/brditems.py
+++ b/src/kiutils/items/brditems.py
@@ -308,7 +308,7 @@ class StackupLayer():
         epsilon_r = f' (epsilon_r {self.epsilonR})' if self.epsilonR is not None else ''
         loss_tangent = f' (loss_tangent {self.lossTangent})' if self.lossTangent is not None else ''
 
-        expression = f'{indents}(layer "{dequote(self.name)}" (type "{self.type}"){color}{thickness}'
+        expression = f'{indents}(layer "{dequote(self.name)}" (type "{dequote(self.type)}"){color}{thickness}'
         expression +=f'{material}{epsilon_r}{loss_tangent}'
         for layer in self.subLayers:
             expression += f'\n{layer.to_sexpr(indent+2)}'
-- 
2.43.0


From 49894e1226032fbaa237032a83d8ae4b3f1c1444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:32 +0000
Subject: [PATCH 25/27] fix: do not write an empty layerselection token, which
 cannot be read back

---
 src/kiutils/items/brditems.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kiutils/items/brditems.py b/src/kiutils/items/brditems.py
index 1990103..4c82e83 100644
--- a/src/kiutils/items/brditems.py
+++ b/src/kiutils/items/brditems.py
@@ -611,7 +611,8 @@ class PlotSettings():
         endline = '\n' if newline else ''
 
         expression =  f'{indents}(pcbplotparams\n'
-        expression += f'{indents}  (layerselection {self.layerSelection})\n'
+        if self.layerSelection != '':
+            expression += f'{indents}  (layerselection {self.layerSelection})\n'
         if self.plotOnAllLayersSelection is not None:
             expression += f'{indents}  (plot_on_all_layers_selection {self.plotOnAllLayersSelection})\n'
         expression += f'{indents}  (disableapertmacros {str(self.disableApertMacros).lower()})\n'
-- 
2.43.0


From 4760e45f684e831f060e24e7780552101aae9173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:10 +0000
Subject: [PATCH 26/27] fix: check that the text can be encoded before an
 existing file is truncated

---
 src/kiutils/board.py     | 2 ++
 src/kiutils/dru.py       | 2 ++
 src/kiutils/footprint.py | 2 ++
 src/kiutils/libraries.py | 2 ++
 src/kiutils/schematic.py | 2 ++
 src/kiutils/symbol.py    | 2 ++
 src/kiutils/wks.py       | 2 ++
 7 files changed, 14 insertions(+)

diff --git a/src/kiutils/board.py b/src/kiutils/board.py
index 602ed3b..0db52cb 100644
--- a/src/kiutils/board.py
+++ b/src/kiutils/board.py
@@ -18,6 +18,7 @@ from __future__ import annotations
 from dataclasses import dataclass, field
 from typing import Optional, List, Dict
 from os import path
+from locale import getpreferredencoding
 
 from kiutils.items.common import Group, Image, Net, PageSettings, TitleBlock
 from kiutils.items.zones import Zone
@@ -238,6 +239,7 @@ class Board():
             filepath = self.filePath
 
         data = self.to_sexpr()
+        data.encode(encoding or getpreferredencoding(False))    # fails before the file is truncated
         with open(filepath, 'w', encoding=encoding) as outfile:
             outfile.write(data)
 
diff --git a/src/kiutils/dru.py b/src/kiutils/dru.py
index 2b56175..4507018 100644
--- a/src/kiutils/dru.py
+++ b/src/kiutils/dru.py
@@ -18,6 +18,7 @@ from __future__ import annotations
 from dataclasses import dataclass, field
 from typing import Optional, List
 from os import path
+from locale import getpreferredencoding
 
 from kiutils.utils import sexpr
 from kiutils.utils.strings import dequote
@@ -290,6 +291,7 @@ class DesignRules():
             filepath = self.filePath
 
         data = self.to_sexpr()
+        data.encode(encoding or getpreferredencoding(False))    # fails before the file is truncated
         with open(filepath, 'w', encoding=encoding) as outfile:
             outfile.write(data)
 
diff --git a/src/kiutils/footprint.py b/src/kiutils/footprint.py
index f96c9d0..31c00cd 100644
--- a/src/kiutils/footprint.py
+++ b/src/kiutils/footprint.py
@@ -21,6 +21,7 @@ import re
 from dataclasses import dataclass, field
 from typing import Optional, List, Dict
 from os import path
+from locale import getpreferredencoding
 
 from kiutils.items.zones import Zone
 from kiutils.items.common import Image, Position, Coordinate, Net, Group, Font
@@ -1007,6 +1008,7 @@ class Footprint():
             filepath = self.filePath
 
         data = self.to_sexpr()
+        data.encode(encoding or getpreferredencoding(False))    # fails before the file is truncated
         with open(filepath, 'w', encoding=encoding) as outfile:
             outfile.write(data)
 
diff --git a/src/kiutils/libraries.py b/src/kiutils/libraries.py
index a2eddba..e819028 100644
--- a/src/kiutils/libraries.py
+++ b/src/kiutils/libraries.py
@@ -15,6 +15,7 @@ from __future__ import annotations
 from dataclasses import dataclass, field
 from typing import Optional, List
 from os import path
+from locale import getpreferredencoding
 
 from kiutils.utils.strings import dequote
 from kiutils.utils import sexpr
@@ -194,6 +195,7 @@ class LibTable():
             filepath = self.filePath
 
         data = self.to_sexpr()
+        data.encode(encoding or getpreferredencoding(False))    # fails before the file is truncated
         with open(filepath, 'w', encoding=encoding) as outfile:
             outfile.write(data)
 
diff --git a/src/kiutils/schematic.py b/src/kiutils/schematic.py
index 5b29cd5..fb2501f 100644
--- a/src/kiutils/schematic.py
+++ b/src/kiutils/schematic.py
@@ -18,6 +18,7 @@ from __future__ import annotations
 from dataclasses import dataclass, field
 from typing import Optional, List, Union
 from os import path
+from locale import getpreferredencoding
 
 from kiutils.items.common import Image, PageSettings, TitleBlock
 from kiutils.items.schitems import *
@@ -227,6 +228,7 @@ class Schematic():
             filepath = self.filePath
 
         data = self.to_sexpr()
+        data.encode(encoding or getpreferredencoding(False))    # fails before the file is truncated
         with open(filepath, 'w', encoding=encoding) as outfile:
             outfile.write(data)
 
diff --git a/src/kiutils/symbol.py b/src/kiutils/symbol.py
index 93b4cb4..2f1bab6 100644
--- a/src/kiutils/symbol.py
+++ b/src/kiutils/symbol.py
@@ -17,6 +17,7 @@ from __future__ import annotations
 from dataclasses import dataclass, field
 from typing import Optional, List
 from os import path
+from locale import getpreferredencoding
 import re
 
 from kiutils.items.common import Effects, Position, Property, Font
@@ -570,6 +571,7 @@ class SymbolLib():
             filepath = self.filePath
 
         data = self.to_sexpr()
+        data.encode(encoding or getpreferredencoding(False))    # fails before the file is truncated
         with open(filepath, 'w', encoding=encoding) as outfile:
             outfile.write(data)
 
diff --git a/src/kiutils/wks.py b/src/kiutils/wks.py
index 9eb1c8d..4cdff06 100644
--- a/src/kiutils/wks.py
+++ b/src/kiutils/wks.py
@@ -18,6 +18,7 @@ from __future__ import annotations
 from dataclasses import dataclass, field
 from typing import Optional, List
 from os import path
+from locale import getpreferredencoding
 
 from kiutils.items.common import Justify
 from kiutils.utils.strings import dequote
@@ -938,6 +939,7 @@ class WorkSheet():
             filepath = self.filePath
 
         data = self.to_sexpr()
+        data.encode(encoding or getpreferredencoding(False))    # fails before the file is truncated
         with open(filepath, 'w', encoding=encoding) as outfile:
             outfile.write(data)
 
-- 
2.43.0


From 838eb4d98c972131941acb25bd5613936e819e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:23 +0000
Subject: [PATCH 27/27] fix: integers beyond 2**53 were read inexactly

---
 src/kiutils/utils/sexpr.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/kiutils/utils/sexpr.py b/src/kiutils/utils/sexpr.py
index a1ec858..79115d2 100644
--- a/src/kiutils/utils/sexpr.py
+++ b/src/kiutils/utils/sexpr.py
@@ -30,8 +30,11 @@ def parse_sexp(sexp):
             tmpout, out = out, stack.pop(-1)
             out.append(tmpout)
         elif term == 'num':
-            v = float(value)
-            if v.is_integer(): v = int(v)
+            try:
+                v = int(value)
+            except ValueError:
+                v = float(value)
+                if v.is_integer(): v = int(v)
             out.append(v)
         elif term == 'sq':
             out.append(value[1:-1].replace(r'\"', '"'))
-- 
2.43.0

