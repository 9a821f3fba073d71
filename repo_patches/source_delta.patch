From 5c8accc66622d1f1528f0feb3df51f145f0c26c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:05 +0000
Subject: [PATCH 1/3] fix: do not destroy an existing NN Overtopping input file
 when the arguments are rejected

The target was truncated and its header written before the case table was
validated, so a call with inconsistent tables raised but left an existing
file destroyed. Build the table first.
---
 .../hydraulic/wave_overtopping/vangent2007.py | 51 ++++++++++---------
 1 file changed, 26 insertions(+), 25 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2007.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2007.py
index 8409d70..5401294 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2007.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2007.py
@@ -78,6 +78,32 @@ def write_input_file_NN_Overtopping(
         Name of the input file, by default "input_NN_Overtopping"
     """
 
+    if isinstance(beta, float):
+        index = [0]
+    else:
+        index = None
+
+    input_dataframe = pd.DataFrame(
+        data={
+            "b": beta,
+            "h": h,
+            "Hm0 toe": Hm0,
+            "Tm-1,0 toe": Tmm10,
+            "ht": ht,
+            "Bt": Bt,
+            "gf": gamma_f,
+            "cotad": cot_alpha_down,
+            "cotau": cot_alpha_up,
+            "Rc": Rc,
+            "B": B_berm,
+            "hb": db,
+            "tanaB": tan_alpha_B,
+            "Ac": Ac,
+            "Gc": Gc,
+        },
+        index=index,
+    )
+
     with open(os.path.join(output_dir, f"{file_name}.inp"), "w") as output_file:
         output_file.write(
             "!-------------------------------------------------------------------------------------------\n"
@@ -123,31 +149,6 @@ def write_input_file_NN_Overtopping(
             + "------------------------------------------------\n"
         )
 
-    if isinstance(beta, float):
-        index = [0]
-    else:
-        index = None
-
-    input_dataframe = pd.DataFrame(
-        data={
-            "b": beta,
-            "h": h,
-            "Hm0 toe": Hm0,
-            "Tm-1,0 toe": Tmm10,
-            "ht": ht,
-            "Bt": Bt,
-            "gf": gamma_f,
-            "cotad": cot_alpha_down,
-            "cotau": cot_alpha_up,
-            "Rc": Rc,
-            "B": B_berm,
-            "hb": db,
-            "tanaB": tan_alpha_B,
-            "Ac": Ac,
-            "Gc": Gc,
-        },
-        index=index,
-    )
     input_dataframe.to_csv(
         os.path.join(output_dir, f"{file_name}.inp"),
         sep=" ",
-- 
2.43.0


From 5ef2418404094ecf2d8bac83fb8c1c9048b981be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:44 +0000
Subject: [PATCH 2/3] fix: let the toolbox be imported again after an
 interrupted import

'import a.b.c as x' finds an already loaded c in sys.modules without loading its
package b again, so after an import was interrupted inside b every later import
failed until the interpreter was restarted. 'from a.b import c' loads b first.
---
 .../functions/hydraulic/wave_overtopping/eurotop2007.py   | 4 +++-
 .../functions/hydraulic/wave_overtopping/eurotop2018.py   | 8 ++++++--
 .../functions/hydraulic/wave_overtopping/taw2002.py       | 4 +++-
 .../stability_concrete_armour/accropode2_hudson1959.py    | 4 +++-
 .../stability_concrete_armour/accropode_hudson1959.py     | 4 +++-
 .../stability_concrete_armour/core_loc_hudson1959.py      | 4 +++-
 .../cubes_double_layer_hudson1959.py                      | 4 +++-
 .../stability_concrete_armour/cubipod_hudson1959.py       | 4 +++-
 .../stability_concrete_armour/tetrapod_hudson1959.py      | 4 +++-
 9 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2007.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2007.py
index f341d2b..407549e 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2007.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2007.py
@@ -4,7 +4,9 @@ import numpy.typing as npt
 
 import deltares_coastal_structures_toolbox.functions.core_physics as core_physics
 import deltares_coastal_structures_toolbox.functions.hydraulic.wave_overtopping.taw2002 as wave_overtopping_taw2002
-import deltares_coastal_structures_toolbox.functions.hydraulic.wave_runup.taw2002 as wave_runup_taw2002
+from deltares_coastal_structures_toolbox.functions.hydraulic.wave_runup import (
+    taw2002 as wave_runup_taw2002,
+)
 
 
 def calculate_overtopping_discharge_q_rubble_mound(
diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py
index 1a0efa3..ef1c942 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py
@@ -4,8 +4,12 @@ import numpy.typing as npt
 
 import deltares_coastal_structures_toolbox.functions.core_physics as core_physics
 import deltares_coastal_structures_toolbox.functions.core_utility as core_utility
-import deltares_coastal_structures_toolbox.functions.hydraulic.wave_runup.eurotop2018 as wave_runup_eurotop2018
-import deltares_coastal_structures_toolbox.functions.hydraulic.wave_runup.taw2002 as wave_runup_taw2002
+from deltares_coastal_structures_toolbox.functions.hydraulic.wave_runup import (
+    eurotop2018 as wave_runup_eurotop2018,
+)
+from deltares_coastal_structures_toolbox.functions.hydraulic.wave_runup import (
+    taw2002 as wave_runup_taw2002,
+)
 
 
 def check_validity_range_rubble_mound(
diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py
index 11bf436..cfd1147 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py
@@ -6,7 +6,9 @@ import numpy.typing as npt
 
 import deltares_coastal_structures_toolbox.functions.core_physics as core_physics
 import deltares_coastal_structures_toolbox.functions.core_utility as core_utility
-import deltares_coastal_structures_toolbox.functions.hydraulic.wave_runup.taw2002 as wave_runup_taw2002
+from deltares_coastal_structures_toolbox.functions.hydraulic.wave_runup import (
+    taw2002 as wave_runup_taw2002,
+)
 
 
 def check_validity_range(
diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/accropode2_hudson1959.py b/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/accropode2_hudson1959.py
index c348a09..a6855f9 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/accropode2_hudson1959.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/accropode2_hudson1959.py
@@ -2,7 +2,9 @@
 import numpy as np
 import numpy.typing as npt
 
-import deltares_coastal_structures_toolbox.functions.structural.stability_rock_armour.hudson1959 as hudson
+from deltares_coastal_structures_toolbox.functions.structural.stability_rock_armour import (
+    hudson1959 as hudson,
+)
 import deltares_coastal_structures_toolbox.functions.core_utility as core_utility
 
 unit_properties = {
diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/accropode_hudson1959.py b/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/accropode_hudson1959.py
index 2935960..6e2ce1d 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/accropode_hudson1959.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/accropode_hudson1959.py
@@ -2,7 +2,9 @@
 import numpy as np
 import numpy.typing as npt
 
-import deltares_coastal_structures_toolbox.functions.structural.stability_rock_armour.hudson1959 as hudson
+from deltares_coastal_structures_toolbox.functions.structural.stability_rock_armour import (
+    hudson1959 as hudson,
+)
 import deltares_coastal_structures_toolbox.functions.core_utility as core_utility
 
 unit_properties = {
diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/core_loc_hudson1959.py b/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/core_loc_hudson1959.py
index 607e0e5..c4dba34 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/core_loc_hudson1959.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/core_loc_hudson1959.py
@@ -2,7 +2,9 @@
 import numpy as np
 import numpy.typing as npt
 
-import deltares_coastal_structures_toolbox.functions.structural.stability_rock_armour.hudson1959 as hudson
+from deltares_coastal_structures_toolbox.functions.structural.stability_rock_armour import (
+    hudson1959 as hudson,
+)
 import deltares_coastal_structures_toolbox.functions.core_utility as core_utility
 
 unit_properties = {
diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/cubes_double_layer_hudson1959.py b/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/cubes_double_layer_hudson1959.py
index 2b30cc0..ef3e824 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/cubes_double_layer_hudson1959.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/cubes_double_layer_hudson1959.py
@@ -2,7 +2,9 @@
 import numpy as np
 import numpy.typing as npt
 
-import deltares_coastal_structures_toolbox.functions.structural.stability_rock_armour.hudson1959 as hudson
+from deltares_coastal_structures_toolbox.functions.structural.stability_rock_armour import (
+    hudson1959 as hudson,
+)
 
 unit_properties = {
     "KD": {
diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/cubipod_hudson1959.py b/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/cubipod_hudson1959.py
index 7177a20..5716eea 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/cubipod_hudson1959.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/cubipod_hudson1959.py
@@ -2,7 +2,9 @@
 import numpy as np
 import numpy.typing as npt
 
-import deltares_coastal_structures_toolbox.functions.structural.stability_rock_armour.hudson1959 as hudson
+from deltares_coastal_structures_toolbox.functions.structural.stability_rock_armour import (
+    hudson1959 as hudson,
+)
 
 unit_properties = {
     "KD": {
diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/tetrapod_hudson1959.py b/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/tetrapod_hudson1959.py
index 3daf99d..1cb3302 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/tetrapod_hudson1959.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/tetrapod_hudson1959.py
@@ -2,7 +2,9 @@
 import numpy as np
 import numpy.typing as npt
 
-import deltares_coastal_structures_toolbox.functions.structural.stability_rock_armour.hudson1959 as hudson
+from deltares_coastal_structures_toolbox.functions.structural.stability_rock_armour import (
+    hudson1959 as hudson,
+)
 
 unit_properties = {
     "KD": {
-- 
2.43.0


From 44289f841aad2add9ee1cf5b7c8424505f5b9b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:36 +0000
Subject: [PATCH 3/3] fix: write the NN Overtopping input file as UTF-8
 whatever the locale

The header was written in the encoding of the locale, the case table (pandas)
in UTF-8: under another locale a non-ASCII name gave a file in mixed
encodings, or a UnicodeEncodeError.
---
 .../functions/hydraulic/wave_overtopping/vangent2007.py       | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2007.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2007.py
index 5401294..05bdfbd 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2007.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2007.py
@@ -104,7 +104,9 @@ def write_input_file_NN_Overtopping(
         index=index,
     )
 
-    with open(os.path.join(output_dir, f"{file_name}.inp"), "w") as output_file:
+    with open(
+        os.path.join(output_dir, f"{file_name}.inp"), "w", encoding="utf-8"
+    ) as output_file:
         output_file.write(
             "!-------------------------------------------------------------------------------------------\n"
         )
-- 
2.43.0

