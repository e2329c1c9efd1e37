From 31ced440dc0b2ee8cc06d272f4f6952c7123ae13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:32 +0000
Subject: [PATCH 01/44] fix: keep the largest load magnitude, not the load,
 after removing a udl

remove_udls stored the Udl object in _udl_max, so plotting a slope after
removing one of several loads raised a TypeError.
---
 pyslope/pyslope.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 5cc610d..ca73c27 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -539,7 +539,7 @@ class Slope:
             self._udl_max = 0
 
         if self._udls:
-            self._udl_max = max(self._udls, key=lambda x: x.magnitude)
+            self._udl_max = max(udl.magnitude for udl in self._udls)
 
         # reset results
         self._reset_results()
-- 
2.43.0


From 42abfe10ce59b11e477e0107ac684cd790457eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:42 +0000
Subject: [PATCH 02/44] fix: remove every matching load, also adjacent
 duplicates

remove_udls and remove_lls removed from the list they were iterating over
and so skipped the load following each removed one.
---
 pyslope/pyslope.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index ca73c27..69ecbc3 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -526,7 +526,7 @@ class Slope:
         """
 
         for udl in udls:
-            for check_udl in self._udls:
+            for check_udl in list(self._udls):
                 if (
                     check_udl.offset == udl.offset
                     and check_udl.magnitude == udl.magnitude
@@ -615,7 +615,7 @@ class Slope:
 
         # can probably write this as O(n) rather than O(n^2)
         for ll in lls:
-            for check_ll in self._lls:
+            for check_ll in list(self._lls):
                 if (
                     check_ll.offset == ll.offset
                     and check_ll.magnitude == ll.magnitude
-- 
2.43.0


From 8ac34fddcbf12830e92878def1a9e0138ffcda4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:50 +0000
Subject: [PATCH 03/44] fix: allow setting a single inner analysis limit

The validations of right_x_left and right_x were swapped, so setting
right_x_left alone raised and right_x was never validated itself.
---
 pyslope/pyslope.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 69ecbc3..4675937 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -976,14 +976,14 @@ class Slope:
             right_x_left = self._limits[2]
         else:
             data_validation.assert_strictly_positive_number(
-                right_x, "right_x_limit"
+                right_x_left, "right_x left coordinate"
             )
 
         if right_x is None:
             right_x = self._limits[3]
         else:
             data_validation.assert_strictly_positive_number(
-                right_x_left, "right_x left coordinate"
+                right_x, "right_x_limit"
             )
 
         # if only one of the double parameters is defined
-- 
2.43.0


From b74d917956f6eb8a5b759c6d948198da900e38b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:58 +0000
Subject: [PATCH 04/44] fix: refuse zero where a strictly positive number is
 required

assert_strictly_positive_number accepted 0, so a slope of height 0 could be
created and failed later with a division by zero.
---
 pyslope/data_validation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslope/data_validation.py b/pyslope/data_validation.py
index 742c577..61edad1 100644
--- a/pyslope/data_validation.py
+++ b/pyslope/data_validation.py
@@ -27,7 +27,7 @@ def assert_strictly_positive_number(n, name):
             f"The value for '{name}' should be an int or float, not a "
             f"{type(n).__name__}."
         )
-    if n < 0:
+    if n <= 0:
         raise ValueError(f"The value for '{name}' should be > 0, not {n}")
 
 
-- 
2.43.0


From 703446abce324fbb5c155f14eab264902306fd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:05 +0000
Subject: [PATCH 05/44] fix: keep strata and water at their depth when the
 model is resized

The elevations of strata and water table are relative to the model base;
set_external_boundary moves the crest, but left both where they were, so a
change of model height changed their depth below the crest.
---
 pyslope/pyslope.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 4675937..ac5b1a1 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -400,6 +400,14 @@ class Slope:
         self._update_udl_coordinates()
         self._update_ll_coordinates()
 
+        # levels are measured from the base of the model, need to be
+        # updated to remain at the same depth below the top of the slope
+        for material in self._materials:
+            material.RL = tot_h - material.depth_to_bottom
+
+        if self._water_RL is not None:
+            self._water_RL = max(0, tot_h - self._water_depth)
+
         # reset limits
         self.remove_analysis_limits()
 
-- 
2.43.0


From f4d1268623afe4b6991a5be9874d79c3cb4e2517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:11 +0000
Subject: [PATCH 06/44] fix: follow the slope angle with the automatic water
 factor

The factor was computed from the slope at the time of the call only and
remained at the value for the former slope after set_external_boundary.
---
 pyslope/pyslope.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index ac5b1a1..aa2c7e5 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -280,6 +280,7 @@ class Slope:
         self._individual_planes = []
 
         self._external_boundary = None
+        self._water_analysis_auto = False
 
         # intialise options
         self.update_boundary_options(MIN_EXT_H=6, MIN_EXT_L=10)
@@ -408,6 +409,10 @@ class Slope:
         if self._water_RL is not None:
             self._water_RL = max(0, tot_h - self._water_depth)
 
+        # automatic water factor depends on the angle of the slope
+        if self._water_analysis_auto:
+            self.update_water_analysis_options(auto=True)
+
         # reset limits
         self.remove_analysis_limits()
 
@@ -812,6 +817,7 @@ class Slope:
             elif H < 0:
                 H = 0
 
+        self._water_analysis_auto = bool(auto)
         self._water_analysis_H = H
 
         # reset results
-- 
2.43.0


From c3f5a87a475ed998a3e1943a0d9edda9fa9b63a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:20 +0000
Subject: [PATCH 07/44] fix: leave the model unchanged when set_materials
 refuses a duplicate depth

The model was extended before the uniqueness of the depths was checked.
Calling it without any material raised an IndexError.
---
 pyslope/pyslope.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index aa2c7e5..716d777 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -694,14 +694,14 @@ class Slope:
 
         depths = [material.depth_to_bottom for material in materials]
 
-        # if geological unit deeper than model than extend model to fit materials
-        if depths[-1] > self._external_height:
-            self.update_boundary_options(MIN_EXT_H=depths[-1])
-
         # check material depth unique
         if len(depths) > len(set(depths)):
             raise ValueError("The same material depth has been input twice")
 
+        # if geological unit deeper than model than extend model to fit materials
+        if depths and depths[-1] > self._external_height:
+            self.update_boundary_options(MIN_EXT_H=depths[-1])
+
         material_refined = []
         # define RL for each material and color for each material
         for i, material in enumerate(materials):
-- 
2.43.0


From f8ad0f18edd78e0adb37f7df02cddce8b3b3ae65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:27 +0000
Subject: [PATCH 08/44] fix: remove a material of depth 0

remove_material treated a depth of 0 as no depth given.
---
 pyslope/pyslope.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 716d777..bcc43bc 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -772,7 +772,7 @@ class Slope:
             depth = material.depth_to_bottom
 
         # if depth specified adopt
-        if depth:
+        if depth is not None:
             for m in self._materials:
                 if m.depth_to_bottom == depth:
                     self._materials.remove(m)
-- 
2.43.0


From 8f17a8fed1882c6074f905ab4889e00b4a500721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:34 +0000
Subject: [PATCH 09/44] fix: validate both extents before changing either

A refused MIN_EXT_L left MIN_EXT_H changed, which took effect with the next
update of the boundary.
---
 pyslope/pyslope.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index bcc43bc..adeb6b3 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -920,11 +920,14 @@ class Slope:
             data_validation.assert_strictly_positive_number(
                 MIN_EXT_H, "Minimum external model height (MIN_EXT_H)"
             )
-            self._MIN_EXT_H = MIN_EXT_H
         if MIN_EXT_L:
             data_validation.assert_strictly_positive_number(
                 MIN_EXT_L, "Minimum external model length (MIN_EXT_H)"
             )
+
+        if MIN_EXT_H:
+            self._MIN_EXT_H = MIN_EXT_H
+        if MIN_EXT_L:
             self._MIN_EXT_L = MIN_EXT_L
 
         # if the external boundary has been set this call is after init.
-- 
2.43.0


From 3cb423ee60514f9d5b98f4814c8bf4bf161c30fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:11 +0000
Subject: [PATCH 10/44] fix: do not shrink the model below its loads and strata

Loads and strata extend the model when assigned, but a later smaller
MIN_EXT_L or MIN_EXT_H cut loads off or moved them to the model edge.
---
 pyslope/pyslope.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index adeb6b3..98b2bce 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -925,10 +925,17 @@ class Slope:
                 MIN_EXT_L, "Minimum external model length (MIN_EXT_H)"
             )
 
+        # the model has to remain large enough for its materials and loads
         if MIN_EXT_H:
-            self._MIN_EXT_H = MIN_EXT_H
+            self._MIN_EXT_H = max(
+                [MIN_EXT_H] + [m.depth_to_bottom for m in self._materials]
+            )
         if MIN_EXT_L:
-            self._MIN_EXT_L = MIN_EXT_L
+            self._MIN_EXT_L = max(
+                [MIN_EXT_L]
+                + [(u.offset + (u.length or 3)) * 2.5 for u in self._udls]
+                + [ll.offset * 3 for ll in self._lls]
+            )
 
         # if the external boundary has been set this call is after init.
         # Can update the boundary. otherwise will get an error
-- 
2.43.0


From 21de1219f8e1cc3aa220c367118c77efd08443ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:21 +0000
Subject: [PATCH 11/44] fix: let each slope own its strata and loads

Levels and coordinates were stored on the objects passed in, so assigning
the same Material, Udl or LineLoad to two slopes corrupted the first one.
---
 pyslope/pyslope.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 98b2bce..af1f958 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -1,4 +1,5 @@
 # standard library imports
+from copy import copy
 from math import radians, tan, sqrt, atan, cos
 from dataclasses import dataclass
 
@@ -484,7 +485,7 @@ class Slope:
         for udl in udls:
             if isinstance(udl, Udl):
                 if udl.magnitude > 0:
-                    self._udls.append(udl)
+                    self._udls.append(copy(udl))
 
                     # update to make sure full load is included
                     min_length = (udl.offset + (udl.length or 3)) * 2.5
@@ -579,7 +580,7 @@ class Slope:
         for ll in lls:
             if isinstance(ll, LineLoad):
                 if ll.magnitude > 0:
-                    self._lls.append(ll)
+                    self._lls.append(copy(ll))
 
                     # update to make sure full load is included
                     min_length = ll.offset * 3
@@ -689,7 +690,7 @@ class Slope:
         # Need to validate material values also
 
         # sort materials to be in order, include existing materials
-        materials = list(materials) + self._materials
+        materials = [copy(m) for m in materials] + self._materials
         materials.sort(key=lambda x: x.depth_to_bottom)
 
         depths = [material.depth_to_bottom for material in materials]
-- 
2.43.0


From 86c810d26dbe45a491790b72e94e20f76a477735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:28 +0000
Subject: [PATCH 12/44] fix: pass all trial circles through the entry and exit
 point

Once a circle cut the face, the following circles were centred on its exit
point, but with radius and direction of the original chord.
---
 pyslope/pyslope.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index af1f958..dd891ee 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -1178,13 +1178,10 @@ class Slope:
             if len(set(i_list)) < 2:
                 continue
 
-            l_c = i_list[0]
-            r_c = i_list[1]
-
             search += [
                 {
-                    "l_c": l_c,
-                    "r_c": r_c,
+                    "l_c": i_list[0],
+                    "r_c": i_list[1],
                     "c_x": c_x,
                     "c_y": c_y,
                     "radius": radius,
-- 
2.43.0


From 7bde77f0522984c5686fa4a445a6de6d50b57731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:35 +0000
Subject: [PATCH 13/44] fix: report only failure planes inside the analysis
 limits

Planes starting next to a load, and planes leaving through the face before
their intended exit point, were reported although they are outside limits.
---
 pyslope/pyslope.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index dd891ee..1d9b34f 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -1101,7 +1101,16 @@ class Slope:
                     utilities.dist_points(l_c, r_c)
                     > self._min_failure_distance
                 ):
-                    search += self._generate_planes(l_c, r_c, num_circles)
+                    # planes might cut through the slope before the exit
+                    # point, or start at a load outside of the limits
+                    search += [
+                        plane
+                        for plane in self._generate_planes(
+                            l_c, r_c, num_circles
+                        )
+                        if x1 - 1e-6 <= plane["l_c"][0] <= x2 + 1e-6
+                        and x3 - 1e-6 <= plane["r_c"][0] <= x4 + 1e-6
+                    ]
 
         self._search = search
 
-- 
2.43.0


From 4a0ca8bdd78da45ab835ac4a677557182a5a3205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:43 +0000
Subject: [PATCH 14/44] fix: apply the minimum failure distance to the actual
 failure plane

It was only applied to the trial points, a plane that leaves through the
face earlier could be shorter.
---
 pyslope/pyslope.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 1d9b34f..4279449 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -1110,6 +1110,8 @@ class Slope:
                         )
                         if x1 - 1e-6 <= plane["l_c"][0] <= x2 + 1e-6
                         and x3 - 1e-6 <= plane["r_c"][0] <= x4 + 1e-6
+                        and utilities.dist_points(plane["l_c"], plane["r_c"])
+                        > self._min_failure_distance
                     ]
 
         self._search = search
-- 
2.43.0


From 6725860eb49970b9343717d034247d8d9e06e8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:53 +0000
Subject: [PATCH 15/44] fix: search the entry range for any number of loads

Each load takes one of the points of the entry range, with many loads a
single point (ZeroDivisionError) or no points at all were left.
---
 pyslope/pyslope.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 4279449..660a2e9 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -1059,7 +1059,9 @@ class Slope:
 
         # remove number of points on top to be spread to allow for specific
         # points next to the edge of loads
-        num_points_top = num_points_top - len(self._lls) - len(self._udls)
+        num_points_top = max(
+            2, num_points_top - len(self._lls) - len(self._udls)
+        )
 
         # get limits on bounds of slope
         # not some limits might still stretch off slope
-- 
2.43.0


From a16da27b014af140795513784c03e8e8c4e60fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:02 +0000
Subject: [PATCH 16/44] fix: plot critical planes narrower than the spacing of
 circle points

The outline started at the first circle point, there is none between the
end points of a short flat failure plane (IndexError).
---
 pyslope/pyslope.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 660a2e9..99d87ab 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -2932,8 +2932,8 @@ class Slope:
                 y_.append(y[i])
 
         if show_center:
-            x_ += [r_c[0], c_x, l_c[0], x_[0]]
-            y_ += [r_c[1], c_y, l_c[1], y_[0]]
+            x_ = [l_c[0]] + x_ + [r_c[0], c_x, l_c[0]]
+            y_ = [l_c[1]] + y_ + [r_c[1], c_y, l_c[1]]
         else:
             x_ = [l_c[0]] + x_ + [r_c[0]]
             y_ = [l_c[1]] + y_ + [r_c[1]]
-- 
2.43.0


From bf2ff19dfe0380125fc2c23012338e86cd44a8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:10 +0000
Subject: [PATCH 17/44] fix: report end points of user planes on the current
 boundary

End points were kept from when the plane was added, although the factor of
safety is that of the current boundary.
---
 pyslope/pyslope.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 99d87ab..fcf80ac 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -1270,7 +1270,16 @@ class Slope:
 
         # if individual failure planes set only analyse them
         if self._individual_planes != []:
-            self._search = self._individual_planes
+            self._search = []
+            for plane in self._individual_planes:
+                # boundary might have changed since plane was added
+                i_list = self._get_circle_external_intersection(
+                    plane["c_x"], plane["c_y"], plane["radius"]
+                )
+                if len(set(i_list)) >= 2:
+                    self._search.append(
+                        dict(plane, l_c=i_list[0], r_c=i_list[1])
+                    )
 
         # otherwise generate planes across the entire slope
         else:
-- 
2.43.0


From 3000a6d38182cbc495518f04867202f032f03955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:18 +0000
Subject: [PATCH 18/44] fix: use the top of the slope as range of dynamic loads

The range was the length of the face, and for uniform loads what the
shortest load left of the top. Loads on steep slopes could not move away
(vertical face: negative offset), continuous loads raised a TypeError.
---
 pyslope/pyslope.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index fcf80ac..70ab3a9 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -1789,12 +1789,12 @@ class Slope:
         right = 0.0
 
         # get the length of the top and subtract the largest dynamic load length
-        left = self._length
+        left = self._top_coord[0]
         for udl in self._udls:
-            if udl.dynamic_offset:
-                left = max(left, self._top_coord[0] - udl.length)
+            if udl.dynamic_offset and udl.length:
+                left = min(left, self._top_coord[0] - udl.length)
 
-        left -= 0.01
+        left = max(left - 0.01, right)
 
         # check for extreme case with loads at crest (right)
         # if slope is safe (FOS high) then return
-- 
2.43.0


From abccf83a54ff6e1ed82354bedd8e7926766c9ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:25 +0000
Subject: [PATCH 19/44] fix: end dynamic analysis when the bracket has a single
 factor of safety

The interpolation divided by zero if both ends equal the target.
---
 pyslope/pyslope.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 70ab3a9..dba5795 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -1834,6 +1834,10 @@ class Slope:
             left_fos = self._dynamic_results[left]
             right_fos = self._dynamic_results[right]
 
+            # both equal to the critical FOS, nothing left to converge on
+            if left_fos == right_fos:
+                break
+
             m = (left_fos - right_fos) / (left - right)
             midpoint = right + (critical_fos - right_fos) / m
 
-- 
2.43.0


From 306ea0545da9e6462f5f520e42a9924ebc780046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:32 +0000
Subject: [PATCH 20/44] fix: run dynamic analyses of the web application

The Decimal of the form can not be combined with floats; every dynamic
analysis that needed to converge fell back to a normal analysis with the
loads left at their furthest offset.
---
 slope/views.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slope/views.py b/slope/views.py
index 1606e98..3a61c03 100644
--- a/slope/views.py
+++ b/slope/views.py
@@ -481,7 +481,7 @@ def create_slope(
         # might fail if no dynamic loads set up
         try:
             slope.analyse_dynamic(
-                critical_fos=options_form.cleaned_data["critical_FOS"]
+                critical_fos=float(options_form.cleaned_data["critical_FOS"])
             )
         except Exception:
             slope.analyse_slope(max_fos=5)
-- 
2.43.0


From 176f1dca0f4cc516e94356b1047e401f3f8e0195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:39 +0000
Subject: [PATCH 21/44] fix: lead back to the page if there is nothing to
 report as pdf

A download without stored results, or with a factor of safety that is not
a number, ended in a server error.
---
 slope/views.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/slope/views.py b/slope/views.py
index 3a61c03..413e21b 100644
--- a/slope/views.py
+++ b/slope/views.py
@@ -52,12 +52,17 @@ def reset(request):
 
 def pdf(request, max_fos=5):
     # get saved data, still taking forever.
-    if request.session["plot_json"] == [] or request.session["search"] == []:
+    if not request.session.get("plot_json") or not request.session.get(
+        "search"
+    ):
         return redirect("index")
     plot = from_json(request.session["plot_json"])
     search = list(eval(str(request.session["search"])))
 
-    max_fos = float(max_fos)
+    try:
+        max_fos = float(max_fos)
+    except ValueError:
+        return redirect("index")
 
     # turn json data back into a plotly chart
     traces = []
-- 
2.43.0


From bc99cc7c2398e9ea243ce8ea594b428233bcaf2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:02 +0000
Subject: [PATCH 22/44] fix: treat submissions without a possible result as
 invalid

Values that pass the forms but not the model (e.g. two strata of the same
depth), or a model without failure plane, ended in a server error.
---
 slope/views.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/slope/views.py b/slope/views.py
index 413e21b..0378855 100644
--- a/slope/views.py
+++ b/slope/views.py
@@ -281,7 +281,14 @@ def index(request):
         # if form is valid
         if valid:
 
-            slope = create_slope(*form_list)
+            try:
+                slope = create_slope(*form_list)
+            except ValueError:
+                return redirect("reset")
+
+            # nothing to show without a failure plane
+            if not slope._search:
+                return redirect("reset")
 
             # return color_dictionary
             # add coordinates of failure planes to information that gets passed back.
-- 
2.43.0


From 781cc11a6da9b90f1e7fd11341271b0465db3eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:54 +0000
Subject: [PATCH 23/44] fix: report a factor of safety of 0 if there is no
 resistance

Bishop's iteration started from 0 gave nan for strata without cohesion
and friction, which breaks the order of the results and the plots.
---
 pyslope/pyslope.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index dba5795..e05e7e0 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -1615,6 +1615,11 @@ class Slope:
         )
         if FS is None:
             return None
+
+        # no resistance at all, nothing to iterate on
+        if FS == 0:
+            return 0.0
+
         prev_FS = FS
 
         # --- Slice geometry setup ---
-- 
2.43.0


From 1ecb01bc02ea8a39fe53a659b4383b5e066023a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:02 +0000
Subject: [PATCH 24/44] fix: update all or none of the analysis options

A value of the wrong type raised after earlier options were changed.
---
 pyslope/pyslope.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index e05e7e0..76c6805 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -870,17 +870,27 @@ class Slope:
         ...     max_iterations=50,
         ... )
         """
+        # clamp first, an invalid value should not leave a partial update
         if slices:
-            self._slices = max(min(500, slices), 10)
+            slices = max(min(500, slices), 10)
 
         if iterations:
-            self._iterations = max(min(iterations, 100000), 500)
+            iterations = max(min(iterations, 100000), 500)
 
         if min_failure_dist is not None:
-            self._min_failure_distance = min(
+            min_failure_dist = min(
                 min_failure_dist, self._external_length * 0.9
             )
 
+        if slices:
+            self._slices = slices
+
+        if iterations:
+            self._iterations = iterations
+
+        if min_failure_dist is not None:
+            self._min_failure_distance = min_failure_dist
+
         if tolerance is not None:
             self._tolerance = tolerance
 
-- 
2.43.0


From 3aa6318778b90cf86f5a93efd345eefe8e6db06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:08 +0000
Subject: [PATCH 25/44] fix: keep the model deep enough for its strata when the
 slope shrinks

set_materials extends the model to the deepest stratum, but only if the
model of that moment is too shallow; a later smaller slope left strata
below the base of the model.
---
 pyslope/pyslope.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 76c6805..4e1c311 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -364,6 +364,10 @@ class Slope:
         # help with division by zero errors
         length = max(length, 0.001)
 
+        # model has to remain deep enough for its materials
+        for material in self._materials:
+            self._MIN_EXT_H = max(self._MIN_EXT_H, material.depth_to_bottom)
+
         MIN_EXT_H = self._MIN_EXT_H
         MIN_EXT_L = self._MIN_EXT_L
 
-- 
2.43.0


From 9be9a226e4dbf899b0f7ff6fba99a66356a9066d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:24 +0000
Subject: [PATCH 26/44] fix: take a malformed hex code as no colour

---
 pyslope/utilities.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslope/utilities.py b/pyslope/utilities.py
index 94d45fa..a9d4027 100644
--- a/pyslope/utilities.py
+++ b/pyslope/utilities.py
@@ -20,7 +20,8 @@ def is_color(color):
     try:
         color = Color(color)
         return True
-    except ValueError:
+    except (ValueError, AttributeError):
+        # Color raises AttributeError for a malformed hex code, say "#12"
         return False
 
 
-- 
2.43.0


From 95c3db7253462810a71dd490fd01b13b8671d7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:25 +0000
Subject: [PATCH 27/44] fix: a load with an empty colour gets the default
 colour

---
 pyslope/utilities.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyslope/utilities.py b/pyslope/utilities.py
index a9d4027..b6ca171 100644
--- a/pyslope/utilities.py
+++ b/pyslope/utilities.py
@@ -17,6 +17,8 @@ MATERIAL_COLORS = [
 
 
 def is_color(color):
+    if not color:
+        return False
     try:
         color = Color(color)
         return True
-- 
2.43.0


From 90ebdc641a661416ff2003c2b455596ad229159c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:43 +0000
Subject: [PATCH 28/44] fix: keep the last exit point within the limits

---
 pyslope/pyslope.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 4e1c311..3997896 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -1093,7 +1093,7 @@ class Slope:
         # can be at bottom or on slope, so y is function of x and
         # needs to be determined for different points
         right_coords_x = [
-            x3 + (n / (num_points_bot)) * (x4 - x3)
+            min(x3 + (n / (num_points_bot)) * (x4 - x3), x4)
             for n in range(1, num_points_bot + 1)
         ]
 
-- 
2.43.0


From 541a982302113370891b91409a51b733e21744e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:57 +0000
Subject: [PATCH 29/44] fix: treat submissions out of the range of numbers as
 invalid

---
 slope/views.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slope/views.py b/slope/views.py
index 0378855..8287b86 100644
--- a/slope/views.py
+++ b/slope/views.py
@@ -283,7 +283,7 @@ def index(request):
 
             try:
                 slope = create_slope(*form_list)
-            except ValueError:
+            except (ValueError, OverflowError):
                 return redirect("reset")
 
             # nothing to show without a failure plane
-- 
2.43.0


From 7852c8655c4ef1292bdda4ff13b59289d90b0bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:04 +0000
Subject: [PATCH 30/44] fix: report stored planes without evaluating them as
 code

---
 slope/views.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slope/views.py b/slope/views.py
index 8287b86..74ea47b 100644
--- a/slope/views.py
+++ b/slope/views.py
@@ -57,7 +57,7 @@ def pdf(request, max_fos=5):
     ):
         return redirect("index")
     plot = from_json(request.session["plot_json"])
-    search = list(eval(str(request.session["search"])))
+    search = request.session["search"]
 
     try:
         max_fos = float(max_fos)
-- 
2.43.0


From 2a3661c2b103cda6b68825fa002383c6ef305a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:47 +0000
Subject: [PATCH 31/44] fix: drop planes whose factor of safety is not a number

---
 pyslope/pyslope.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 3997896..12e8251 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -1,6 +1,6 @@
 # standard library imports
 from copy import copy
-from math import radians, tan, sqrt, atan, cos
+from math import isfinite, radians, tan, sqrt, atan, cos
 from dataclasses import dataclass
 
 # third party imports
@@ -1309,7 +1309,12 @@ class Slope:
 
         # tidy the information to remove anything that didnt run and
         # to be sorted from lowest FOS to highest FOS
-        search = list(filter((lambda x: x["FOS"] is not None), self._search))
+        search = list(
+            filter(
+                (lambda x: x["FOS"] is not None and isfinite(x["FOS"])),
+                self._search,
+            )
+        )
         search.sort(key=lambda x: x["FOS"])
         if max_fos:
             search = list(filter(lambda x: (x["FOS"] <= max_fos), search))
-- 
2.43.0


From 970ab92b2fdd8f85e09d97bfc61113b3ca7eb414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:57 +0000
Subject: [PATCH 32/44] fix: count every line load in exactly one slice

---
 pyslope/pyslope.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 12e8251..df73a79 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -1479,8 +1479,9 @@ class Slope:
         )
 
         # --- Add distributed and line loads ---
-        xl = slice_x - half_width
-        xr = slice_x + half_width
+        # slices share their edges so that a load belongs to exactly one slice
+        edges = np.linspace(x_left, x_right, num_slices + 1)
+        xl, xr = edges[:-1], edges[1:]
 
         for udl in self._udls:
             overlap = np.minimum(
@@ -1703,8 +1704,13 @@ class Slope:
         )
 
         # --- Add uniformly distributed loads (UDLs) ---
-        x_left = slice_x - half_slice
-        x_right = slice_x + half_slice
+        # slices share their edges so that a load belongs to exactly one slice
+        edges = np.linspace(
+            intersections[0][0],
+            intersections[1][0],
+            num_slices + 1,
+        )
+        x_left, x_right = edges[:-1], edges[1:]
         for udl in self._udls:
             overlap = np.minimum(
                 x_right,
-- 
2.43.0


From 56e6c532785c72e393e2db9f030f2c1b671a1b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:36 +0000
Subject: [PATCH 33/44] fix: number rows of the forms correctly from the
 eleventh on

---
 static/slope/add_rows.js | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/static/slope/add_rows.js b/static/slope/add_rows.js
index f967fd1..140d175 100644
--- a/static/slope/add_rows.js
+++ b/static/slope/add_rows.js
@@ -35,7 +35,7 @@ document.addEventListener("DOMContentLoaded", () => {
         const materialEnd = document.querySelector('#end-row-Materials');
 
         materialFormCount++;
-        const materialFormRegex = RegExp(`material-(\\d){1}-`, 'g');
+        const materialFormRegex = RegExp(`material-\\d+-`, 'g');
 
         newMaterialForm.innerHTML = newMaterialForm.innerHTML.replace(materialFormRegex, `material-${materialFormCount}-`)
 
@@ -57,7 +57,7 @@ document.addEventListener("DOMContentLoaded", () => {
         const lineLoadEnd = document.querySelector('#end-row-LineLoads');
 
         lineLoadFormCount++;
-        const lineLoadFormRegex = RegExp(`lineload-(\\d){1}-`, 'g');
+        const lineLoadFormRegex = RegExp(`lineload-\\d+-`, 'g');
 
         newLineLoadForm.innerHTML = newLineLoadForm.innerHTML.replace(lineLoadFormRegex, `lineload-${lineLoadFormCount}-`)
 
@@ -78,7 +78,7 @@ document.addEventListener("DOMContentLoaded", () => {
         const udlEnd = document.querySelector('#end-row-Udls');
 
         udlFormCount++;
-        const udlFormRegex = RegExp(`udl-(\\d){1}-`, 'g');
+        const udlFormRegex = RegExp(`udl-\\d+-`, 'g');
 
         newUdlForm.innerHTML = newUdlForm.innerHTML.replace(udlFormRegex, `udl-${udlFormCount}-`)
 
@@ -92,7 +92,7 @@ document.addEventListener("DOMContentLoaded", () => {
     function updateForms(event) {
         //material
         let count = 0;
-        const materialFormRegex = RegExp(`material-(\\d){1}-`, 'g');
+        const materialFormRegex = RegExp(`material-\\d+-`, 'g');
         for (let form of materialForm) {
             for (let cell of form.children) {
                 for (let input of cell.children){
@@ -105,7 +105,7 @@ document.addEventListener("DOMContentLoaded", () => {
         
         //line loads
         count = 0;
-        const lineLoadFormRegex = RegExp(`lineload-(\\d){1}-`, 'g');
+        const lineLoadFormRegex = RegExp(`lineload-\\d+-`, 'g');
         for (let form of lineLoadForm) {
             for (let cell of form.children) {
                 for (let input of cell.children){
@@ -118,7 +118,7 @@ document.addEventListener("DOMContentLoaded", () => {
 
         // distributed loads
         count = 0;
-        const udlFormRegex = RegExp(`udl-(\\d){1}-`, 'g');
+        const udlFormRegex = RegExp(`udl-\\d+-`, 'g');
         for (let form of udlForm) {
             for (let cell of form.children) {
                 for (let input of cell.children){
-- 
2.43.0


From 69322b8dced80089684d1a4f2377227111c79f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:59 +0000
Subject: [PATCH 34/44] fix: offer no report of a form that has been changed

---
 static/slope/update_pdf_link.js | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/static/slope/update_pdf_link.js b/static/slope/update_pdf_link.js
index ff6ab89..c333385 100644
--- a/static/slope/update_pdf_link.js
+++ b/static/slope/update_pdf_link.js
@@ -5,9 +5,7 @@ function update_pdf_link() {
     // if href = '' something has already changed in the inputs
     // the user isnt allowed to request pdf and as such the 
     // href shal remain '' unless form is the same.
-    if (link.href = '') {
-        pass;
-    } else {
+    if (link.getAttribute('href') !== '') {
         link.href = `pdf/${fos}`;
     }
 
-- 
2.43.0


From 30b2ec006063e47da438175c6bbb96c8286ab6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:59 +0000
Subject: [PATCH 35/44] fix: allow a new analysis after any change of the form

---
 static/slope/button_control.js | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/static/slope/button_control.js b/static/slope/button_control.js
index aa56da0..79899ae 100644
--- a/static/slope/button_control.js
+++ b/static/slope/button_control.js
@@ -8,21 +8,28 @@ document.addEventListener("DOMContentLoaded", () => {
 
 
 
-    inputs = document.getElementsByTagName('input');
-    for (var i = 0; i < inputs.length; i++) {
-        if (inputs[i].id != 'id_options-max_display_FOS') {
-            inputs[i].addEventListener('change', () => {
-                document.getElementById('analysis_button').disabled = false
-
-                // for pdf_button it has been changed to a link so need 
-                document.getElementById('pdf_button').classList.add('disabled');
-                document.getElementById('pdf_button').href = '';
-            });
+    // listen to the form rather than its inputs since rows come and go
+    const form = document.getElementById('mainform');
+    form.addEventListener('change', (event) => {
+        if (event.target.id != 'id_options-max_display_FOS') {
+            form_changed();
         }
-
-    }
+    });
+    form.addEventListener('click', (event) => {
+        if (event.target.matches('[id^="add-"], [class*="delete-"]')) {
+            form_changed();
+        }
+    });
 });
 
+function form_changed() {
+    document.getElementById('analysis_button').disabled = false
+
+    // for pdf_button it has been changed to a link so need 
+    document.getElementById('pdf_button').classList.add('disabled');
+    document.getElementById('pdf_button').href = '';
+}
+
 function trigger_spinner() {
 
     document.getElementById('loading-spinner').style = "display:inline-block";
-- 
2.43.0


From eb5b4fe6fcf6c1284ed9cf0e3bedf4192c005203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:59 +0000
Subject: [PATCH 36/44] fix: show the chart on small screens

---
 static/slope/charting.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/static/slope/charting.js b/static/slope/charting.js
index ec45b87..76f812c 100644
--- a/static/slope/charting.js
+++ b/static/slope/charting.js
@@ -55,7 +55,7 @@ function createPlot(max_display_fos) {
                 objTo.appendChild(td)
             }
         }
-        Plotly.update('plotly_js', plot.data, plot.layout)
+        Plotly.newPlot('plotly_js', plot.data, plot.layout)
     }
     else {
         //if not a mobile screen hide the extra html elements
-- 
2.43.0


From 2f4a6b1e1db7bb431faa93f4946305d1f5a390d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:59 +0000
Subject: [PATCH 37/44] fix: list the strata of the model on small screens

---
 static/slope/charting.js | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/static/slope/charting.js b/static/slope/charting.js
index 76f812c..c7aad6e 100644
--- a/static/slope/charting.js
+++ b/static/slope/charting.js
@@ -30,16 +30,13 @@ function createPlot(max_display_fos) {
 
         if (document.getElementById('mobile_soil_table').childElementCount == 0) {
 
-            soils = document.getElementsByClassName('formset-row-Materials')
-            soils_count = soils.length
+            // the strata are drawn as filled shapes that carry their properties
+            soils = plot.data.filter((trace) => trace.fill === 'toself' && trace.meta)
 
-            for (var i = 0; i < soils_count; i += 1) {
+            for (const soil of soils) {
                 // creating the table of soil properties
-                weight = document.getElementById('id_material-' + i + '-unit_weight').value
-                friction = document.getElementById('id_material-' + i + '-friction_angle').value
-                cohesion = document.getElementById('id_material-' + i + '-cohesion').value
-                soil_name = document.getElementById('id_material-' + i + '-name').value
-                colour = plot.data[i + 1].fillcolor
+                const [weight, cohesion, friction, soil_name] = soil.meta
+                colour = soil.fillcolor
                 var objTo = document.getElementById('mobile_soil_table');
                 var tr = document.createElement("tr");
                 tr.innerHTML = '<td>' + soil_name + '</td><td style="background-color:' + colour + ';"></td><td>' + weight + '</td><td>' + cohesion + '</td><td>' + friction + '</td>';
-- 
2.43.0


From f11de11ba6a847f77fcef6eb4d60984aef705712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:42 +0000
Subject: [PATCH 38/44] fix: show names of strata as they are on small screens

---
 static/slope/charting.js | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/static/slope/charting.js b/static/slope/charting.js
index c7aad6e..edc3899 100644
--- a/static/slope/charting.js
+++ b/static/slope/charting.js
@@ -39,7 +39,8 @@ function createPlot(max_display_fos) {
                 colour = soil.fillcolor
                 var objTo = document.getElementById('mobile_soil_table');
                 var tr = document.createElement("tr");
-                tr.innerHTML = '<td>' + soil_name + '</td><td style="background-color:' + colour + ';"></td><td>' + weight + '</td><td>' + cohesion + '</td><td>' + friction + '</td>';
+                tr.innerHTML = '<td></td><td style="background-color:' + colour + ';"></td><td>' + weight + '</td><td>' + cohesion + '</td><td>' + friction + '</td>';
+                tr.firstChild.textContent = soil_name
                 objTo.appendChild(tr)
             }
 
-- 
2.43.0


From 56307903a50dbc2e7ee6f15f1846c23fd16c27de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:59 +0000
Subject: [PATCH 39/44] fix: label the factor of safety legend up to 5 on small
 screens

---
 slope/templates/slope/index.html | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/slope/templates/slope/index.html b/slope/templates/slope/index.html
index a3fc43b..8374225 100644
--- a/slope/templates/slope/index.html
+++ b/slope/templates/slope/index.html
@@ -162,7 +162,9 @@
         <div class="col"><b>0</b></div>
         <div class="col text-center"><b>1</b></div>
         <div class="col text-center"><b>2</b></div>
-        <div class="col text-end"><b>3</b></div>
+        <div class="col text-center"><b>3</b></div>
+        <div class="col text-center"><b>4</b></div>
+        <div class="col text-end"><b>5</b></div>
       </div>
       <table class="table" style="table-layout: fixed;">
         <tbody>
-- 
2.43.0


From a3261fe3d3c103ae72c884fa3238c39d2b45a492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:35 +0000
Subject: [PATCH 40/44] fix: analyse_slope with max_fos 0 reported every plane

---
 pyslope/pyslope.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index df73a79..156e757 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -1316,7 +1316,7 @@ class Slope:
             )
         )
         search.sort(key=lambda x: x["FOS"])
-        if max_fos:
+        if max_fos is not None:
             search = list(filter(lambda x: (x["FOS"] <= max_fos), search))
 
         self._search = search
-- 
2.43.0


From 43942a31c61874536b188ab7c3dffbf4953c89d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:35 +0000
Subject: [PATCH 41/44] fix: slices and iterations of 0 were ignored instead of
 clamped

---
 pyslope/pyslope.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 156e757..0f90100 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -875,10 +875,10 @@ class Slope:
         ... )
         """
         # clamp first, an invalid value should not leave a partial update
-        if slices:
+        if slices is not None:
             slices = max(min(500, slices), 10)
 
-        if iterations:
+        if iterations is not None:
             iterations = max(min(iterations, 100000), 500)
 
         if min_failure_dist is not None:
@@ -886,10 +886,10 @@ class Slope:
                 min_failure_dist, self._external_length * 0.9
             )
 
-        if slices:
+        if slices is not None:
             self._slices = slices
 
-        if iterations:
+        if iterations is not None:
             self._iterations = iterations
 
         if min_failure_dist is not None:
-- 
2.43.0


From 349f18ecc1710bb282ca160ee704f278c53db347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:50 +0000
Subject: [PATCH 42/44] fix: plot_all_planes drew the legend twice and
 regardless of the legend option

---
 pyslope/pyslope.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 0f90100..eb4610b 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -2356,8 +2356,6 @@ class Slope:
 
         fig = self.plot_critical(material_table=material_table, legend=legend)
 
-        fig = self._plot_FOS_legend(fig)
-
         # JB 20.04.22 - 'hacked' into how plotly works to make faster
         # ultimately not very readible approach compared to the old approach
         # however old approach was too slow
-- 
2.43.0


From 5eb999fac684bed365adfade47de14ef6985e198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:29 +0000
Subject: [PATCH 43/44] fix: refuse values that are not a number

---
 pyslope/data_validation.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyslope/data_validation.py b/pyslope/data_validation.py
index 61edad1..9cb0083 100644
--- a/pyslope/data_validation.py
+++ b/pyslope/data_validation.py
@@ -16,7 +16,7 @@ def assert_positive_number(n, name):
             f"The value for '{name}' must be an int or float, "
             f"not {type(n)}."
         )
-    if n < 0:
+    if not n >= 0:
         raise ValueError(f"The value for '{name}' should be >= 0, not {n}")
 
 
@@ -27,7 +27,7 @@ def assert_strictly_positive_number(n, name):
             f"The value for '{name}' should be an int or float, not a "
             f"{type(n).__name__}."
         )
-    if n <= 0:
+    if not n > 0:
         raise ValueError(f"The value for '{name}' should be > 0, not {n}")
 
 
@@ -38,6 +38,8 @@ def assert_number(n, name):
             f"The value for '{name}' should be an integer or a float, "
             f"not a {type(n)}."
         )
+    if n != n:
+        raise ValueError(f"The value for '{name}' should be a number.")
 
 
 def assert_range(n, name, low, high, not_low=False, not_high=False):
@@ -52,7 +54,7 @@ def assert_range(n, name, low, high, not_low=False, not_high=False):
             f"The value for the ranges low and high should be an integer "
             f"or a float not a {type(low)} and {type(high)}."
         )
-    if n < low:
+    if not n >= low:
         raise ValueError(
             f"The value for '{name}' should be greater than {low}, not {n}."
         )
-- 
2.43.0


From b3bc2bb73bb4df3460196213702694061092cb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:29 +0000
Subject: [PATCH 44/44] fix: no boundary point at levels below the model

---
 pyslope/pyslope.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index eb4610b..5f59f74 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -2159,8 +2159,12 @@ class Slope:
 
     def get_external_x_intersection(self, y):
         """return x coordinate of intersection with boundary for a given y"""
+        # y is below the model
+        if y < 0:
+            return None
+
         # y is below the bottom of the slope
-        if y < self._bot_coord[1]:
+        elif y < self._bot_coord[1]:
             return self._external_length
 
         # y is above the bottom of the slope
-- 
2.43.0

