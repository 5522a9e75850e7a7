From 2ea029516dee62b7cc8c5c5189349bcb48a1e551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:26 +0000
Subject: [PATCH 01/39] fix: imageFromCamera no longer modifies the points
 array of the caller

---
 cameratransform/projection.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cameratransform/projection.py b/cameratransform/projection.py
index 67c3425..368305e 100644
--- a/cameratransform/projection.py
+++ b/cameratransform/projection.py
@@ -395,7 +395,7 @@ class RectilinearProjection(CameraProjection):
             x_im = f_x * --- + offset_x      y_im = f_y * --- + offset_y
                           z                                z
         """
-        points = ensure_array_format(points, "...x3")
+        points = np.array(ensure_array_format(points, "...x3"))
         # set small z distances to 0
         points[np.abs(points[..., 2]) < 1e-10] = 0
         x, y, z = points.T
@@ -472,7 +472,7 @@ class CylindricalProjection(CameraProjection):
                                  (-z )                               sqrt(x**2+z**2)
         """
         # ensure that the points are provided as an array
-        points = ensure_array_format(points, "...x3")
+        points = np.array(ensure_array_format(points, "...x3"))
         # set small z distances to 0
         points[np.abs(points[..., 2]) < 1e-10] = 0
         x, y, z = points.T
@@ -550,7 +550,7 @@ class EquirectangularProjection(CameraProjection):
                                ( z )                                    (sqrt(x**2+z**2))
         """
         # ensure that the points are provided as an array
-        points = ensure_array_format(points, "...x3")
+        points = np.array(ensure_array_format(points, "...x3"))
         # set small z distances to 0
         points[np.abs(points[..., 2]) < 1e-10] = 0
         x, y, z = points.T
-- 
2.43.0


From faf65c221da65c5bb716b7b73f6ff630464e4579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:26 +0000
Subject: [PATCH 02/39] fix: cylindrical and equirectangular projections keep x
 and y of points at z=0

---
 cameratransform/projection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cameratransform/projection.py b/cameratransform/projection.py
index 368305e..6921f69 100644
--- a/cameratransform/projection.py
+++ b/cameratransform/projection.py
@@ -474,7 +474,7 @@ class CylindricalProjection(CameraProjection):
         # ensure that the points are provided as an array
         points = np.array(ensure_array_format(points, "...x3"))
         # set small z distances to 0
-        points[np.abs(points[..., 2]) < 1e-10] = 0
+        points[..., 2][np.abs(points[..., 2]) < 1e-10] = 0
         x, y, z = points.T
         # transform the points
         with np.errstate(divide='ignore', invalid='ignore'):
@@ -552,7 +552,7 @@ class EquirectangularProjection(CameraProjection):
         # ensure that the points are provided as an array
         points = np.array(ensure_array_format(points, "...x3"))
         # set small z distances to 0
-        points[np.abs(points[..., 2]) < 1e-10] = 0
+        points[..., 2][np.abs(points[..., 2]) < 1e-10] = 0
         x, y, z = points.T
         # transform the points
         transformed_points = np.array(
-- 
2.43.0


From ed1aa2e1b670636166297d26bb8379bf85c13100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:54 +0000
Subject: [PATCH 03/39] fix: getClosestPointFromLine no longer normalizes the
 ray of the caller in place

---
 cameratransform/ray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cameratransform/ray.py b/cameratransform/ray.py
index 4554e4d..1fa3cbb 100644
--- a/cameratransform/ray.py
+++ b/cameratransform/ray.py
@@ -323,7 +323,7 @@ def getClosestPointFromLine(origin, ray, point):
     # calculate the difference vector
     delta = point-origin
     # norm the ray
-    ray /= np.linalg.norm(ray, axis=-1)[..., None]
+    ray = ray / np.linalg.norm(ray, axis=-1)[..., None]
     # calculate the scale product
     factor = np.sum(ray*delta, axis=-1)
     try:
-- 
2.43.0


From 8afa72ac02c3b36f6959ac1ac3bfa5c10648f6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:54 +0000
Subject: [PATCH 04/39] fix: rays that miss every triangle are reported as nan
 instead of inf

---
 cameratransform/ray.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cameratransform/ray.py b/cameratransform/ray.py
index 1fa3cbb..078dfee 100644
--- a/cameratransform/ray.py
+++ b/cameratransform/ray.py
@@ -87,8 +87,7 @@ def ray_intersect_triangle(origin, direction, triangle, use_planes=False):
 
     def nanargmin(a, axis):
         mask = np.isnan(a)
-        a[mask] = np.inf
-        res = np.argmin(a, axis=axis)
+        res = np.argmin(np.where(mask, np.inf, a), axis=axis)
         return res
 
     index = nanargmin(rI, axis=0)
-- 
2.43.0


From af0ab3cefed7c07e99a523f2c37146a5ff75da78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:54 +0000
Subject: [PATCH 05/39] fix: spaceFromGPS detects coordinates without height by
 their last dimension

---
 cameratransform/gps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cameratransform/gps.py b/cameratransform/gps.py
index b07d937..e8b9555 100644
--- a/cameratransform/gps.py
+++ b/cameratransform/gps.py
@@ -459,7 +459,7 @@ def moveDistance(start, distance, bearing):
 
 
 def spaceFromGPS(gps, gps0):
-    if len(gps[..., :]) == 2:
+    if gps.shape[-1] == 2:
         height = np.zeros_like(gps[..., 0])
     else:
         height = gps[..., 2]
-- 
2.43.0


From 4c9c4e26e3011bfaafa380a335b2f2ff2b651326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:54 +0000
Subject: [PATCH 06/39] fix: spaceFromGPS does not add the height difference to
 the horizontal distance

---
 cameratransform/gps.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cameratransform/gps.py b/cameratransform/gps.py
index e8b9555..f1d832b 100644
--- a/cameratransform/gps.py
+++ b/cameratransform/gps.py
@@ -463,7 +463,8 @@ def spaceFromGPS(gps, gps0):
         height = np.zeros_like(gps[..., 0])
     else:
         height = gps[..., 2]
-    distance = getDistance(gps0, gps)
+    # the height is a separate coordinate, it does not contribute to the distance in the x-y plane
+    distance = getDistance(np.array(gps0)[..., :2], gps[..., :2])
     bearing_rad = np.deg2rad(getBearing(gps0, gps))
     return np.array([distance * np.sin(bearing_rad), distance * np.cos(bearing_rad), height]).T
 
-- 
2.43.0


From 7250c77f39a975e65049b4f3787907fd68b5c3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:54 +0000
Subject: [PATCH 07/39] fix: lens distortions map the optical center to itself
 instead of nan

---
 cameratransform/lens_distortion.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cameratransform/lens_distortion.py b/cameratransform/lens_distortion.py
index 3dc2588..bb18a4f 100644
--- a/cameratransform/lens_distortion.py
+++ b/cameratransform/lens_distortion.py
@@ -154,6 +154,8 @@ class BrownLensDistortion(LensDistortion):
         points = (np.array(points)-self.offset)/self.scale
         # calculate the radius form the center
         r = np.linalg.norm(points, axis=-1)[..., None]
+        # the center itself is not shifted (prevent 0/0)
+        r[r == 0] = 1
         # transform the points
         with np.errstate(divide='ignore', invalid='ignore'):
             points = points / r * self._convert_radius_inverse(r)
@@ -166,6 +168,8 @@ class BrownLensDistortion(LensDistortion):
         points = (np.array(points)-self.offset)/self.scale
         # calculate the radius form the center
         r = np.linalg.norm(points, axis=-1)[..., None]
+        # the center itself is not shifted (prevent 0/0)
+        r[r == 0] = 1
         # transform the points
         with np.errstate(divide='ignore', invalid='ignore'):
             points = points / r * self._convert_radius(r)
@@ -248,6 +252,8 @@ class ABCDistortion(LensDistortion):
         points = (np.array(points)-self.offset)/self.scale
         # calculate the radius form the center
         r = np.linalg.norm(points, axis=-1)[..., None]
+        # the center itself is not shifted (prevent 0/0)
+        r[r == 0] = 1
         # transform the points
         with np.errstate(divide='ignore', invalid='ignore'):
             points = points / r * self._convert_radius_inverse(r)
@@ -260,6 +266,8 @@ class ABCDistortion(LensDistortion):
         points = (np.array(points)-self.offset)/self.scale
         # calculate the radius form the center
         r = np.linalg.norm(points, axis=-1)[..., None]
+        # the center itself is not shifted (prevent 0/0)
+        r[r == 0] = 1
         # transform the points
         with np.errstate(divide='ignore', invalid='ignore'):
             points = points / r * self._convert_radius(r)
-- 
2.43.0


From 867235cb69bcc2948379b1530841e158a7f04d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:54 +0000
Subject: [PATCH 08/39] fix: image size of a projection defined by a field of
 view can be changed

---
 cameratransform/projection.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cameratransform/projection.py b/cameratransform/projection.py
index 6921f69..f7a9234 100644
--- a/cameratransform/projection.py
+++ b/cameratransform/projection.py
@@ -157,6 +157,9 @@ class CameraProjection(ClassWithParameterSet):
                 focallength_y_px = self.focallengthFromFOV(view_y=view_y_deg)
                 if not view_x_deg:
                     focallength_x_px = focallength_y_px
+            # remove the temporary attributes, they would hide the parameters
+            del self.image_width_px
+            del self.image_height_px
 
         if focallength_x_px is None or focallength_y_px is None:
             raise ValueError("Either provide a focal length or a field of view angle.")
-- 
2.43.0


From de0f1b923a6ef1aaf30f08b63871b9161c20fea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:54 +0000
Subject: [PATCH 09/39] fix: accept the documented tuple (x, y) for
 focallength_px

---
 cameratransform/projection.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cameratransform/projection.py b/cameratransform/projection.py
index f7a9234..31c22da 100644
--- a/cameratransform/projection.py
+++ b/cameratransform/projection.py
@@ -124,8 +124,11 @@ class CameraProjection(ClassWithParameterSet):
             if focallength_mm is not None:
                 raise ValueError("cannot provide both an focallength_mm and a focallength in px")
             if focallength_px:
-                focallength_x_px = focallength_px
-                focallength_y_px = focallength_px
+                try:
+                    focallength_x_px, focallength_y_px = focallength_px
+                except TypeError:
+                    focallength_x_px = focallength_px
+                    focallength_y_px = focallength_px
 
         if sensor and (sensor_width_mm or sensor_height_mm):
             raise ValueError("cannot provide both an sensor shape tuple and sensor_width_mm or sensor_height_mm")
-- 
2.43.0


From fea7b562b32cd9f47bb5323540c826b2f0f5321f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:54 +0000
Subject: [PATCH 10/39] fix: metropolis uses the step sizes of the additional
 parameters

---
 cameratransform/parameter_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cameratransform/parameter_set.py b/cameratransform/parameter_set.py
index 45d9283..03dface 100644
--- a/cameratransform/parameter_set.py
+++ b/cameratransform/parameter_set.py
@@ -297,7 +297,7 @@ class ClassWithParameterSet(object):
             start.append(param.value[()])
             ranges.append([param.parents.get("lower"), param.parents.get("upper")])
         start = np.array(start)
-        step = step*np.array([p.step for p in parameter])
+        step = step*np.array([p.step for p in list(parameter)+self.additional_parameters])
 
         def getLogProb(position):
             self.parameters.set_fit_parameters(parameter_names, position[:len(parameter_names)])
-- 
2.43.0


From 9af141c6cba1a0baab26afdd81132d8c97c3817e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:54 +0000
Subject: [PATCH 11/39] fix: metropolis proposals stay within the ranges when
 the step size has been adapted

---
 cameratransform/statistic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cameratransform/statistic.py b/cameratransform/statistic.py
index 6904ee5..a3134af 100644
--- a/cameratransform/statistic.py
+++ b/cameratransform/statistic.py
@@ -105,7 +105,8 @@ def metropolis(getLogProb, start, step=1, iterations=1e5, burn=0.1, prior_trace=
 
             # draw a new position
             # next_pos = last_pos + np.random.normal(0, step*adaptive_scale_factor, N)
-            next_pos = last_pos + adaptive_scale_factor*step*truncnorm((ranges[:,0]-last_pos)/step, (ranges[:,1]-last_pos)/step).rvs()
+            scaled_step = adaptive_scale_factor*step
+            next_pos = last_pos + scaled_step*truncnorm((ranges[:,0]-last_pos)/scaled_step, (ranges[:,1]-last_pos)/scaled_step).rvs()
             # get the probability
             next_prob = getLogProb(list(next_pos) + next_prior_trace)
             # calculate the acceptance ratio
-- 
2.43.0


From 2e96288272204179218309fd66b49caab3b3898d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:54 +0000
Subject: [PATCH 12/39] fix: sample and set_to_mean do not reset the individual
 focal lengths

---
 cameratransform/parameter_set.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cameratransform/parameter_set.py b/cameratransform/parameter_set.py
index 03dface..b2ff099 100644
--- a/cameratransform/parameter_set.py
+++ b/cameratransform/parameter_set.py
@@ -189,7 +189,7 @@ class ClassWithParameterSet(object):
             callbacks = set()
             for name, parameter_obj in self.parameters.parameters.items():
                 parameter_obj.sample()
-                if parameter_obj.callback is not None:
+                if parameter_obj.mean is not None and parameter_obj.callback is not None:
                     callbacks.add(parameter_obj.callback)
             for call in callbacks:
                 call()
@@ -207,7 +207,7 @@ class ClassWithParameterSet(object):
             callbacks = set()
             for name, parameter_obj in self.parameters.parameters.items():
                 parameter_obj.set_to_mean()
-                if parameter_obj.callback is not None:
+                if parameter_obj.mean is not None and parameter_obj.callback is not None:
                     callbacks.add(parameter_obj.callback)
             for call in callbacks:
                 call()
-- 
2.43.0


From 211e63e3ca549fc398aedb5225b750cf9213f3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:54 +0000
Subject: [PATCH 13/39] fix: Parameter stores an explicitly given state

---
 cameratransform/parameter_set.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cameratransform/parameter_set.py b/cameratransform/parameter_set.py
index b2ff099..32fae2e 100644
--- a/cameratransform/parameter_set.py
+++ b/cameratransform/parameter_set.py
@@ -55,6 +55,8 @@ class Parameter(object):
                 self.state = STATE_DEFAULT
             else:
                 self.state = STATE_USER_SET
+        else:
+            self.state = state
         self.type = type
         self.callback = callback
 
-- 
2.43.0


From 6204bef314b3514b25d96e3335b77a5686285217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:54 +0000
Subject: [PATCH 14/39] fix: FitParameter with a custom distribution can be
 used for fitting

---
 cameratransform/statistic.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cameratransform/statistic.py b/cameratransform/statistic.py
index a3134af..a529d32 100644
--- a/cameratransform/statistic.py
+++ b/cameratransform/statistic.py
@@ -272,6 +272,7 @@ class FitParameter:
     def __init__(self, name, distribution=None, lower=None, upper=None, step=1, value=None, mean=None, std=None):
         self.__name__ = name
         if distribution is not None:
+            self.parents = dict()
             self.distribution = distribution
         elif lower is not None and upper is not None:
             self.parents = dict(lower=lower, upper=upper)
-- 
2.43.0


From 0b56a938a7c90b39bbe596c10a9bf5ba8a9dac7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:54 +0000
Subject: [PATCH 15/39] fix: Camera.load restores a yaw-pitch-roll orientation

---
 cameratransform/camera.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index b5d4765..1c45cfe 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -26,7 +26,7 @@ from typing import Union, Optional, Tuple, List
 from numbers import Number
 from .parameter_set import ParameterSet, ClassWithParameterSet, Parameter, TYPE_GPS
 from .projection import RectilinearProjection, EquirectangularProjection, CylindricalProjection, CameraProjection
-from .spatial import SpatialOrientation
+from .spatial import SpatialOrientation, SpatialOrientationYawPitchRoll
 from .lens_distortion import NoDistortion, LensDistortion, ABCDistortion, BrownLensDistortion
 from . import gps
 from . import ray
@@ -1582,7 +1582,11 @@ class Camera(ClassWithParameterSet):
             variables.pop("lens")
         else:
             lens = None
-        self.__init__(projection=projection, lens=lens, orientation=SpatialOrientation())
+        if "yaw_deg" in variables.keys():
+            orientation = SpatialOrientationYawPitchRoll()
+        else:
+            orientation = SpatialOrientation()
+        self.__init__(projection=projection, lens=lens, orientation=orientation)
         for key in variables:
             setattr(self, key, variables[key])
 
-- 
2.43.0


From c6b4e1b10c2375e9217268e5d8c36f01a8cb238b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:54 +0000
Subject: [PATCH 16/39] fix: setGPSpos keeps the given elevation when the
 position is a tuple without height

---
 cameratransform/camera.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index 1c45cfe..dbaa190 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -503,7 +503,9 @@ class Camera(ClassWithParameterSet):
         else:
             # if it is a tuple
             try:
-                lat, lon, elevation = gps.splitGPS(lat, keep_deg=True)
+                lat, lon, height = gps.splitGPS(lat, keep_deg=True)
+                if height is not None:
+                    elevation = height
             # or if it is just a single value
             except (AttributeError, Exception):
                 pass
-- 
2.43.0


From a86762ad25ebcbe1f677263b1a12a80ebefdf653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:54 +0000
Subject: [PATCH 17/39] fix: getCameraParametersFromExif works with
 sensor_from_database=False

---
 cameratransform/camera.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index dbaa190..7831fd6 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -153,6 +153,7 @@ def getCameraParametersFromExif(filename: str, verbose: bool = False, sensor_fro
     # get the focal length
     f = exif["FocalLength"][0] / exif["FocalLength"][1]
     # get the sensor size, either from a database
+    sensor_size = None
     if sensor_from_database:
         sensor_size = _getSensorFromDatabase(exif["Model"])
     # or from the exif information
-- 
2.43.0


From af719b217911eb343c3b694e0d95ba05c991d6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:54 +0000
Subject: [PATCH 18/39] fix: object height and length information accept an
 array of variations

---
 cameratransform/camera.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index 7831fd6..d1213e3 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -536,7 +536,7 @@ class Camera(ClassWithParameterSet):
             when true, the information will be ignored for fitting and only be used to plot.
         """
         if not only_plot:
-            if not isinstance(variation, (float, int)):
+            if not isinstance(variation, (Number, list, tuple, np.ndarray)):
                 self.additional_parameters += [variation]
                 def heigthInformation(points_feet=points_feet, points_head=points_head, height=height,
                                       variation=variation):
@@ -604,7 +604,7 @@ class Camera(ClassWithParameterSet):
             when true, the information will be ignored for fitting and only be used to plot.
         """
         if not only_plot:
-            if not isinstance(variation, (float, int)):
+            if not isinstance(variation, (Number, list, tuple, np.ndarray)):
                 self.additional_parameters += [variation]
 
                 def lengthInformation(points_front=points_front, points_back=points_back, length=length,
-- 
2.43.0


From 33d243aea7d057b7f0991253c46fadfcadaf0201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:54 +0000
Subject: [PATCH 19/39] fix: intersectionOfTwoLines always returns an array

---
 cameratransform/ray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cameratransform/ray.py b/cameratransform/ray.py
index 078dfee..14533e9 100644
--- a/cameratransform/ray.py
+++ b/cameratransform/ray.py
@@ -136,7 +136,7 @@ def intersectionOfTwoLines(p1, v1, p2, v2):
             res = np.linalg.solve(np.array([[a1, b1], [a2, b2]]).transpose(2, 0, 1), np.array([c1, c2]).T[..., None])
             return np.mean([p1 + res[:, 0, 0, None] * v1, p2 + res[:, 1, 0, None] * v2], axis=0)
         except np.linalg.LinAlgError:
-            return [__intersectionOfTwoLines(p1, v1[i], p2, v2[i]) for i in range(len(v1))]
+            return np.array([__intersectionOfTwoLines(p1, v1[i], p2, v2[i]) for i in range(len(v1))])
     else:  # or just one point
         return __intersectionOfTwoLines(p1, v1, p2, v2)
 
-- 
2.43.0


From 8974d51129e812598c59d86d6d42b7f3934b6504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:54 +0000
Subject: [PATCH 20/39] fix: the two triangles of an extruded line segment
 cover the whole wall

---
 cameratransform/ray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cameratransform/ray.py b/cameratransform/ray.py
index 14533e9..f8f597b 100644
--- a/cameratransform/ray.py
+++ b/cameratransform/ray.py
@@ -296,7 +296,7 @@ def extrudeLine(points, z0, z1):
         point = list(point)
         if last_point is not None:
             mesh.append([point + [z0], last_point + [z0], point + [z1]])
-            mesh.append([point + [z0], last_point + [z0], last_point + [z1]])
+            mesh.append([point + [z1], last_point + [z0], last_point + [z1]])
         last_point = point
     return np.array(mesh)
 
-- 
2.43.0


From 0e590c9df0bde3d6116de04734635f27450ec361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:54 +0000
Subject: [PATCH 21/39] fix: areaOfTriangle and distanceLinePoint treat the
 elements of a batch separately

---
 cameratransform/ray.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cameratransform/ray.py b/cameratransform/ray.py
index f8f597b..84d4e71 100644
--- a/cameratransform/ray.py
+++ b/cameratransform/ray.py
@@ -100,7 +100,7 @@ def ray_intersect_triangle(origin, direction, triangle, use_planes=False):
 
 
 def distanceLinePoint(p1, v1, p2):
-    return np.linalg.norm(np.cross(v1, p1-p2)) / np.linalg.norm(v1)
+    return np.linalg.norm(np.cross(v1, p1-p2), axis=-1) / np.linalg.norm(v1, axis=-1)
 
 
 def intersectionOfTwoLines(p1, v1, p2, v2):
@@ -245,9 +245,9 @@ def areaOfTriangle(triangle):
     area : float
         the area of the triangle.
     """
-    a = np.linalg.norm(triangle[..., 0, :] - triangle[..., 1, :])
-    b = np.linalg.norm(triangle[..., 1, :] - triangle[..., 2, :])
-    c = np.linalg.norm(triangle[..., 2, :] - triangle[..., 0, :])
+    a = np.linalg.norm(triangle[..., 0, :] - triangle[..., 1, :], axis=-1)
+    b = np.linalg.norm(triangle[..., 1, :] - triangle[..., 2, :], axis=-1)
+    c = np.linalg.norm(triangle[..., 2, :] - triangle[..., 0, :], axis=-1)
     s = (a+b+c)/2
     # Herons formula
     return np.sqrt(s*(s-a)*(s-b)*(s-c))
-- 
2.43.0


From 396a70a19f7df2b2e9794ccf96346adb9135d224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:37 +0000
Subject: [PATCH 22/39] fix: cached top view and undistort maps are
 recalculated when the camera changed

---
 cameratransform/camera.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index d1213e3..1c00e37 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -435,10 +435,12 @@ class Camera(ClassWithParameterSet):
     map = None
     last_extent = None
     last_scaling = None
+    last_map_state = None
 
     map_undistort = None
     last_extent_undistort = None
     last_scaling_undistort = None
+    last_map_state_undistort = None
 
     R_earth = 6371e3
 
@@ -1280,6 +1282,10 @@ class Camera(ClassWithParameterSet):
         # the z difference between these two points
         return np.linalg.norm(point3D_front - point3D_back, axis=-1)
 
+    def _getMapState(self, *args):
+        # everything, apart from extent and scaling, the cached maps depend on
+        return list(args) + [getattr(self.parameters, name) for name in self.parameters.parameters]
+
     def _getUndistortMap(self, extent=None, scaling=None):
         # if no extent is given, take the maximum extent from the image border
         if extent is None:
@@ -1290,9 +1296,11 @@ class Camera(ClassWithParameterSet):
             scaling = 1
 
         # if we have cached the map, use the cached map
+        state = self._getMapState()
         if self.map_undistort is not None and \
-                self.last_extent_undistort == extent and \
-                self.last_scaling_undistort == scaling:
+                self.last_extent_undistort == list(extent) and \
+                self.last_scaling_undistort == scaling and \
+                self.last_map_state_undistort == state:
             return self.map_undistort
 
         # get a mesh grid
@@ -1308,8 +1316,9 @@ class Camera(ClassWithParameterSet):
         # reshape the map and cache it
         self.map_undistort = mesh_points_shape.T.reshape(mesh.shape).astype(np.float32)[:, ::-1, :]
 
-        self.last_extent_undistort = extent
+        self.last_extent_undistort = list(extent)
         self.last_scaling_undistort = scaling
+        self.last_map_state_undistort = state
 
         # return the calculated map
         return self.map_undistort
@@ -1373,9 +1382,11 @@ class Camera(ClassWithParameterSet):
                       np.nanmin(border[:, 1]), np.nanmax(border[:, 1])]
 
         # if we have cached the map, use the cached map
+        state = self._getMapState(Z, hide_backpoints)
         if self.map is not None and \
                 all(self.last_extent == np.array(extent)) and \
-                (self.last_scaling == scaling):
+                (self.last_scaling == scaling) and \
+                self.last_map_state == state:
             return self.map
 
         # if no scaling is given, scale so that the resulting image has an equal amount of pixels as the original image
@@ -1397,8 +1408,9 @@ class Camera(ClassWithParameterSet):
         # reshape the map and cache it
         self.map = mesh_points_shape.T.reshape(mesh.shape).astype(np.float32)[:, ::-1, :]
 
-        self.last_extent = extent
+        self.last_extent = list(extent)
         self.last_scaling = scaling
+        self.last_map_state = state
 
         # return the calculated map
         return self.map
-- 
2.43.0


From ef962db1da9419f35a25d58e12c583525be7dcfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:37 +0000
Subject: [PATCH 23/39] fix: the default extent of the top view is given in
 meters

---
 cameratransform/camera.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index 1c00e37..d0d945d 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -1377,7 +1377,7 @@ class Camera(ClassWithParameterSet):
     def _getMap(self, extent=None, scaling=None, Z=0, hide_backpoints=True):
         # if no extent is given, take the maximum extent from the image border
         if extent is None:
-            border = self.getImageBorder()
+            border = self.spaceFromImage(self.getImageBorder(), Z=Z)
             extent = [np.nanmin(border[:, 0]), np.nanmax(border[:, 0]),
                       np.nanmin(border[:, 1]), np.nanmax(border[:, 1])]
 
-- 
2.43.0


From 883e5de2f81b4c2a309c5e333c37422403a73e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:10 +0000
Subject: [PATCH 24/39] =?UTF-8?q?fix:=20gpsFromString=20reads=20the=20docu?=
 =?UTF-8?q?mented=20minute=20sign=20(=E2=80=99)?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 cameratransform/gps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cameratransform/gps.py b/cameratransform/gps.py
index f1d832b..ca0205d 100644
--- a/cameratransform/gps.py
+++ b/cameratransform/gps.py
@@ -252,8 +252,8 @@ def gpsFromString(gps_string: Union[str, List[str], List[Tuple[str, float]]], he
             return data
         else:
             return np.hstack((data, [height]))
-    regex_list = [r"(?P<deg>[\d+-]+)°\s*(?P<min>\d+)('|′|´|′)\s*(?P<sec>[\d.]+)(''|\"| |´´|″)\s*",
-                  r"(?P<deg>[\d+-]+)°\s*(?P<min>[\d.]+)('|′|´|′)?\s*",
+    regex_list = [r"(?P<deg>[\d+-]+)°\s*(?P<min>\d+)('|′|´|’)\s*(?P<sec>[\d.]+)(''|\"| |´´|″)\s*",
+                  r"(?P<deg>[\d+-]+)°\s*(?P<min>[\d.]+)('|′|´|’)?\s*",
                   r"(?P<deg>[\d.+-]+)°\s*"]
     for string in regex_list:
         pattern = r"\s*"+string.replace("<", "<lat_")+"(?P<lat_sign>N|S)?"+r"\s*,?\s*"+string.replace("<", "<lon_")+"(?P<lon_sign>W|E)?"+r"\s*"
-- 
2.43.0


From e5e19c2aeb72a68d43f7803dc2bde8b7de3c8076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:44 +0000
Subject: [PATCH 25/39] fix: formatGPS keeps the sign of values between -1 and
 0 degrees

---
 cameratransform/gps.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cameratransform/gps.py b/cameratransform/gps.py
index ca0205d..abdeeeb 100644
--- a/cameratransform/gps.py
+++ b/cameratransform/gps.py
@@ -145,8 +145,13 @@ def formatGPS(lat, lon, format=None, asLatex=False):
             # one of the values
             else:
                 fills.append(values.pop(0))
+        # %d has no negative zero, keep the sign of values between -1 and 0
+        signed_format = format
+        if not use_letter and -1 < degs <= 0 and neg and fmt_degs[-1] == "d":
+            signed_format = format.replace(fmt_degs, "-0".rjust(len(fmt_degs % 0)), 1)
+            fills = fills[1:]
         # format the string
-        string = format % tuple(fills)
+        string = signed_format % tuple(fills)
         # replace, if desired the degree sign
         if asLatex:
             string = string.replace("°", "\N{DEGREE SIGN}")
-- 
2.43.0


From 6b919b1472fcee55aefbb6190618af394e14ef23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:52 +0000
Subject: [PATCH 26/39] fix: lenses of cameras sharing a projection all follow
 its parameters

---
 cameratransform/lens_distortion.py | 31 ++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/cameratransform/lens_distortion.py b/cameratransform/lens_distortion.py
index bb18a4f..86b4894 100644
--- a/cameratransform/lens_distortion.py
+++ b/cameratransform/lens_distortion.py
@@ -141,9 +141,19 @@ class BrownLensDistortion(LensDistortion):
     def _init_inverse(self):
         r = np.arange(0, 2, 0.1)
         self._convert_radius_inverse = invert_function(r, self._convert_radius)
-        if self.projection is not None:
-            self.scale = np.array([self.projection.focallength_x_px, self.projection.focallength_y_px])
-            self.offset = np.array([self.projection.center_x_px, self.projection.center_y_px])
+
+    @property
+    def scale(self):
+        # taken from the projection when used, as several lenses can share one projection
+        if self.projection is None:
+            return 1
+        return np.array([self.projection.focallength_x_px, self.projection.focallength_y_px])
+
+    @property
+    def offset(self):
+        if self.projection is None:
+            return np.array([0, 0])
+        return np.array([self.projection.center_x_px, self.projection.center_y_px])
 
     def _convert_radius(self, r):
         return r*(1 + self.parameters.k1*r**2 + self.parameters.k2*r**4 + self.parameters.k3*r**6)
@@ -239,9 +249,18 @@ class ABCDistortion(LensDistortion):
         r = np.arange(0, 2, 0.1)
         self._convert_radius_inverse = invert_function(r, self._convert_radius)
 
-        if self.projection is not None:
-            self.scale = np.min([self.projection.image_width_px, self.projection.image_height_px]) / 2
-            self.offset = np.array([self.projection.center_x_px, self.projection.center_y_px])
+    @property
+    def scale(self):
+        # taken from the projection when used, as several lenses can share one projection
+        if self.projection is None:
+            return 1
+        return np.min([self.projection.image_width_px, self.projection.image_height_px]) / 2
+
+    @property
+    def offset(self):
+        if self.projection is None:
+            return np.array([0, 0])
+        return np.array([self.projection.center_x_px, self.projection.center_y_px])
 
     def _convert_radius(self, r):
         return self.d * r + self.c * r**2 + self.b * r**3 + self.a * r**4
-- 
2.43.0


From d5b45ef5b8c2ff1cdae64dba52b7b72f1ff5c574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:16 +0000
Subject: [PATCH 27/39] fix: getCameraParametersFromExif failed with the
 rationals of the required pillow version

---
 cameratransform/camera.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index d0d945d..305881c 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -151,7 +151,7 @@ def getCameraParametersFromExif(filename: str, verbose: bool = False, sensor_fro
     # read the exif information of the file
     exif = get_exif(filename)
     # get the focal length
-    f = exif["FocalLength"][0] / exif["FocalLength"][1]
+    f = float(exif["FocalLength"])
     # get the sensor size, either from a database
     sensor_size = None
     if sensor_from_database:
@@ -159,8 +159,8 @@ def getCameraParametersFromExif(filename: str, verbose: bool = False, sensor_fro
     # or from the exif information
     if not sensor_size or sensor_size is None:
         sensor_size = (
-            exif["ExifImageWidth"] / (exif["FocalPlaneXResolution"][0] / exif["FocalPlaneXResolution"][1]) * 25.4,
-            exif["ExifImageHeight"] / (exif["FocalPlaneYResolution"][0] / exif["FocalPlaneYResolution"][1]) * 25.4)
+            exif["ExifImageWidth"] / float(exif["FocalPlaneXResolution"]) * 25.4,
+            exif["ExifImageHeight"] / float(exif["FocalPlaneYResolution"]) * 25.4)
     # get the image size
     image_size = (exif["ExifImageWidth"], exif["ExifImageHeight"])
     # print the output if desired
-- 
2.43.0


From f4768f143d369765fa29c3d5dd6c2f9c2dbaa155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:18 +0000
Subject: [PATCH 28/39] fix: getCameraParametersFromExif ignored the unit of
 the focal plane resolution

---
 cameratransform/camera.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index 305881c..b76a43d 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -158,9 +158,11 @@ def getCameraParametersFromExif(filename: str, verbose: bool = False, sensor_fro
         sensor_size = _getSensorFromDatabase(exif["Model"])
     # or from the exif information
     if not sensor_size or sensor_size is None:
+        # the unit of the resolution is inch (2, default) or centimeter (3)
+        unit = 10. if exif.get("FocalPlaneResolutionUnit") == 3 else 25.4
         sensor_size = (
-            exif["ExifImageWidth"] / float(exif["FocalPlaneXResolution"]) * 25.4,
-            exif["ExifImageHeight"] / float(exif["FocalPlaneYResolution"]) * 25.4)
+            exif["ExifImageWidth"] / float(exif["FocalPlaneXResolution"]) * unit,
+            exif["ExifImageHeight"] / float(exif["FocalPlaneYResolution"]) * unit)
     # get the image size
     image_size = (exif["ExifImageWidth"], exif["ExifImageHeight"])
     # print the output if desired
-- 
2.43.0


From cb2e362cd8f060b17756fd079db847bac69710a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:20 +0000
Subject: [PATCH 29/39] fix: a failed download left an empty sensor database
 behind

---
 cameratransform/camera.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index b76a43d..030513c 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -72,9 +72,10 @@ def _getSensorFromDatabase(model: str) -> Optional[Tuple[float, float]]:
     database_filename = "sensor_database_detailed.csv"
     # download the database if it is not there
     if not os.path.exists(database_filename):
+        print("Downloading database from:", url)
+        r = requests.get(url)
+        r.raise_for_status()
         with open(database_filename, "w") as fp:
-            print("Downloading database from:", url)
-            r = requests.get(url)
             fp.write(r.text)
     # load the database
     with open(database_filename, "r") as fp:
-- 
2.43.0


From 1ab580e13f7480383443a74f5604ae0316779eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:51 +0000
Subject: [PATCH 30/39] fix: getObjectHeight gave nan for objects whose viewing
 ray is parallel to the X or Y plane (image centre at heading 0)

---
 cameratransform/camera.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index 030513c..0d0e77a 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -1254,9 +1254,11 @@ class Camera(ClassWithParameterSet):
         # get the head positions in the world
         point3D_head1 = self.spaceFromImage(point_heads, Y=point3D_feet[..., 1])
         point3D_head2 = self.spaceFromImage(point_heads, X=point3D_feet[..., 0])
-        point3D_head = np.mean([point3D_head1, point3D_head2], axis=0)
+        z1, z2 = point3D_head1[..., 2], point3D_head2[..., 2]
+        # use the mean of both, if a ray is parallel to one of the constraint planes only the other one
+        z_head = np.where(np.isfinite(z1), np.where(np.isfinite(z2), (z1 + z2) / 2, z1), z2)
         # the z difference between these two points
-        return point3D_head[..., 2] - point3D_feet[..., 2]
+        return z_head - point3D_feet[..., 2]
 
     def getObjectLength(self, point_front: Points2D, point_back: Points2D, Z: Points1D = 0) -> Points1D:
         """
-- 
2.43.0


From 8d4597797624024a47bef7487008ca823c985e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:22 +0000
Subject: [PATCH 31/39] fix: setCameraParametersByPointCorrespondence placed
 the second camera with mirrored position and heading

---
 cameratransform/camera.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index 0d0e77a..a4f1d24 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -313,18 +313,22 @@ class CameraGroup(ClassWithParameterSet):
         cam1.roll_deg = 0
 
         def rotationToEuler(R):
-            alpha = np.rad2deg(np.arctan2(R[0, 2], -R[1, 2]))
-            beta = np.rad2deg(np.arccos(R[2, 2]))
-            gamma = np.rad2deg(np.arctan2(R[2, 0], R[2, 1]))
-            return np.array([180 + alpha, beta, 180 + gamma])
+            alpha = np.rad2deg(np.arctan2(R[2, 0], R[2, 1]))
+            beta = np.rad2deg(np.arccos(np.clip(R[2, 2], -1, 1)))
+            # the horizontal axis of the tilt, the remaining rotation in the image plane is the roll
+            axis = np.dot(R, [-np.cos(np.deg2rad(alpha)), np.sin(np.deg2rad(alpha)), 0])
+            gamma = np.rad2deg(np.arctan2(axis[1], axis[0]))
+            return np.array([gamma, beta, 180 - alpha])
 
         roll, tilt, heading = rotationToEuler(rot)
+        # the position of the second camera, y points down in the image and z in the viewing direction of the first camera
+        x, y, z = -np.dot(rot.T, t)[:, 0]*baseline
         data = dict(roll_deg=roll,
                     tilt_deg=tilt,
                     heading_deg=heading,
-                    pos_x_m=cam1.pos_x_m + t[0, 0]*baseline,
-                    pos_y_m=cam1.pos_y_m + t[1, 0]*baseline,
-                    elevation_m=cam1.elevation_m + t[2, 0]*baseline)
+                    pos_x_m=cam1.pos_x_m + x,
+                    pos_y_m=cam1.pos_y_m - y,
+                    elevation_m=cam1.elevation_m - z)
         print(data)
         cam2.parameters.set_fit_parameters(data.keys(), data.values())
 
-- 
2.43.0


From a9b16936b91a50121cf00d72b404dbcd7cde122f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:24 +0000
Subject: [PATCH 32/39] fix: plotFitInformation failed for object lengths given
 per object

---
 cameratransform/camera.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index a4f1d24..dc5b8ea 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -648,7 +648,7 @@ class Camera(ClassWithParameterSet):
             point3D_back = self.spaceFromImage(points_back, Z=Z)
             difference = point3D_back - point3D_front
             difference /= np.linalg.norm(difference, axis=-1)[..., None]
-            predicted_back = point3D_front + difference * length
+            predicted_back = point3D_front + difference * np.array(length)[..., None]
             projected_back = self.imageFromSpace(predicted_back)
 
             plt.scatter(projected_back[..., 0], projected_back[..., 1], label="back", facecolors='none',
-- 
2.43.0


From acbd8795534f08d67801afb64fffb2c2272435f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:35 +0000
Subject: [PATCH 33/39] fix: printTraceSummary failed for parameters that did
 not vary

---
 cameratransform/statistic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cameratransform/statistic.py b/cameratransform/statistic.py
index a529d32..76b85c9 100644
--- a/cameratransform/statistic.py
+++ b/cameratransform/statistic.py
@@ -25,6 +25,8 @@ import tqdm
 from scipy.stats import truncnorm
 
 def print_mean_std(x, y):
+    if y == 0:
+        return str(x) + "±" + str(y)
     digits = -int(floor(log10(abs(y))))
     return str(round(x, digits)) + "±" + str(round(y, 1+digits))
 
-- 
2.43.0


From 6dd2d7652a1fa0285f857ed3bb8d94fcfd670f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:45 +0000
Subject: [PATCH 34/39] fix: plotEpilines failed for epipolar lines outside of
 the image

---
 cameratransform/camera.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index dc5b8ea..68b23ec 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -373,7 +373,7 @@ class CameraGroup(ClassWithParameterSet):
 
             for point, line in zip(points, lines):
                 line = drawLine(line, 0, camA.image_width_px, 0, camA.image_height_px)
-                plt.plot(point[0], point[1], "o", color=line.get_color())
+                plt.plot(point[0], point[1], "o", color=None if line is None else line.get_color())
 
             p = camA.imageFromSpace(camB.getPos())
             print("p", p)
-- 
2.43.0


From fd37722dbad6a6aebe6d9305a439ef6f18b9527f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:05 +0000
Subject: [PATCH 35/39] fix: sample failed for traces whose first samples were
 dropped

---
 cameratransform/parameter_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cameratransform/parameter_set.py b/cameratransform/parameter_set.py
index 32fae2e..c0d8a66 100644
--- a/cameratransform/parameter_set.py
+++ b/cameratransform/parameter_set.py
@@ -182,7 +182,7 @@ class ClassWithParameterSet(object):
 
     def sample(self):
         if self.parameters.trace is not None:
-            parameter_set = dict(self.parameters.trace.loc[np.random.randint(len(self.parameters.trace))])
+            parameter_set = dict(self.parameters.trace.iloc[np.random.randint(len(self.parameters.trace))])
             prob = parameter_set["probability"]
             del parameter_set["probability"]
             self.parameters.set_fit_parameters(parameter_set.keys(), parameter_set.values())
-- 
2.43.0


From 7f51e8374d18aaa15019438ab65745efa2b2005d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:05 +0000
Subject: [PATCH 36/39] fix: metropolis failed for prior traces whose first
 samples were dropped

---
 cameratransform/statistic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cameratransform/statistic.py b/cameratransform/statistic.py
index 76b85c9..4e6c7e1 100644
--- a/cameratransform/statistic.py
+++ b/cameratransform/statistic.py
@@ -90,7 +90,7 @@ def metropolis(getLogProb, start, step=1, iterations=1e5, burn=0.1, prior_trace=
     tuning = True
 
     if prior_trace is not None:
-        next_prior_trace = list(prior_trace.loc[np.random.randint(len(prior_trace))])[:-1]
+        next_prior_trace = list(prior_trace.iloc[np.random.randint(len(prior_trace))])[:-1]
     else:
         next_prior_trace = []
 
@@ -101,7 +101,7 @@ def metropolis(getLogProb, start, step=1, iterations=1e5, burn=0.1, prior_trace=
     with tqdm.trange(int(iterations), disable=disable_bar) as t:
         for i in t:
             if prior_trace is not None:
-                next_prior_trace = list(prior_trace.loc[np.random.randint(len(prior_trace))])[:-1]
+                next_prior_trace = list(prior_trace.iloc[np.random.randint(len(prior_trace))])[:-1]
             else:
                 next_prior_trace = []
 
-- 
2.43.0


From 11d31babe224f6dfbb5d790e25a902058dbc8fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:05 +0000
Subject: [PATCH 37/39] fix: plotTrace failed for traces without probability
 whose first samples were dropped

---
 cameratransform/statistic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cameratransform/statistic.py b/cameratransform/statistic.py
index 4e6c7e1..8c62b0a 100644
--- a/cameratransform/statistic.py
+++ b/cameratransform/statistic.py
@@ -192,7 +192,7 @@ def plotTrace(trace, N=None, show_mean_median=True, axes=None, just_distribution
     try:
         most_probable_index = trace["probability"].idxmax()
     except KeyError:
-        most_probable_index = 0
+        most_probable_index = trace.index[0]
 
     columns = [col for col in trace.columns if col != "probability"]
     if N is None:
-- 
2.43.0


From 097b9060d2a1c12b910e6ae4fb7199d578af6236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:05 +0000
Subject: [PATCH 38/39] fix: spaceFromImage misread grids of image points

---
 cameratransform/camera.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index 68b23ec..bf7dc11 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -1163,7 +1163,7 @@ class Camera(ClassWithParameterSet):
             points = direction * factor + offset
         else:
             # apply the factor to the direction vector plus the offset
-            points = direction * factor[:, None] + offset[None, :]
+            points = direction * factor[..., None] + offset
         # ignore points that are behind the camera (e.g. trying to project points above the horizon to the ground)
         points[factor < 0] = np.nan
         return points
-- 
2.43.0


From ba2657b0719e79eea3d6253c2b3969b69b315be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:44 +0000
Subject: [PATCH 39/39] fix: gpsFromString failed for a list of texts with a
 height

---
 cameratransform/gps.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cameratransform/gps.py b/cameratransform/gps.py
index abdeeeb..5b06d32 100644
--- a/cameratransform/gps.py
+++ b/cameratransform/gps.py
@@ -255,6 +255,9 @@ def gpsFromString(gps_string: Union[str, List[str], List[Tuple[str, float]]], he
         # and optionally add a height
         if height is None:
             return data
+        # the coordinates of multiple points
+        elif len(data.shape) == 2:
+            return np.column_stack((data, np.multiply(height, np.ones(len(data)))))
         else:
             return np.hstack((data, [height]))
     regex_list = [r"(?P<deg>[\d+-]+)°\s*(?P<min>\d+)('|′|´|’)\s*(?P<sec>[\d.]+)(''|\"| |´´|″)\s*",
-- 
2.43.0

