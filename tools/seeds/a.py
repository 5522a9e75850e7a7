HEAD = """import numpy as np, sys
import cameratransform as ct
def close(a, b, tol=1e-6):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape or not np.allclose(a, b, rtol=tol, atol=tol, equal_nan=True):
        print("got", a, "expected", b); sys.exit(1)
"""
PR = "cameratransform/projection.py"
CA = "cameratransform/camera.py"
SP = "cameratransform/spatial.py"
LE = "cameratransform/lens_distortion.py"
SEEDS = [
 dict(id="s01-equirect-ray-fx", property="C01", needs="an equirectangular projection with different focal lengths in x and y",
      what="the viewing ray uses the horizontal focal length for the vertical angle, so pixel -> ray -> pixel is not the identity",
      edits=[[PR, "np.tan((y0 - self.center_y_px) / self.focallength_y_px)", "np.tan((y0 - self.center_y_px) / self.focallength_x_px)"]],
      demo=HEAD + """p = ct.EquirectangularProjection(focallength_x_px=2000, focallength_y_px=2300, image=(3000, 2000), center=(1400, 1100))
px = np.array([[1000., 700.], [2000., 1500.]])
close(p.imageFromCamera(p.getRay(px)), px)
"""),
 dict(id="s02-fov-inverse-y", property="C03", needs="a cylindrical projection with fx != fy, vertical field of view",
      what="the image height computed from a vertical view uses the horizontal focal length",
      edits=[[PR, "            return self.focallength_x_px * np.deg2rad(view_x)\n        else:\n            # image_height_px\n            return self.focallength_y_px * (2 * np.tan(np.deg2rad(view_y) / 2))",
              "            return self.focallength_x_px * np.deg2rad(view_x)\n        else:\n            # image_height_px\n            return self.focallength_x_px * (2 * np.tan(np.deg2rad(view_y) / 2))"]],
      demo=HEAD + """p = ct.CylindricalProjection(focallength_x_px=2000, focallength_y_px=2300, image=(3000, 2000))
close(p.imageFromFOV(view_y=p.getFieldOfView()[1]), 2000)
"""),
 dict(id="s03-ypr-order", property="C05", needs="a yaw-pitch-roll orientation with a negative roll angle",
      what="negative roll angles are wrapped to another quadrant",
      edits=[[SP, "        tilt = np.pi/2+np.deg2rad(self.parameters.pitch_deg)\n        roll = -np.deg2rad(self.parameters.roll_deg)\n        heading = np.deg2rad(self.parameters.yaw_deg)",
              "        tilt = np.pi/2+np.deg2rad(self.parameters.pitch_deg)\n        roll = -np.deg2rad(self.parameters.roll_deg % 90)\n        heading = np.deg2rad(self.parameters.yaw_deg)"]],
      demo=HEAD + """import math
o = ct.SpatialOrientationYawPitchRoll if hasattr(ct, "SpatialOrientationYawPitchRoll") else __import__("cameratransform.spatial", fromlist=["x"]).SpatialOrientationYawPitchRoll
a = o(elevation_m=0, yaw_deg=0, pitch_deg=-90, roll_deg=-30)
# looking straight down the image is turned by the roll angle
v = a.cameraFromSpace([1., 0., 0.])
close(abs(math.degrees(math.atan2(v[1], v[0]))), 30)
"""),
 dict(id="s04-abc-coefficients", property="C09", needs="an ABC lens with different coefficients a and b and a position off the principal point",
      what="the cubic and the quartic coefficient are exchanged in the distortion polynomial",
      edits=[[LE, "self.d * r + self.c * r**2 + self.b * r**3 + self.a * r**4", "self.d * r + self.c * r**2 + self.a * r**3 + self.b * r**4"]],
      demo=HEAD + """cam = ct.Camera(ct.RectilinearProjection(focallength_px=3000, image=(3000, 2000), center=(1400, 1100)), ct.SpatialOrientation(), ct.ABCDistortion(0.05, 0.0, 0.0))
# r = 0.5 -> 0.95*0.5+0.05*0.5**4
close(cam.lens.distortedFromImage(np.array([1900., 1100.])), [1400 + 1000*(0.95*0.5+0.05*0.5**4), 1100])
"""),
 dict(id="s05-backproject-abs", property="C07", needs="a per-point distance or coordinate constraint in which the camera looks away from the plane",
      what="points behind the camera are returned as numbers when X is constrained",
      edits=[[CA, "        points[factor < 0] = np.nan", "        points[(factor < 0) & (given[2] is not None and X is None)] = np.nan"]],
      demo=HEAD + """cam = ct.Camera(ct.RectilinearProjection(focallength_px=3000, image=(3000, 2000)), ct.SpatialOrientation(elevation_m=10, tilt_deg=80))
p = cam.spaceFromImage(np.array([[2000., 900.], [1000., 900.]]), X=np.array([5., 5.]))
close(np.isnan(p).all(axis=1), [False, True])
"""),
 dict(id="s06-hide-near", property="C08", needs="a point closely (less than 10 cm) behind the camera plane",
      what="points just behind the camera are not hidden",
      edits=[[PR, "            transformed_points[points[..., 2] > 0] = np.nan", "            transformed_points[points[..., 2] > 0.1] = np.nan"]],
      demo=HEAD + """p = ct.RectilinearProjection(focallength_px=3000, image=(3000, 2000))
close(np.isnan(p.imageFromCamera([[1., 1., -10.], [1., 1., 0.05]]))[:, 0], [False, True])
"""),
]
