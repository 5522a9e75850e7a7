HEAD = """import numpy as np, sys
import cameratransform as ct
def close(a, b, tol=1e-6):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape or not np.allclose(a, b, rtol=tol, atol=tol, equal_nan=True):
        print("got", a, "expected", b); sys.exit(1)
"""
PR = "cameratransform/projection.py"
CA = "cameratransform/camera.py"
SP = "cameratransform/spatial.py"
LE = "cameratransform/lens_distortion.py"
PA = "cameratransform/parameter_set.py"
GP = "cameratransform/gps.py"
RA = "cameratransform/ray.py"
ST = "cameratransform/statistic.py"
MK = """def cam(lens=None, **kw):
    return ct.Camera(ct.RectilinearProjection(focallength_px=3000, image=(3000, 2000), center=(1400, 1100)), ct.SpatialOrientation(**dict(dict(elevation_m=20, tilt_deg=70, roll_deg=5, heading_deg=30, pos_x_m=3, pos_y_m=-2), **kw)), lens)
"""
SEEDS = [

 dict(id="s07-fit-one-callback", property="C10", needs="fit parameters of the orientation and the lens set together, the orientation's first",
      what="only the last part's cached state is refreshed when several parameters are set at once, so the camera transforms with a stale rotation",
      edits=[[PA, "                    callbacks.add(self.parameters[n].callback)\n        for call in callbacks:\n            call()\n\n    def get_parameter_defaults",
                  "                    callbacks = {self.parameters[n].callback}\n        for call in callbacks:\n            call()\n\n    def get_parameter_defaults"]],
      demo=HEAD + MK + """c = cam(ct.BrownLensDistortion(0.01))
c.parameters.set_fit_parameters(["tilt_deg", "k1"], [60., 0.02])
d = cam(ct.BrownLensDistortion(0.02), tilt_deg=60.)
close(c.imageFromSpace([10., 40., 0.]), d.imageFromSpace([10., 40., 0.]))
"""),
 dict(id="s08-sample-walk", property="C11", needs="an uncertain parameter that is sampled repeatedly",
      what="each sample is drawn around the previous one instead of around the mean",
      edits=[[PA, "np.random.normal(self.mean, self.std)", "np.random.normal(self.value, self.std)"]],
      demo=HEAD + MK + """c = cam()
c.tilt_deg = (50., 1.)
np.random.seed(1)
v = []
for i in range(400):
    c.sample(); v.append(c.tilt_deg)
if max(abs(np.array(v) - 50)) > 6:
    print("samples leave the distribution", v[-1]); sys.exit(1)
"""),
 dict(id="s09-save-fitted", property="C12", needs="a camera whose parameters were fitted (not set by the user) before saving",
      what="only parameters set by the user are written, so fitted values fall back to their defaults when the camera is loaded",
      edits=[[CA, 'for key in keys if key != "focallength_px"}\n\n        # check projections', 'for key in keys if key != "focallength_px" and self.parameters.parameters[key].state != 2}\n\n        # check projections']],
      demo=HEAD + MK + """import tempfile, os
c = cam()
c.parameters.set_fit_parameters(["tilt_deg"], [42.])
with tempfile.TemporaryDirectory() as d:
    c.save(os.path.join(d, "c.json"))
    e = ct.load_camera(os.path.join(d, "c.json"))
close(e.tilt_deg, 42)
close(e.imageFromSpace([2., 30., 3.]), c.imageFromSpace([2., 30., 3.]))
"""),
 dict(id="s10-topview-plane", property="C13", needs="a top view of a plane other than Z=0",
      what="the height of the plane is added to the wrong coordinate order: its square is used",
      edits=[[CA, "Z*np.ones((mesh_points.shape[0], 1))", "abs(Z)*np.ones((mesh_points.shape[0], 1))"]],
      demo=HEAD + MK + """c = cam()
x, y = c._getMap(extent=[0, 20, 40, 60], scaling=1., Z=-3.)
p = c.imageFromSpace([4., 47., -3.])
close([x[::-1][7, 4], y[::-1][7, 4]], p, 1e-4)
"""),
 dict(id="s11-undistort-inplace", property="C14", needs="a float array of distorted positions that the caller uses again",
      what="correcting lens distortion shifts the caller's array in place",
      edits=[[LE, "        points = (np.array(points)-self.offset)/self.scale\n        # calculate the radius form the center\n        r = np.linalg.norm(points, axis=-1)[..., None]\n        # the center itself is not shifted (prevent 0/0)\n        r[r == 0] = 1\n        # transform the points\n        with np.errstate(divide='ignore', invalid='ignore'):\n            points = points / r * self._convert_radius_inverse(r)\n        # rescale back to the image\n        return points * self.scale + self.offset\n\n    def distortedFromImage(self, points):\n        # ensure that the points are provided as an array\n        # and rescale the points to that the center is at 0 and the border at 1\n        points = (np.array(points)-self.offset)/self.scale\n        # calculate the radius form the center\n        r = np.linalg.norm(points, axis=-1)[..., None]\n        # the center itself is not shifted (prevent 0/0)\n        r[r == 0] = 1\n        # transform the points\n        with np.errstate(divide='ignore', invalid='ignore'):\n            points = points / r * self._convert_radius(r)\n        # rescale back to the image\n        return points * self.scale + self.offset\n\n\nclass ABC",
                  "        points = np.asarray(points, dtype=float)\n        points -= self.offset\n        points = points/self.scale\n        # calculate the radius form the center\n        r = np.linalg.norm(points, axis=-1)[..., None]\n        # the center itself is not shifted (prevent 0/0)\n        r[r == 0] = 1\n        # transform the points\n        with np.errstate(divide='ignore', invalid='ignore'):\n            points = points / r * self._convert_radius_inverse(r)\n        # rescale back to the image\n        return points * self.scale + self.offset\n\n    def distortedFromImage(self, points):\n        # ensure that the points are provided as an array\n        # and rescale the points to that the center is at 0 and the border at 1\n        points = (np.array(points)-self.offset)/self.scale\n        # calculate the radius form the center\n        r = np.linalg.norm(points, axis=-1)[..., None]\n        # the center itself is not shifted (prevent 0/0)\n        r[r == 0] = 1\n        # transform the points\n        with np.errstate(divide='ignore', invalid='ignore'):\n            points = points / r * self._convert_radius(r)\n        # rescale back to the image\n        return points * self.scale + self.offset\n\n\nclass ABC"]],
      demo=HEAD + MK + """c = cam(ct.BrownLensDistortion(0.02))
p = np.array([[100., 200.], [2000., 1500.]])
q = p.copy()
c.spaceFromImage(p)
close(p, q)
"""),
 dict(id="s12-rays-batch-orientation", property="C15", needs="a batch of exactly three directions",
      what="directions are rotated with the wrong matrix when their number equals the number of coordinates",
      edits=[[SP, "        if direction:\n            return np.dot(points, self.R_inv.T)\n", "        if direction:\n            if len(points) == 3:\n                return np.dot(self.R_inv, points if points.ndim == 1 else points.T.T)\n            return np.dot(points, self.R_inv.T)\n"]],
      demo=HEAD + MK + """c = cam()
p = np.array([[100., 200.], [2000., 1500.], [900., 800.]])
close(c.getRay(p)[1], [c.getRay(q)[1] for q in p])
"""),
 dict(id="s13-move-pole", property="C16", needs="a move that passes the pole (the longitude changes by more than 90 degrees)",
      what="the longitude after a move uses a plain arctan and is off by 180 degrees when the move crosses the pole",
      edits=[[GP, "np.arctan2(np.sin(bearing) * np.sin(distance / R) * np.cos(lat1),\n                             np.cos(distance / R) - np.sin(lat1) * np.sin(lat2))",
                  "np.arctan(np.sin(bearing) * np.sin(distance / R) * np.cos(lat1) /\n                             (np.cos(distance / R) - np.sin(lat1) * np.sin(lat2)))"]],
      demo=HEAD + """a = np.array([85., 10.])
b = ct.moveDistance(a, 1200e3, 20.)
close(ct.getDistance(a, b), 1200e3)
close(ct.getBearing(a, b), 20)
"""),
 dict(id="s14-gps-zero-elevation", property="C17", needs="a GPS position given with elevation zero",
      what="an elevation of zero is ignored and the previous elevation kept",
      edits=[[CA, "        if elevation is not None:\n            self.elevation_m = elevation\n", "        if elevation:\n            self.elevation_m = elevation\n"]],
      demo=HEAD + MK + """c = cam()
c.setGPSpos(-66.5, 140.0, 0)
close([c.gps_lat, c.gps_lon, c.elevation_m], [-66.5, 140, 0])
"""),
 dict(id="s15-parse-negative-zero", property="C18", needs="a text with -0 degrees and minutes",
      what="the sign of positions between -1 and 0 degrees is lost when the text is read",
      edits=[[GP, '        if deg[0] == "-":', '        if float(deg) < 0:']],
      demo=HEAD + """close(ct.gpsFromString("-0° 30.000' -0° 15.000'"), [-0.5, -0.25])
"""),
 dict(id="s16-nearly-parallel", property="C19", needs="two rays that differ by less than half a degree",
      what="nearly parallel lines are treated as parallel, so the distance of two lines that nearly meet is the distance of their origins to the other line",
      edits=[[RA, "    if np.isclose(norm_v1_cross_v2, 0):", "    if np.isclose(norm_v1_cross_v2, 0, atol=0.01):"]],
      demo=HEAD + """from cameratransform import ray
p1, p2 = np.array([0., 0., 1.]), np.array([1., 0., 1.])
t = np.array([[0., 300., 0.]])
close(ray.distanceOfTwoLines(p1, (t - p1) / 300, p2, (t - p2) / 300), [0])
"""),
 dict(id="s17-mesh-first", property="C20", needs="a ray that hits two triangles of which the farther one comes first in the mesh",
      what="the first triangle in the mesh is returned instead of the nearest one",
      edits=[[RA, "    index = nanargmin(rI, axis=0)", "    index = np.argmax(~np.isnan(rI), axis=0)"]],
      demo=HEAD + """from cameratransform import ray
tri = lambda y: [[-9., y, -9.], [9., y, -9.], [0., y, 9.]]
close(ray.ray_intersect_triangle([0., 0., 0.], [0., 1., 0.], np.array([tri(20.), tri(10.)])), [0, 10, 0])
"""),
 dict(id="s18-group-scale", property="C21", needs="a camera group whose cameras stand at different heights",
      what="scaling the space of a group leaves the elevations unscaled",
      edits=[[CA, "cam.pos_x_m, cam.pos_y_m, cam.elevation_m = np.array([cam.pos_x_m, cam.pos_y_m, cam.elevation_m]) * scale",
                  "cam.pos_x_m, cam.pos_y_m = np.array([cam.pos_x_m, cam.pos_y_m]) * scale"]],
      demo=HEAD + """g = ct.CameraGroup(ct.RectilinearProjection(focallength_px=3000, image=(3000, 2000)), [ct.SpatialOrientation(elevation_m=10, tilt_deg=70), ct.SpatialOrientation(elevation_m=20, tilt_deg=60, pos_x_m=5)])
p = np.array([2., 30., 1.])
a = g.imagesFromSpace(p)
g.scaleSpace(2)
close(g.imagesFromSpace(p * 2), a)
"""),
 dict(id="s19-length-plane", property="C22", needs="object length information on a plane other than Z=0 with an unknown variation",
      what="the plane of the objects is ignored when the variation is a parameter of its own",
      edits=[[CA, "                    length_distribution = stats.norm(loc=length, scale=variation.value)\n\n                    # get the length of the objects\n                    heights = self.getObjectLength(points_front, points_back, Z)",
                  "                    length_distribution = stats.norm(loc=length, scale=variation.value)\n\n                    # get the length of the objects\n                    heights = self.getObjectLength(points_front, points_back)"]],
      demo=HEAD + MK + """from scipy import stats
c = cam()
f, b = np.array([[1000., 1500.], [1600., 1400.]]), np.array([[1100., 1450.], [1650., 1450.]])
v = ct.FitParameter("v", lower=0.1, upper=1, value=0.3)
c.addObjectLengthInformation(f, b, 1.2, v, Z=4.)
close(c.getLogProbability(), np.sum(stats.norm(1.2, 0.3).logpdf(c.getObjectLength(f, b, Z=4.))))
"""),
 dict(id="s20-fit-last-probe", property="C23", needs="a fit whose optimiser does not evaluate the optimum last",
      what="the camera keeps the parameters of the optimiser's last trial instead of the optimum",
      edits=[[PA, '        self.parameters.set_fit_parameters(names, p["x"])\n        return p', '        return p']],
      demo=HEAD + MK + """c = cam()
c.addCustomoLogProbability(lambda: -(c.elevation_m - 13.)**2 - (c.tilt_deg - 60)**4)
r = c.fit([ct.FitParameter("elevation_m", lower=0, upper=100, value=20.), ct.FitParameter("tilt_deg", lower=0, upper=100, value=50.)])
close([c.elevation_m, c.tilt_deg], r["x"], 1e-12)
"""),
]
