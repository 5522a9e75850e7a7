import os, sys
sys.path.insert(0, os.path.join(os.getcwd(), "tools", "seeds"))
from b import HEAD, MK, PR, CA, SP, LE, PA, GP, RA, ST
SC = "cameratransform/scene.py"
SEEDS = [
 dict(id="s22-stale-probability", property="C24", needs="a proposal of the same probability or better after a rejected one, with the recorded trace compared to the function",
      what="the row of the trace carries the probability of the last proposal instead of the accepted position",
      edits=[[ST, "trace.append(list(last_pos) + next_prior_trace + [last_prob])", "trace.append(list(last_pos) + next_prior_trace + [max(last_prob, next_prob)])"],
             [ST, "if ratio >= 0 or r < np.exp(ratio):", "if ratio > 0 or r < np.exp(min(ratio, 0) * 1.5):"]],
      demo=HEAD + """from cameratransform.statistic import metropolis
np.random.seed(3)
k = [0]
p = lambda x: -0.5 * (x[0] / 0.7)**2
t = np.array(metropolis(p, np.array([0.5]), step=[1.2], iterations=40000, burn=200, disable_bar=True))
if abs(np.std(t[:, 0]) - 0.7) > 0.04:
    print("width of the distribution", np.std(t[:, 0])); sys.exit(1)
close(t[:, 1], [p(r) for r in t])
"""),
 dict(id="s23-rotate-order", property="C25", needs="a camera that is not at the origin, turned by an angle that is no multiple of 180 degrees",
      what="the new y position is computed from the already turned x position",
      edits=[[CA, "        self.pos_x_m, self.pos_y_m = np.dot(np.array([[c, s], [-s, c]]), pos)",
                  "        self.pos_x_m = c * pos[0] + s * pos[1]\n        self.pos_y_m = -s * self.pos_x_m + c * pos[1]"]],
      demo=HEAD + MK + """c = cam()
q = np.array([10., 40., 1.])
a = c.imageFromSpace(q)
c.rotateSpace(25.)
r = np.deg2rad(25)
close(c.imageFromSpace([np.cos(r)*q[0]+np.sin(r)*q[1], np.cos(r)*q[1]-np.sin(r)*q[0], 1.]), a)
"""),
 dict(id="s25-lut-order", property="C26", needs="an area table of the whole image that is not square",
      what="the table of the whole image is filled column by column",
      edits=[[CA, "            A = A.reshape(self.image_height_px, self.image_width_px)", "            A = A.reshape(self.image_width_px, self.image_height_px).T"]],
      demo=HEAD + """c = ct.Camera(ct.RectilinearProjection(focallength_px=30, image=(6, 4)), ct.SpatialOrientation(elevation_m=20, tilt_deg=30))
a = c.generateLUT(whole_image=True)
b = c.generateLUT()
if a.shape != (4, 6):
    print(a.shape); sys.exit(1)
q = c.spaceFromImage([[-.5, 1.5], [.5, 1.5], [.5, 2.5], [-.5, 2.5]])
close(a[2, 0], ct.ray.areaOfQuadrilateral(q[:, :2]))
"""),
 dict(id="s26-model-prefix", property="C27", needs="a camera model whose name is the beginning of another model listed before it",
      what="the sensor of the first model that begins alike is used",
      edits=[[CA, '    name = model + ";"', '    name = model']],
      demo=HEAD + """import os, tempfile
from cameratransform.camera import _getSensorFromDatabase
os.chdir(tempfile.mkdtemp())
open("sensor_database_detailed.csv", "w").write("Canon;EOS 50D Mark II;x;36.0;24.0\\nCanon;EOS 50D;x;22.3;14.9\\n")
close(_getSensorFromDatabase("Canon EOS 50D"), (22.3, 14.9))
"""),
 dict(id="s27-grid-order", property="C28", needs="a grid whose positions are not in ascending order",
      what="the lines of a grid end at the first and last position instead of the outermost ones",
      edits=[[SC, "        max_x = max(x_values)", "        max_x = x_values[-1]"]],
      demo=HEAD + """s = ct.Scene() if hasattr(ct, "Scene") else __import__("cameratransform.scene", fromlist=["Scene"]).Scene()
g = s.addGrid([3., 9., 5.], [1., 2.])
close([np.nanmin(g[:6, 0]), np.nanmax(g[:6, 0])], [3, 9])
"""),
 dict(id="s28-wall-half", property="C28", needs="a point of a wall that lies in the upper triangle near the start of its piece",
      what="both triangles of a piece of a wall cover the same corner, the opposite corner is a hole",
      edits=[[RA, "            mesh.append([point + [z1], last_point + [z0], last_point + [z1]])", "            mesh.append([point + [z1], last_point + [z1], point + [z0]])"]],
      demo=HEAD + """from cameratransform.ray import extrudeLine, ray_intersect_triangle as f
m = extrudeLine(np.array([[0., 10.], [10., 10.], [20., 10.]]), 0., 5.)
o = np.array([11., 0., 1.])
for q in ([1., 10., 4.], [9., 10., 1.], [1., 10., 0.3], [9., 10., 4.6], [19., 10., 1.]):
    close(f(o, np.array(q) - o, m), q)
"""),
 dict(id="s29-pose-roll", property="C29", needs="a group whose first camera was rolled before the pose is set",
      what="the first camera keeps its old roll although the pose of the second camera refers to an unrolled one",
      edits=[[CA, "        cam1.tilt_deg = 0\n        cam1.roll_deg = 0\n", "        cam1.tilt_deg = 0\n"]],
      demo=HEAD + """pr = ct.RectilinearProjection(focallength_px=3000, image=(3000, 2000))
g = ct.CameraGroup(pr, [ct.SpatialOrientation(elevation_m=100, tilt_deg=0), ct.SpatialOrientation(elevation_m=101, tilt_deg=5, heading_deg=8, pos_x_m=6)])
rng = np.random.RandomState(1)
p = np.array([0, 0, 40.]) + rng.uniform(-1, 1, (60, 3)) * [10, 10, 15]
a, b = g.imagesFromSpace(p)
h = ct.CameraGroup(pr, [ct.SpatialOrientation(elevation_m=100, tilt_deg=3, roll_deg=20), ct.SpatialOrientation(elevation_m=90)])
h.setCameraParametersByPointCorrespondence(a, b, np.sqrt(37))
close(h[1].imageFromSpace(p), b, 1e-3)
close(h[0].imageFromSpace(p), a, 1e-3)
"""),
 dict(id="s31-abc-d", property="C10", needs="an ABC lens whose coefficients are changed by a fit after the camera was built",
      what="the dependent coefficient d is computed only when the lens is attached to its projection",
      edits=[[LE, "        self.d = 1 - self.a - self.b - self.c\n        r = np.arange", "        if self.projection is None or not hasattr(self, \"d\"):\n            self.d = 1 - self.a - self.b - self.c\n        r = np.arange"]],
      demo=HEAD + MK + """c = cam(ct.ABCDistortion(0.01, 0.02, 0.0))
c.parameters.set_fit_parameters(["a"], [0.05])
d = cam(ct.ABCDistortion(0.05, 0.02, 0.0))
close(c.imageFromSpace([10., 40., 0.]), d.imageFromSpace([10., 40., 0.]))
"""),
 dict(id="s32-landmark-uncertainty", property="C22", needs="landmarks with different uncertainties of which a later one is the largest",
      what="the range around each landmark is taken from the first landmark's uncertainty only",
      edits=[[CA, "        uncertainties = np.array(uncertainties)\n        offset = np.max(uncertainties)\n        sampled_offsets = np.linspace(-2*offset, +2*offset, 1000)\n        if len(lm_points_image.shape) == 1:\n            lm_points_image = lm_points_image[None, ...]\n        if len(lm_points_space.shape)",
                  "        uncertainties = np.array(uncertainties)\n        offset = np.max(uncertainties[0])\n        sampled_offsets = np.linspace(-2*offset, +2*offset, 1000)\n        if len(lm_points_image.shape) == 1:\n            lm_points_image = lm_points_image[None, ...]\n        if len(lm_points_space.shape)"]],
      demo=HEAD + MK + """from scipy import stats
def lp(order):
    c = cam()
    w = np.array([[5., 40., 0.], [12., 60., 1.]])[order]
    u = np.array([[1., 1., 1.], [4., 3., 2.]])[order]
    c.addLandmarkInformation(cam().imageFromSpace(w) + 5, w, u)
    return c.getLogProbability()
close(lp([0, 1]), lp([1, 0]))
"""),
 dict(id="s33-metropolis-extra-range", property="C23", needs="a sampled extra parameter with its own limits, after a camera parameter with other limits",
      what="extra parameters get the limits of the camera parameter at their position",
      edits=[[PA, "        for param in self.additional_parameters:\n            additional_parameter_names.append(param.__name__)\n            start.append(param.value[()])\n            ranges.append([param.parents.get(\"lower\"), param.parents.get(\"upper\")])",
                  "        for param, other in zip(self.additional_parameters, list(parameter) + self.additional_parameters):\n            additional_parameter_names.append(param.__name__)\n            start.append(param.value[()])\n            ranges.append([other.parents.get(\"lower\"), other.parents.get(\"upper\")])"]],
      demo=HEAD + MK + """np.random.seed(1)
c = cam()
v = ct.FitParameter("v", lower=0.1, upper=0.5, value=0.3)
c.addCustomoLogProbability(lambda: -(c.elevation_m - 20)**2 * 0.01, [v])
t = c.metropolis([ct.FitParameter("elevation_m", lower=0, upper=100, value=20.)], iterations=600, disable_bar=True, print_trace=False)
if t["v"].min() < 0.1 or t["v"].max() > 0.5:
    print("extra parameter outside of its limits"); sys.exit(1)
"""),
 dict(id="s34-triangulate-batch", property="C19", needs="a batch of lines in which one pair is parallel",
      what="one parallel pair makes the whole batch use the first line's direction",
      edits=[[RA, "return np.array([__intersectionOfTwoLines(p1, v1[i], p2, v2[i]) for i in range(len(v1))])", "return np.array([__intersectionOfTwoLines(p1, v1[i], p2, v2[0]) for i in range(len(v1))])"]],
      demo=HEAD + """from cameratransform.ray import intersectionOfTwoLines as f
p1, p2 = np.array([0., 0., 0.]), np.array([2., 0., 0.])
v1 = np.array([[1., 1., 0.], [0., 1., 0.], [1., 2., 0.]]); v2 = np.array([[-1., 1., 0.], [0., 1., 0.], [-1., 2., 0.]])
r = f(p1, v1, p2, v2)
close(r[0], [1, 1, 0]); close(r[2], [1, 2, 0])
"""),
 dict(id="s35-mesh-parallel", property="C20", needs="several rays of which one runs parallel to a triangle that another one hits",
      what="a triangle that is parallel to one of the rays is dropped for all rays",
      edits=[[RA, "    rI[(b == 0.0)*(a != 0.0)] = np.nan\n", "    rI[np.any((b == 0.0)*(a != 0.0), axis=1)] = np.nan\n"]],
      demo=HEAD + """from cameratransform.ray import ray_intersect_triangle as f
t = np.array([[[-5., 5., -5.], [5., 5., -5.], [0., 5., 9.]], [[-5., 9., -5.], [5., 9., -5.], [0., 9., 9.]]])
o = np.array([0., 0., 0.])
r = f(o, np.array([[0., 1., 0.], [1., 0., 0.]]), t)
close(r[0], [0, 5, 0])
"""),
 dict(id="s36-bearing-mixed", property="C16", needs="a bearing across the date line",
      what="the difference of longitudes is taken as absolute value when it exceeds half a turn",
      edits=[[GP, "    dL = lon2-lon1\n    X =", "    dL = lon2-lon1\n    dL = np.where(np.abs(dL) > np.pi, 2*np.pi-np.abs(dL), dL)\n    X ="],],
      demo=HEAD + """from cameratransform.gps import getBearing
close(getBearing([0., -179.], [0., 179.]), -90.)
"""),
]
