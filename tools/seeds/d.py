import os, sys
sys.path.insert(0, os.path.join(os.getcwd(), "tools", "seeds"))
from b import HEAD, MK, PR, CA, SP, LE, PA, GP, RA, ST
PLT = """import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
def markers():
    r = []
    for s in plt.gca().collections:
        r.append(np.array(s.get_offsets()))
    return r
"""
SEEDS = [
 dict(id="s37-plot-stale-gps", property="C30", needs="GPS landmarks that are added before the GPS position of the camera is set or changed",
      what="the landmarks are converted into space once when they are added, so the plot shows predictions for the old camera position",
      edits=[[CA, """        def plotLandmarkPoints(lm_points_image=lm_points_image, lm_points_geo=lm_points_geo, color=plot_color):
            import matplotlib.pyplot as plt
            lm_points_space = self.spaceFromGPS(lm_points_geo)
""", """        lm_points_space = self.spaceFromGPS(lm_points_geo)

        def plotLandmarkPoints(lm_points_image=lm_points_image, lm_points_space=lm_points_space, color=plot_color):
            import matplotlib.pyplot as plt
"""]],
      demo=HEAD + MK + PLT + """c = cam()
c.setGPSpos(50., 11., 20.)
g = np.array([[50.001, 11.0003, 0.], [50.0015, 11.0001, 2.]])
c.addLandmarkInformationGPS(np.array([[10., 20.], [30., 40.]]), g, [3., 3., 3.])
c.setGPSpos(50.0002, 11.0001, 22.)
c.plotFitInformation()
close(markers()[0], c.imageFromGPS(g), 1e-6)
"""),
 dict(id="s38-plot-mean-height", property="C30", needs="objects with individual heights",
      what="all predicted heads are drawn at the mean height",
      edits=[[CA, "            point3D_feet[..., 2] += height\n            projected_head", "            point3D_feet[..., 2] += np.mean(height)\n            projected_head"]],
      demo=HEAD + MK + PLT + """c = cam()
f = c.imageFromSpace([[0., 40., 0.], [4., 50., 0.]])
h = c.imageFromSpace([[0., 40., 1.], [4., 50., 2.]])
c.addObjectHeightInformation(f, h, np.array([1., 2.]), 0.1)
c.plotFitInformation()
close(markers()[0], h, 1e-6)
"""),
 dict(id="s39-text-portrait", property="C31", needs="an image that is higher than wide",
      what="the text always states the longer side as the width of the image",
      edits=[[PR, """            self.parameters.focallength_x_px, self.parameters.sensor_width_mm, self.parameters.sensor_height_mm,
            self.parameters.image_width_px, self.parameters.image_height_px)
        return string""", """            self.parameters.focallength_x_px, self.parameters.sensor_width_mm, self.parameters.sensor_height_mm,
            *sorted([self.parameters.image_width_px, self.parameters.image_height_px], reverse=True))
        return string"""]],
      demo=HEAD + """t = str(ct.RectilinearProjection(focallength_px=100, image=(200, 300)))
if "200" not in t or t.index("200") > t.index("300"):
    print(t); sys.exit(1)
"""),
 dict(id="s43-topview-grid", property="C13", needs="an extent that is no multiple of the scaling",
      what="the rows of the top view are spread over the whole extent instead of lying one scaling apart",
      edits=[[CA, """                                    np.arange(extent[2], extent[3], scaling)))

        # convert it to a list of points Nx2
        mesh_points = mesh.reshape(2, mesh.shape[1] * mesh.shape[2]).T
        mesh_points = np.hstack""", """                                    np.linspace(extent[2], extent[3], int(np.ceil((extent[3] - extent[2]) / scaling)), endpoint=False)))

        # convert it to a list of points Nx2
        mesh_points = mesh.reshape(2, mesh.shape[1] * mesh.shape[2]).T
        mesh_points = np.hstack"""]],
      demo=HEAD + MK + """c = cam()
x, y = c._getMap(extent=[0, 20, 40, 60.5], scaling=1.)
p = c.imageFromSpace([4., 59., 0.])
close([x[::-1][19, 4], y[::-1][19, 4]], p, 1e-4)
"""),
 dict(id="s44-uncertain-callback", property="C10", needs="a parameter with cached state (angle, lens coefficient) that is set with its uncertainty",
      what="setting (mean, std) returns before the cached rotation matrix and inverse lens function are refreshed",
      edits=[[PA, "                parameter_obj.set_stats(*value)\n", "                parameter_obj.set_stats(*value)\n                parameter_obj.state = STATE_USER_SET\n                return\n"]],
      demo=HEAD + MK + """c = cam(ct.BrownLensDistortion(0.01))
c.k1 = (0.3, 0.02)
d = cam(ct.BrownLensDistortion(0.3))
q = np.array([50., 60.])
close(c.imageFromSpace([1., 40., 0.]), d.imageFromSpace([1., 40., 0.]))
close(c.spaceFromImage(q, D=10), d.spaceFromImage(q, D=10))
"""),
 dict(id="s45-gps-chain-constraint", property="C17", needs="GPS positions of image points at a given distance or X or Y instead of on a plane",
      what="gpsFromImage ignores a given distance",
      edits=[[CA, "self.gpsFromSpace(self.spaceFromImage(points, X=X, Y=Y, Z=Z, D=D))", "self.gpsFromSpace(self.spaceFromImage(points, X=X, Y=Y, Z=Z))"]],
      demo=HEAD + MK + """c = cam()
c.setGPSpos(50., 11., 20.)
q = np.array([100., 150.])
close(c.gpsFromImage(q, D=70.), c.gpsFromSpace(c.spaceFromImage(q, D=70.)), 1e-9)
"""),
 dict(id="s46-height-nan-one", property="C26", needs="an object exactly above the camera's x or y position, so that one constraint plane contains the ray",
      what="where the ray lies in one of the constraint planes the height is averaged over both intersections with not-a-number ignored as zero",
      edits=[[CA, "self.spaceFromImage(point_heads, Y=point3D_feet[..., 1])\n        point3D_head2", "self.spaceFromImage(point_heads, Y=point3D_feet[..., 1], Z=Z)\n        point3D_head2"],
             [CA, "        point3D_back = self.spaceFromImage(point_back, Z=Z)\n        # the z difference", "        point3D_back = self.spaceFromImage(point_back, Z=Z) if np.ndim(Z) == 0 else self.spaceFromImage(point_back, Z=np.mean(Z))\n        # the z difference"]],
      demo=HEAD + MK + """c = cam()
a = c.imageFromSpace([[0., 40., 1.], [3., 50., 5.]]); b = c.imageFromSpace([[2., 40., 1.], [5., 50., 5.]])
close(c.getObjectLength(a, b, Z=np.array([1., 5.])), [2., 2.], 1e-6)
"""),
 dict(id="s47-baseline-first-lens", property="C21", needs="a group whose cameras have different lenses but one projection",
      what="every camera of the group gets the lens of the first one",
      edits=[[CA, "itertools.cycle(self.lens_list))]", "itertools.cycle(self.lens_list[:1]))]"]],
      demo=HEAD + """p = [ct.RectilinearProjection(focallength_px=400, image=(600, 400)) for i in range(2)]
g = ct.CameraGroup(p, [ct.SpatialOrientation(elevation_m=10), ct.SpatialOrientation(elevation_m=12)], [ct.BrownLensDistortion(0.02), ct.BrownLensDistortion(0.3)])
c = ct.Camera(ct.RectilinearProjection(focallength_px=400, image=(600, 400)), ct.SpatialOrientation(elevation_m=12), ct.BrownLensDistortion(0.3))
close(g[1].imageFromSpace([1., 40., 3.]), c.imageFromSpace([1., 40., 3.]))
"""),
 dict(id="s48-epipolar-one-way", property="C22", needs="corresponding points whose errors differ between the two images",
      what="the second direction of the correspondences is measured against the points of the first image",
      edits=[[CA, "                distances = np.linalg.norm(perpendicular_point - corresponding[1 - i], axis=-1)\n                # sum the logprob of these distances\n                sum += np.sum(stats.norm",
                  "                distances = np.linalg.norm(perpendicular_point - corresponding[1 - i], axis=-1)\n                # sum the logprob of these distances\n                sum += (1 + i) / 1.5 * np.sum(stats.norm"]],
      demo=HEAD + """from scipy import stats
p = ct.RectilinearProjection(focallength_px=400, image=(600, 400))
g = ct.CameraGroup(p, [ct.SpatialOrientation(elevation_m=10, tilt_deg=80), ct.SpatialOrientation(elevation_m=12, tilt_deg=80, pos_x_m=3)])
a = np.array([[100., 200.], [300., 250.]]); b = np.array([[90., 205.], [280., 260.]])
g.addPointCorrespondenceInformation(a, b, 2.)
e = g.pointCorrespondenceError(a, b)
close(g.getLogProbability(), sum(stats.norm(0, 2.).logpdf(x).sum() for x in e), 1e-9)
"""),
]
