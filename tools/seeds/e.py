import os, sys
sys.path.insert(0, os.path.join(os.getcwd(), "tools", "seeds"))
from b import HEAD, MK, PR, CA, SP, LE, PA, GP, RA, ST
TR = HEAD + """import pandas as pd
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
cam = ct.Camera(ct.RectilinearProjection(focallength_px=500, image=(640, 480)), ct.SpatialOrientation(tilt_deg=80, elevation_m=10))
"""
SEEDS = [
 dict(id="s50-mean-of-late-trace", property="C23", needs="a trace whose first samples were dropped, so labels and positions of its rows differ",
      what="set_to_mean takes the row labelled with the position of the most probable sample",
      edits=[[PA, 'most_probable_index = self.parameters.trace["probability"].idxmax()', 'most_probable_index = self.parameters.trace["probability"].values.argmax()']],
      demo=TR + """
t = pd.DataFrame([[60., -3.], [61., -2.], [62., -5.], [63., -4.], [64., -1.], [65., -6.]], columns=["tilt_deg", "probability"])
for n in (0, 1, 2):
    cam.set_trace(t[n:])
    cam.set_to_mean()
    if cam.tilt_deg != 64:
        print("set_to_mean gives", cam.tilt_deg, "without the first", n); sys.exit(1)
"""),
 dict(id="s51-summary-small-std", property="C32", needs="a parameter whose standard deviation is below one",
      what="the digits of the uncertainty are truncated instead of rounded down, so small deviations are printed with a digit less",
      edits=[[ST, "digits = -int(floor(log10(abs(y))))", "digits = -int(log10(abs(y)))"]],
      demo=TR + """
import io, contextlib
for v, want in (([10., 14.], "12.0±2.0"), ([0.25, 0.31], "0.28±0.03")):
    cam.set_trace(pd.DataFrame([[q, -1.] for q in v], columns=["tilt_deg", "probability"]))
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        cam.printTraceSummary()
    if want not in out.getvalue():
        print(out.getvalue(), "expected", want); sys.exit(1)
"""),
 dict(id="s52-trace-skip-line", property="C32", needs="a trace plotted with skip",
      what="with skip the mean is that of the samples left, not of all samples",
      edits=[[ST, "        data = trace[name]\n\n        if just_distributions:", "        data = trace[name]\n        mean = np.mean(data[::skip])\n\n        if just_distributions:"],
             [ST, 'plt.axhline(np.mean(data), color="k")', 'plt.axhline(mean, color="k")']],
      demo=TR + """
cam.set_trace(pd.DataFrame([[60., -3.], [70., -2.], [62., -5.], [72., -4.], [64., -1.], [74., -6.]], columns=["tilt_deg", "probability"]))
for skip in (1, 2):
    f, a = plt.subplots(1, 2)
    cam.plotTrace(axes=list(a), skip=skip)
    got = sorted(l.get_ydata()[0] for l in a[1].lines if len(l.get_ydata()) == 2)
    if abs(np.mean([60, 70, 62, 72, 64, 74]) - max(got)) > 1e-9 or min(got) != 64:
        print("reference lines", got); sys.exit(1)
"""),
 dict(id="s53-epilines-corner", property="C32", needs="an estimated epipolar line that leaves the image at the bottom, in an image that is not square",
      what="the intersection with the bottom border is accepted by the height instead of the width of the image",
      edits=[[CA, "            if x_min < x_y_max < x_max:", "            if x_min < x_y_max < y_max:"]],
      demo=TR + """
import types
cv = types.ModuleType("cv2")
cv.findFundamentalMat = lambda a, b: (np.array([[0, 0, 0.], [0, 0, 0], [0, 0, 1]]), None)
cv.computeCorrespondEpilines = lambda p, w, F: np.array([[[1., 1., -q[0] - q[1]]] for q in p])
sys.modules["cv2"] = cv
g = ct.CameraGroup(ct.RectilinearProjection(focallength_px=500, image=(640, 480)), (ct.SpatialOrientation(tilt_deg=80, elevation_m=10), ct.SpatialOrientation(tilt_deg=80, pos_x_m=5, elevation_m=10)))
im = np.zeros((480, 640, 3))
for x, y in ((100., 200.), (600., 400.)):
    plt.clf()
    a = np.array([[x, y]])
    g.plotEpilines(a, a, im, im)
    ends = [np.array(l.get_xydata()) for l in plt.gcf().axes[0].lines if len(l.get_xdata()) < 10 and l.get_linestyle() == "-"]
    ends = [e for e in ends if len(e) == 2]
    if len(ends) != 1 or np.max(np.abs(ends[0].sum(axis=1) - x - y)) > 1e-6:
        print("epipolar line of", x, y, "drawn as", ends); sys.exit(1)
"""),
]
SEEDS += [
 dict(id="s54-grid-norm", property="C15", needs="a grid of image positions (two leading dimensions) with normalised rays",
      what="the rays of a grid are divided by the lengths of the rays of the transposed grid",
      edits=[[PR, """            ray /= np.linalg.norm(ray, axis=-1)[..., None]
        # return the ray
        return -ray

    def imageFromCamera(self, points, hide_backpoints=True):
        \"\"\"
            """, """            ray = (ray.T / np.linalg.norm(ray, axis=-1)).T
        # return the ray
        return -ray

    def imageFromCamera(self, points, hide_backpoints=True):
        \"\"\"
            """]],
      demo=HEAD + MK + """c = cam()
a = np.array([[[10., 20.], [2000., 300.]], [[500., 1800.], [2900., 1900.]]])
for q in (a[0], a, a[None, 0]):
    r = c.getRay(q, normed=True)[1]
    close(np.linalg.norm(r, axis=-1), np.ones(q.shape[:-1]))
    close(r.reshape(-1, 3), c.getRay(q.reshape(-1, 2), normed=True)[1])
"""),
 dict(id="s55-parse-integer-height", property="C18", needs="a list of coordinates with heights of which one is a whole number",
      what="a text and a height that is a whole number are not recognised as a position with height",
      edits=[[GP, "isinstance(gps_string[0], str) and isinstance(gps_string[1], (float, int)):", "isinstance(gps_string[0], str) and isinstance(gps_string[1], float):"]],
      demo=HEAD + """try:
    got = ct.gpsFromString([["-66.5° 140.25°", 13.5], ["66° 30' S 140° 15' E", 13]])
except Exception as err:
    print(err)
    sys.exit(1)
close(np.asarray(got, dtype=float), [[-66.5, 140.25, 13.5], [-66.5, 140.25, 13]])
"""),
]
