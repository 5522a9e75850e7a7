"""Effect analysis of the public functions: each is interpreted abstractly on arguments the caller keeps; afterwards every
element of every argument (arrays, lists, nested lists) must have its value number from before the call, every camera
parameter its value number from before, a second identical call must give the same answer, and writing into the returned
array must not change later answers."""
from .common import *
from .c06 import LENSES
from .c10 import mk, coef, CLS, COEF, INTR, EXTR, NAME
from .c13 import img


def deep(S, v):
    """value numbers reachable from an argument"""
    v = S.un(v)
    if isinstance(v, Arr):
        return ("arr", tuple(v.shape), tuple(N.elems(S.I, v)))
    if isinstance(v, Ref) and v.kind == "list":
        return ("list", tuple(deep(S, u) for u in S.I.iterate(v)))
    if isinstance(v, tuple):
        return ("tuple", tuple(deep(S, u) for u in v))
    if isinstance(v, Sc):
        return ("sc", v.t)
    return ("o", repr(v))


def flatten(d):
    if d[0] == "arr":
        return [X(t) for t in d[2]]
    if d[0] in ("list", "tuple"):
        return [u for c in d[1] for u in flatten(c)]
    if d[0] == "sc":
        return [X(d[1])]
    return []


def skeleton(d):
    if d[0] == "arr":
        return ("arr", d[1])
    if d[0] in ("list", "tuple"):
        return (d[0], tuple(skeleton(c) for c in d[1]))
    return (d[0],) if d[0] == "sc" else d


def same(R, S, label, before, after, key=None):
    if skeleton(before) != skeleton(after):
        R.true(label, False, detail="structure of the argument changed: %r -> %r" % (skeleton(before), skeleton(after)))
        return
    a, b = flatten(before), flatten(after)
    if not a:
        return
    R.eq(label, Obj(S, N.new(S.I, [c.t for c in b], (len(b),), "float")), a, key=key)


def params(S, cam):
    out = {}
    for part in ("projection", "orientation", "lens"):
        ps = S.get(S.get(S.get(cam, part), "parameters"), "parameters")
        for k in S.I.iterate(S.call(S.get(ps, "keys")).v):
            out[k] = S.get(S.get(S.get(cam, part), "parameters"), k)
    return out


def result_terms(S, v):
    try:
        return S.terms(v)
    except (Undecided, NotNumeric):
        return None


def scribble(S, v):
    """overwrite every array reachable from a result"""
    v = S.un(v)
    if isinstance(v, Arr) and v.dtype != "object":
        f = T.const(-123)
        N.write(S.I, v, [f if v.dtype != "bool" else T.FALSE] * len(v.idx))
    elif isinstance(v, (tuple, list)):
        for u in v:
            scribble(S, u)
    elif isinstance(v, Ref) and v.kind == "list":
        for u in list(S.I.iterate(v)):
            scribble(S, u)


def pure(R, S, label, fn, args, kw=None, cam=None, twice=True, alias=True):
    kw = kw or {}
    st = S.fork()
    before = [deep(S, a) for a in args] + [deep(S, kw[k]) for k in sorted(kw)]
    names = ["argument %d" % (i + 1) for i in range(len(args))] + sorted(kw)
    pb = {k: x_(v) for k, v in params(S, cam).items()} if cam is not None else {}
    r = S.call(fn, *args, **kw)
    for n, b, a in zip(names, before, list(args) + [kw[k] for k in sorted(kw)]):
        same(R, S, "%s: %s unchanged" % (label, n), b, deep(S, a))
    if cam is not None:
        pa = params(S, cam)
        if sorted(pa) != sorted(pb):
            R.true("%s: parameters" % label, False, detail="the camera has other parameters than before")
        else:
            ks = [k for k in sorted(pb) if pb[k] is not None]
            R.eq("%s: camera parameters unchanged" % label, [x_(pa[k]) for k in ks], [pb[k] for k in ks])
    if twice:
        t1 = result_terms(S, r)
        if t1 is not None:
            r2 = S.call(fn, *args, **kw)
            R.eq("%s: same answer again" % label, r2, Obj(S, N.new(S.I, t1[1], t1[0], "float")) if t1[0] else X(t1[1][0]))
            if alias:
                if alias == "self":
                    S.back(st)
                    r2 = S.call(fn, *args, **kw)
                scribble(S, r2)
                r3 = S.call(fn, *args, **kw)
                R.eq("%s: answer does not depend on what the caller does with the result" % label, r3,
                     Obj(S, N.new(S.I, t1[1], t1[0], "float")) if t1[0] else X(t1[1][0]))
    S.back(st)


def x_(v):
    v = v.v if isinstance(v, Obj) else v
    if isinstance(v, Sc):
        return X(v.t)
    if isinstance(v, (int, float)) and not isinstance(v, bool):
        return x(v)
    return None


def small(S, kind="RectilinearProjection", lens="none"):
    p, o, k = P(S), O(S), coef(S, lens)
    p.w, p.h = 4, 3
    return mk(S, kind, lens, p, o, k)


def run(R):
    def pts(S, n=2, lo=-50, hi=50):
        return S.arr([point3(S, str(i), lo, hi) for i in range(n)])

    def pix(S, n=2, tag=""):
        return S.arr([pixel(S, tag + str(i)) for i in range(n)])

    def lst(S, a):
        """the same values as nested python lists"""
        sh, ts = S.terms(a)
        v = [Sc(t, "float") for t in ts]
        for d in reversed(sh):
            v = [v[i:i + d] for i in range(0, len(v), d)]
        return Obj(S, S.un(v[0]))

    combos = [(PROJ[0], "none"), (PROJ[0], "Brown"), (PROJ[0], "ABC"), (PROJ[1], "Brown"), (PROJ[2], "none")]
    if R.thorough:
        combos = [(k, l) for k in PROJ for l in CLS]
    for kind, lens in combos:
        base = "%s, lens %s" % (SHORT[kind], lens)

        def cam_fns(S):
            p, o, k = P(S), O(S), coef(S, lens)
            cam = mk(S, kind, lens, p, o, k)
            P3, p3, UV, uv = pts(S), S.arr(point3(S)), pix(S), S.arr(pixel(S))
            UV2 = pix(S, tag="b")
            Zv = S.arr([S.f("Z0", -5, 5), S.f("Z1", -5, 5)])
            go = lambda *a, **kw: pure(R, S, *a, cam=cam, **kw)
            for hide in (True, False):
                go("imageFromSpace(hide=%s)" % hide, cam.imageFromSpace, [P3], dict(hide_backpoints=hide))
            go("imageFromSpace, one point", cam.imageFromSpace, [p3])
            go("imageFromSpace, lists", cam.imageFromSpace, [lst(S, P3)])
            for n in (False, True):
                go("getRay(normed=%s)" % n, cam.getRay, [UV], dict(normed=n))
            go("getRay, one point", cam.getRay, [uv])
            go("getRay, lists", cam.getRay, [lst(S, UV)])
            for c in "XYZD":
                go("spaceFromImage, %s per point" % c, cam.spaceFromImage, [UV], {c: Zv})
                go("spaceFromImage, one %s" % c, cam.spaceFromImage, [UV], {c: S.f("c", 1, 30)})
            go("spaceFromImage, lists", cam.spaceFromImage, [lst(S, UV)])
            go("spaceFromImage, one point", cam.spaceFromImage, [uv])
            go("getObjectHeight", cam.getObjectHeight, [UV, UV2])
            go("getObjectHeight, plane per object", cam.getObjectHeight, [UV, UV2], dict(Z=Zv))
            go("getObjectLength", cam.getObjectLength, [UV, UV2], dict(Z=Zv))
            go("getObjectLength, one", cam.getObjectLength, [uv, S.arr(pixel(S, "b0"))])
            go("getPos", cam.getPos, [])
            go("distanceToHorizon", cam.distanceToHorizon, [])
        R.group("camera functions, " + base, cam_fns, allowed=("LinAlgError",))

        def parts(S):
            p, o, k = P(S), O(S), coef(S, lens)
            cam = mk(S, kind, lens, p, o, k)
            P3, p3, UV, uv = pts(S), S.arr(point3(S)), pix(S), S.arr(pixel(S))
            go = lambda *a, **kw: pure(R, S, *a, cam=cam, **kw)
            pr, so, le = cam.projection, cam.orientation, cam.lens
            for hide in (True, False):
                go("projection.imageFromCamera(hide=%s)" % hide, pr.imageFromCamera, [P3], dict(hide_backpoints=hide))
            go("projection.imageFromCamera, one point", pr.imageFromCamera, [p3])
            go("projection.imageFromCamera, lists", pr.imageFromCamera, [lst(S, P3)])
            for n in (False, True):
                go("projection.getRay(normed=%s)" % n, pr.getRay, [UV], dict(normed=n))
            go("projection.getRay, one point", pr.getRay, [uv])
            go("projection.getRay, lists", pr.getRay, [lst(S, UV)])
            go("getFieldOfView", pr.getFieldOfView, [])
            go("focallengthFromFOV", pr.focallengthFromFOV, [], dict(view_x=S.f("vx", 10, 120)))
            go("imageFromFOV", pr.imageFromFOV, [], dict(view_y=S.f("vy", 10, 120)))
            go("cameraFromSpace", so.cameraFromSpace, [P3])
            go("cameraFromSpace, one point", so.cameraFromSpace, [p3])
            go("cameraFromSpace, lists", so.cameraFromSpace, [lst(S, P3)])
            for d in (False, True):
                go("spaceFromCamera(direction=%s)" % d, so.spaceFromCamera, [P3], dict(direction=d))
                go("spaceFromCamera(direction=%s), lists" % d, so.spaceFromCamera, [lst(S, P3)], dict(direction=d))
            alias = lens != "none"       # without distortion the positions are handed through
            for f in ("distortedFromImage", "imageFromDistorted"):
                go("lens.%s" % f, S.get(le, f), [UV], alias=alias)
                go("lens.%s, one point" % f, S.get(le, f), [uv], alias=alias)
                go("lens.%s, lists" % f, S.get(le, f), [lst(S, UV)], alias=alias, twice=alias)
        R.group("parts, " + base, parts, allowed=("LinAlgError",))

        def images(S):
            cam = small(S, kind, lens)
            E = S.un([-3, 1, 40, 42])
            go = lambda *a, **kw: pure(R, S, *a, cam=cam, **kw)
            go("getTopViewOfImage", cam.getTopViewOfImage, [img(S)], dict(extent=Obj(S, E), scaling=1))
            go("undistortImage", cam.undistortImage, [img(S, "c", ch=3)], dict(extent=Obj(S, S.un([1, 4, 0, 2])), scaling=1))
            go("undistortImage, whole", cam.undistortImage, [img(S)])
            go("getImageBorder", cam.getImageBorder, [])
            go("getCameraCone", cam.getCameraCone, [])
            go("getCameraCone on the ground", cam.getCameraCone, [True])
            go("getImageHorizon", cam.getImageHorizon, [S.arr([T.const(1), T.const(2)])])
            go("getImageHorizon, default positions", cam.getImageHorizon, [])
            go("generateLUT", cam.generateLUT, [])
        R.group("images, " + base, images, allowed=("LinAlgError",))

    def gps_(S):
        cam = camera(S)[0]
        S.call(cam.setGPSpos, S.f("lat", -80, 80), S.f("lon", -170, 170))
        go = lambda *a, **kw: pure(R, S, *a, cam=cam, **kw)
        P3, p3 = pts(S), S.arr(point3(S))
        G3 = S.arr([[S.f("la%d" % i, -80, 80), S.f("lo%d" % i, -170, 170), S.f("h%d" % i, 0, 30)] for i in range(2)])
        G2 = S.arr([[S.f("la%d" % i, -80, 80), S.f("lo%d" % i, -170, 170)] for i in range(2)])
        H3 = S.arr([[S.f("lb%d" % i, -80, 80), S.f("lc%d" % i, -170, 170), S.f("hb%d" % i, 0, 30)] for i in range(2)])
        go("gpsFromSpace", cam.gpsFromSpace, [P3])
        go("gpsFromSpace, one", cam.gpsFromSpace, [p3])
        go("spaceFromGPS", cam.spaceFromGPS, [G3])
        go("spaceFromGPS, lat lon", cam.spaceFromGPS, [G2])
        go("gpsFromImage", cam.gpsFromImage, [pix(S)])
        go("imageFromGPS", cam.imageFromGPS, [G3])
        for f in ("getDistance", "getBearing"):
            go(f, S.ct(f), [G3, H3])
            go(f + ", lists", S.ct(f), [lst(S, G3), lst(S, H3)])
            go(f + ", lat lon", S.ct(f), [G2, G2])
        go("moveDistance", S.ct("moveDistance"), [G3, S.arr([S.f("d0", 1, 1e5), S.f("d1", 1, 1e5)]), S.arr([S.f("b0", -170, 170), S.f("b1", -170, 170)])])
        go("moveDistance, one", S.ct("moveDistance"), [G2, S.f("d0", 1, 1e5), S.f("b0", -170, 170)])
        go("gps.spaceFromGPS", S.sub("gps", "spaceFromGPS"), [G3, S.arr([S.f("lat", -80, 80), S.f("lon", -170, 170)])])
        go("gps.gpsFromSpace", S.sub("gps", "gpsFromSpace"), [P3, S.arr([S.f("lat", -80, 80), S.f("lon", -170, 170)])])
        go("splitGPS", S.sub("gps", "splitGPS"), [G3], alias=False)
    R.group("GPS functions", gps_, allowed=("LinAlgError",))

    def rays(S):
        go = lambda *a, **kw: pure(R, S, *a, **kw)
        r = lambda n: S.sub("ray", n)
        def v(tag, n=None, lo=-5, hi=5):
            if n is None:
                return S.arr(point3(S, tag, lo, hi))
            return S.arr([point3(S, tag + str(i), lo, hi) for i in range(n)])
        tri = S.arr([point3(S, "t%d" % i) for i in range(3)])
        tris = S.arr([[point3(S, "t%d%d" % (j, i)) for i in range(3)] for j in range(2)])
        go("ray_intersect_triangle", r("ray_intersect_triangle"), [v("o"), v("d"), tri])
        go("ray_intersect_triangle, batch", r("ray_intersect_triangle"), [v("o", 2), v("d", 2), tris])
        go("ray_intersect_triangle, planes", r("ray_intersect_triangle"), [v("o"), v("d", 2), tris], dict(use_planes=True))
        for f in ("intersectionOfTwoLines", "distanceOfTwoLines"):
            go(f, r(f), [v("p"), v("v"), v("q"), v("w")])
            go(f + ", batch", r(f), [v("p"), v("v", 2), v("q"), v("w", 2)])
        go("distanceLinePoint", r("distanceLinePoint"), [v("p"), v("v", 2), v("q", 2)])
        go("getClosestPointFromLine", r("getClosestPointFromLine"), [v("p"), v("v"), v("q")])
        go("getClosestPointFromLine, batch", r("getClosestPointFromLine"), [v("p"), v("v", 2), v("q", 2)])
        go("areaOfTriangle", r("areaOfTriangle"), [tri])
        go("areaOfTriangle, batch", r("areaOfTriangle"), [tris])
        q = S.arr([[[S.f("q%d%d%s" % (j, i, c), -5, 5) for c in "xy"] for i in range(4)] for j in range(2)])
        go("areaOfQuadrilateral", r("areaOfQuadrilateral"), [q])
        go("extrudeLine", r("extrudeLine"), [Obj(S, S.un([[S.f("ex%d" % i, -5, 5), S.f("ey%d" % i, -5, 5)] for i in range(3)])), 0, 2])
    R.group("ray functions", rays, allowed=("LinAlgError",))

    def mesh(S):
        cam = camera(S)[0]
        tri = S.arr([point3(S, "t%d" % i) for i in range(3)])
        pure(R, S, "spaceFromImage on a mesh", cam.spaceFromImage, [pix(S)], dict(mesh=tri), cam=cam)
    R.group("mesh", mesh, allowed=("LinAlgError",))

    def group(S):
        p, o, o2 = P(S), O(S), O(S, "B")
        pr = S.ct("RectilinearProjection")(**p.kw())
        a, b = orient(S, o=o)[0], orient(S, o=o2)[0]
        g = S.ct("CameraGroup")(pr, S.un([a, b]))
        UV, UV2 = pix(S), pix(S, tag="b")
        for i in range(2):
            cam = g[i]
            pure(R, S, "imagesFromSpace (camera %d)" % i, g.imagesFromSpace, [pts(S)], cam=cam)
            pure(R, S, "spaceFromImages (camera %d)" % i, g.spaceFromImages, [UV, UV2], cam=cam)
            pure(R, S, "discanteBetweenRays (camera %d)" % i, g.discanteBetweenRays, [UV, UV2], cam=cam)
            pure(R, S, "pointCorrespondenceError (camera %d)" % i, g.pointCorrespondenceError, [UV, UV2], cam=cam)
            pure(R, S, "getBaseline (camera %d)" % i, g.getBaseline, [], cam=cam)
    R.group("camera group", group, allowed=("LinAlgError",))

    def info(S):
        p, o, k = P(S), O(S), {}
        o.el, o.tilt = S.f("elI", 10, 20), S.f("tiltI", 20, 60)
        for name in ("addObjectHeightInformation", "addObjectLengthInformation", "addLandmarkInformation", "addHorizonInformation"):
            cam = mk(S, "RectilinearProjection", "none", p, o, k)
            UV, UV2 = pix(S), pix(S, tag="b")
            if name == "addLandmarkInformation":
                args = [UV, pts(S), S.arr([T.const(3), T.const(3), T.const(5)])]
            elif name == "addHorizonInformation":
                S.set(cam, "image_width_px", 4)
                S.set(cam, "image_height_px", 3)
                args = [S.arr([[T.const(1), S.f("hy0", 0, 3)], [T.const(2), S.f("hy1", 0, 3)]]), 10]
            else:
                args = [UV, UV2, S.f("ht", 0.5, 2), 0.1]
            before = [deep(S, a) for a in args]
            S.call(S.get(cam, name), *args)
            for i, (b, a) in enumerate(zip(before, args)):
                same(R, S, "%s: argument %d unchanged" % (name, i + 1), b, deep(S, a))
            pb = {q: x_(v) for q, v in params(S, cam).items()}
            l1 = S.call(cam.getLogProbability)
            l2 = S.call(cam.getLogProbability)
            R.eq("%s: probability is the same again" % name, l2, l1)
            for i, (b, a) in enumerate(zip(before, args)):
                same(R, S, "%s: argument %d unchanged by the evaluation" % (name, i + 1), b, deep(S, a))
            pa = params(S, cam)
            ks = [q for q in sorted(pb) if pb[q] is not None]
            R.eq("%s: camera parameters unchanged by the evaluation" % name, [x_(pa[q]) for q in ks], [pb[q] for q in ks])
    R.group("fit information", info, allowed=("LinAlgError",))
