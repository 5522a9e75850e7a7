"""Batches are handled element by element: every function is interpreted abstractly for single inputs and for batches of one,
two, three and four inputs (also as nested lists and as integer arrays, and empty batches where numpy semantics allow) and each
row of the batch result must have the value number of the single result, with the documented shape."""
from .common import *
from .c10 import mk, coef, CLS
from .c14 import result_terms


def call(S, fn, *a, **kw):
    return S.call(fn, *a, **kw) if isinstance(fn, Obj) else fn(*a, **kw)


def lists(S, rows_):
    return Obj(S, S.un([list(r) if isinstance(r, (tuple, list)) else r for r in rows_]))


def batch(R, S, label, fn, args, kw=None, out=None, sizes=(1, 2, 3, 4), per=None, single_shape=None, as_list=True, ints=None, assume=(), pick=None, grid=False):
    """args: [(list of per-element values, batched?)...]; fn is called with arrays"""
    kw = kw or {}
    nmax = max(sizes)
    pick = pick or (lambda r: r)

    def arrs(k, single=None, mode="array"):
        a, q = [], {}
        for target, items in [(a, args), (q, kw)]:
            for it in (items if target is a else items.items()):
                name, (vals, isb) = (None, it) if target is a else it
                if not isb:
                    v = vals
                elif single is not None:
                    e = vals[single]
                    v = S.arr(e) if isinstance(e, (tuple, list)) and mode != "list" else (Obj(S, S.un(list(e))) if isinstance(e, (tuple, list)) else e)
                else:
                    v = lists(S, vals[:k]) if mode == "list" else S.arr(vals[:k], dtype=mode if mode == "int" else "float")
                if target is a:
                    a.append(v)
                else:
                    q[name] = v
        return a, q

    singles = []
    for i in range(nmax):
        a, q = arrs(1, single=i)
        r = pick(call(S, fn, *a, **q))
        if i == 0 and single_shape is not None:
            sh = result_terms(S, r)
            if sh is not None:
                R.true("%s: single result has shape %s" % (label, single_shape), tuple(sh[0]) == tuple(single_shape), detail="shape %s" % (sh[0],))
        singles.append(r)
    for k in sizes:
        a, q = arrs(k)
        want = [S.terms(s) for s in singles[:k]]
        shp = (k,) + tuple(want[0][0])
        w = Obj(S, N.new(S.I, [t for s in want for t in s[1]], shp, "float"))
        R.eq("%s: batch of %d" % (label, k), pick(call(S, fn, *a, **q)), w, assume=assume)
        if as_list and k == 2:
            a, q = arrs(k, mode="list")
            R.eq("%s: nested lists" % label, pick(call(S, fn, *a, **q)), w, assume=assume)
    if grid:
        for gs in ((2, 2), (1, 3)):
            k = gs[0] * gs[1]
            if k > nmax:
                continue
            a, q = arrs(k)
            fold = lambda v: Obj(S, N.new(S.I, list(N.elems(S.I, v.v)), gs + tuple(v.v.shape[1:]), "float"))
            a = [fold(v) if it[1] else v for v, it in zip(a, args)]
            q = {n_: fold(v) if kw[n_][1] else v for n_, v in q.items()}
            want = [S.terms(s) for s in singles[:k]]
            w = Obj(S, N.new(S.I, [t for s in want for t in s[1]], gs + tuple(want[0][0]), "float"))
            R.eq("%s: grid of %dx%d" % (label, gs[0], gs[1]), pick(call(S, fn, *a, **q)), w, assume=assume)
    if as_list:
        a, q = arrs(1, single=0, mode="list")
        R.eq("%s: single as list" % label, pick(call(S, fn, *a, **q)), singles[0], assume=assume)


def integer(R, S, label, fn, vals, kw=None, pick=None):
    """an integer array gives the same answer as the float array of the same numbers"""
    pick = pick or (lambda r: r)
    kw = kw or {}
    arr = lambda v, dt: S.arr(v, dtype=dt)
    want = pick(call(S, fn, *[arr(v, "float") for v in vals], **{k: arr(v, "float") for k, v in kw.items()}))
    got = pick(call(S, fn, *[arr(v, "int") for v in vals], **{k: arr(v, "int") for k, v in kw.items()}))
    R.eq("%s: integer arrays" % label, got, want)


def run(R):
    n = 4
    combos = [(PROJ[0], "none"), (PROJ[0], "Brown"), (PROJ[0], "ABC"), (PROJ[1], "none"), (PROJ[2], "Brown")]
    if R.thorough:
        combos = [(k, l) for k in PROJ for l in CLS]
    snd = lambda S: (lambda r: Obj(S, S.I.unpack(r.v, 2)[1]))
    fst = lambda S: (lambda r: Obj(S, S.I.unpack(r.v, 2)[0]))
    for kind, lens in combos:
        base = "%s, lens %s" % (SHORT[kind], lens)
        hide = (True, False)

        def space(S):
            cam = mk(S, kind, lens, P(S), O(S), coef(S, lens))
            pts = [point3(S, str(i), -60, 60) for i in range(n)]
            ipts = [tuple(S.i("i%s%d" % (c, i), -60, 60) for c in "xyz") for i in range(2)]
            for h in hide:
                batch(R, S, "imageFromSpace(hide=%s)" % h, lambda p: S.call(cam.imageFromSpace, p, hide_backpoints=h), [(pts, True)], single_shape=(2,), grid=True)
                batch(R, S, "projection.imageFromCamera(hide=%s)" % h, lambda p: S.call(cam.projection.imageFromCamera, p, hide_backpoints=h), [(pts, True)], single_shape=(2,), grid=True)
                integer(R, S, "imageFromSpace(hide=%s)" % h, lambda p: S.call(cam.imageFromSpace, p, hide_backpoints=h), [ipts])
                integer(R, S, "projection.imageFromCamera(hide=%s)" % h, lambda p: S.call(cam.projection.imageFromCamera, p, hide_backpoints=h), [ipts])
                integer(R, S, "projection.imageFromCamera(hide=%s), one point" % h, lambda p: S.call(cam.projection.imageFromCamera, p, hide_backpoints=h), [ipts[0]])
            batch(R, S, "cameraFromSpace", cam.orientation.cameraFromSpace, [(pts, True)], single_shape=(3,), grid=True)
            integer(R, S, "cameraFromSpace", cam.orientation.cameraFromSpace, [ipts])
            for d in (False, True):
                batch(R, S, "spaceFromCamera(direction=%s)" % d, lambda p: S.call(cam.orientation.spaceFromCamera, p, direction=d), [(pts, True)], single_shape=(3,), grid=True)
                integer(R, S, "spaceFromCamera(direction=%s)" % d, lambda p: S.call(cam.orientation.spaceFromCamera, p, direction=d), [ipts])
        R.group("space points, " + base, space, allowed=("LinAlgError",))

        def image(S):
            cam = mk(S, kind, lens, P(S), O(S), coef(S, lens))
            px = [pixel(S, str(i)) for i in range(n)]
            px2 = [pixel(S, "b%d" % i) for i in range(n)]
            ipx = [(S.i("iu%d" % i, 1, 3000), S.i("iv%d" % i, 1, 2000)) for i in range(2)]
            for nm in (False, True):
                f = lambda p: S.call(cam.getRay, p, normed=nm)
                batch(R, S, "getRay(normed=%s)" % nm, f, [(px, True)], pick=snd(S), single_shape=(3,), grid=True)
                integer(R, S, "getRay(normed=%s)" % nm, f, [ipx], pick=snd(S))
                integer(R, S, "getRay(normed=%s), one point" % nm, f, [ipx[0]], pick=snd(S))
                R.true("getRay(normed=%s): one common origin" % nm, S.terms(fst(S)(S.call(cam.getRay, S.arr(px[:2]), normed=nm)))[0] == (3,))
                g = lambda p: S.call(cam.projection.getRay, p, normed=nm)
                batch(R, S, "projection.getRay(normed=%s)" % nm, g, [(px, True)], single_shape=(3,), grid=True)
                integer(R, S, "projection.getRay(normed=%s)" % nm, g, [ipx])
            for f in ("distortedFromImage", "imageFromDistorted"):
                batch(R, S, "lens.%s" % f, S.get(cam.lens, f), [(px, True)], single_shape=(2,), as_list=lens != "none", grid=True)
                integer(R, S, "lens.%s" % f, S.get(cam.lens, f), [ipx])
            vals = [S.f("c%d" % i, -30, 30, specials=(0.0,)) for i in range(n)]
            ivals = [S.i("ic%d" % i, 1, 30) for i in range(2)]
            for c in "XYZD":
                v = vals if c != "D" else [S.f("d%d" % i, 1, 30) for i in range(n)]
                batch(R, S, "spaceFromImage(%s common)" % c, cam.spaceFromImage, [(px, True)], {c: (v[0], False)}, single_shape=(3,), grid=True)
                integer(R, S, "spaceFromImage(%s common)" % c, lambda p: S.call(cam.spaceFromImage, p, **{c: ivals[0]}), [ipx])
                # one constraint per point
                want = [S.call(cam.spaceFromImage, S.arr(px[i]), **{c: v[i]}) for i in range(n)]
                for k in (1, 2, 3, 4):
                    w = Obj(S, N.new(S.I, [t for s in want[:k] for t in S.terms(s)[1]], (k, 3), "float"))
                    R.eq("spaceFromImage(%s per point): batch of %d" % (c, k), S.call(cam.spaceFromImage, S.arr(px[:k]), **{c: S.arr(v[:k])}), w)
                w = Obj(S, N.new(S.I, [t for s in want for t in S.terms(s)[1]], (2, 2, 3), "float"))
                R.eq("spaceFromImage(%s per point): grid" % c, S.call(cam.spaceFromImage, S.arr([px[:2], px[2:4]]), **{c: S.arr([v[:2], v[2:4]])}), w)
                R.eq("spaceFromImage(%s per point): integers" % c, S.call(cam.spaceFromImage, S.arr(ipx, dtype="int"), **{c: S.arr(ivals, dtype="int")}),
                     S.call(cam.spaceFromImage, S.arr(ipx), **{c: S.arr(ivals)}))
        R.group("image positions, " + base, image, allowed=("LinAlgError",))

    for kind in PROJ:
        def objects(S):
            cam = mk(S, kind, "none", P(S), O(S), {})
            px = [pixel(S, str(i)) for i in range(n)]
            px2 = [pixel(S, "b%d" % i) for i in range(n)]
            Zs = [S.f("Z%d" % i, -3, 3, specials=(0.0,)) for i in range(n)]
            for f in ("getObjectHeight", "getObjectLength"):
                batch(R, S, f, S.get(cam, f), [(px, True), (px2, True)], single_shape=(), grid=True)
                want = [S.call(S.get(cam, f), S.arr(px[i]), S.arr(px2[i]), Z=Zs[i]) for i in range(n)]
                for k in (1, 2, 3):
                    R.eq("%s, plane per object: batch of %d" % (f, k), S.call(S.get(cam, f), S.arr(px[:k]), S.arr(px2[:k]), Z=S.arr(Zs[:k])), want[:k])
                R.expect_raise("%s: different numbers of points" % f, S, lambda: S.call(S.get(cam, f), S.arr(px[:2]), S.arr(px2[:3])), ("AssertionError", "ValueError"))
        R.group("objects, " + SHORT[kind], objects, allowed=("LinAlgError",))

    def shapes(S):
        """inputs of the wrong dimension are rejected"""
        cam = camera(S)[0]
        for name, w in (("imageFromSpace", 2), ("imageFromSpace", 4), ("getRay", 3), ("spaceFromImage", 3), ("spaceFromImage", 1)):
            v = [S.f("w%d" % i, 1, 30) for i in range(w)]
            R.expect_raise("%s with %d coordinates" % (name, w), S, lambda: S.call(S.get(cam, name), S.arr(v)), ("AssertionError", "ValueError"))
            R.expect_raise("%s with a batch of %d coordinates" % (name, w), S, lambda: S.call(S.get(cam, name), S.arr([v, v])), ("AssertionError", "ValueError"))
    R.group("wrong dimensions", shapes, allowed=("LinAlgError",))

    def gps_(S):
        cam = camera(S)[0]
        S.call(cam.setGPSpos, S.f("lat", -80, 80), S.f("lon", -170, 170))
        pts = [point3(S, str(i), -5000, 5000) for i in range(n)]
        g3 = [(S.f("la%d" % i, -80, 80), S.f("lo%d" % i, -170, 170), S.f("h%d" % i, 0, 3000)) for i in range(n)]
        h3 = [(S.f("lb%d" % i, -80, 80), S.f("lc%d" % i, -170, 170), S.f("hb%d" % i, 0, 3000)) for i in range(n)]
        batch(R, S, "gpsFromSpace", cam.gpsFromSpace, [(pts, True)], single_shape=(3,), as_list=False)
        batch(R, S, "spaceFromGPS", cam.spaceFromGPS, [(g3, True)], single_shape=(3,), as_list=False)
        batch(R, S, "spaceFromGPS, lat lon", cam.spaceFromGPS, [([g[:2] for g in g3], True)], single_shape=(3,), as_list=False)
        batch(R, S, "imageFromGPS", cam.imageFromGPS, [(g3, True)], single_shape=(2,), as_list=False)
        px = [pixel(S, str(i)) for i in range(n)]
        batch(R, S, "gpsFromImage", cam.gpsFromImage, [(px, True)], single_shape=(3,), as_list=False)
        for f in ("getDistance", "getBearing"):
            batch(R, S, f, S.ct(f), [(g3, True), (h3, True)], single_shape=())
            batch(R, S, f + ", lat lon", S.ct(f), [([g[:2] for g in g3], True), ([h[:2] for h in h3], True)], single_shape=())
            batch(R, S, f + ", one start", S.ct(f), [(S.arr(g3[0]), False), (h3, True)], single_shape=())
        d = [S.f("d%d" % i, 1, 1e5) for i in range(n)]
        b = [S.f("b%d" % i, -170, 170) for i in range(n)]
        batch(R, S, "moveDistance", S.ct("moveDistance"), [(g3, True), (d, True), (b, True)], single_shape=(3,))
        batch(R, S, "moveDistance, lat lon", S.ct("moveDistance"), [([g[:2] for g in g3], True), (d, True), (b, True)], single_shape=(2,))
        batch(R, S, "moveDistance, one distance and bearing", S.ct("moveDistance"), [([g[:2] for g in g3], True), (d[0], False), (b[0], False)], single_shape=(2,))
        batch(R, S, "moveDistance, one start", S.ct("moveDistance"), [(S.arr(g3[0]), False), (d, True), (b, True)], single_shape=(3,))
    R.group("GPS", gps_, allowed=("LinAlgError",))

    def rays(S):
        r = lambda q: S.sub("ray", q)
        v = lambda tag: [point3(S, tag + str(i), -5, 5) for i in range(n)]
        p, q = S.arr(point3(S, "p", -5, 5)), S.arr(point3(S, "q", -5, 5))
        for f in ("intersectionOfTwoLines", "distanceOfTwoLines"):
            batch(R, S, f, r(f), [(p, False), (v("v"), True), (q, False), (v("w"), True)], single_shape=(3,) if f[0] == "i" else (), as_list=False)
        batch(R, S, "distanceLinePoint", r("distanceLinePoint"), [(p, False), (v("v"), True), (v("a"), True)], single_shape=(), as_list=False)
        batch(R, S, "getClosestPointFromLine", r("getClosestPointFromLine"), [(p, False), (v("v"), True), (v("a"), True)], single_shape=(3,), as_list=False)
        batch(R, S, "areaOfTriangle", r("areaOfTriangle"), [([[point3(S, "t%d%d" % (i, j)) for j in range(3)] for i in range(n)], True)], single_shape=(), as_list=False)
        batch(R, S, "areaOfQuadrilateral", r("areaOfQuadrilateral"),
              [([[(S.f("qx%d%d" % (i, j), -5, 5), S.f("qy%d%d" % (i, j), -5, 5)) for j in range(4)] for i in range(n)], True)], single_shape=())
        tri = S.arr([[point3(S, "tt%d%d" % (i, j)) for j in range(3)] for i in range(2)])
        o = v("o")
        for up in (False, True):
            f = lambda a, b: S.call(r("ray_intersect_triangle"), a, b, tri, use_planes=up)
            batch(R, S, "ray_intersect_triangle(use_planes=%s)" % up, f, [(S.arr(o[0]), False), (v("d"), True)], single_shape=(3,), sizes=(1, 2, 3))
            batch(R, S, "ray_intersect_triangle(use_planes=%s), origins" % up, f, [(o, True), (v("d"), True)], sizes=(1, 2, 3))
    R.group("lines and triangles", rays, allowed=("LinAlgError",))

    def group(S):
        o, o2 = O(S), O(S, "B")
        g = S.ct("CameraGroup")(S.ct("RectilinearProjection")(**P(S).kw()), S.un([orient(S, o=o)[0], orient(S, o=o2)[0]]))
        px = [pixel(S, str(i)) for i in range(n)]
        px2 = [pixel(S, "b%d" % i) for i in range(n)]
        batch(R, S, "spaceFromImages", g.spaceFromImages, [(px, True), (px2, True)], single_shape=(3,))
        batch(R, S, "discanteBetweenRays", g.discanteBetweenRays, [(px, True), (px2, True)], single_shape=())
        for i in range(2):
            batch(R, S, "imagesFromSpace, camera %d" % i, g.imagesFromSpace, [([point3(S, str(j), -60, 60) for j in range(n)], True)],
                  pick=lambda r: Obj(S, list(S.I.iterate(r.v))[i]), single_shape=(2,), grid=True)
        R.expect_raise("spaceFromImages: different numbers of points", S, lambda: S.call(g.spaceFromImages, S.arr(px[:2]), S.arr(px2[:3])), ("AssertionError", "ValueError"))
    R.group("camera group", group, allowed=("LinAlgError",))
