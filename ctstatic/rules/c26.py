"""Measurements: heights and lengths of objects, horizon, image border, camera cone, area of pixels and errors of correspondences are
interpreted abstractly. Image positions are built from symbolic true objects with the documented projection, so that the measured
value is known by construction; the other helpers are compared with their geometric definitions."""
from .common import *
from .c10 import mk, coef
from .c19 import sub3

RECT = "RectilinearProjection"


def run(R):
    def front(S, o, tag, depth=(20, 100)):
        """a symbolic space point in front of the camera"""
        pc = [S.f("a" + tag, -12, 12), S.f("b" + tag, -10, 10), x(-1) * S.f("d" + tag, *depth)]
        return ref_space_from_camera(o, pc)

    def im(kind, p, o, pt):
        return ref_image(kind, ref_camera_from_space(o, pt), p)

    def height(kind):
        def go(S):
            p, o = P(S), O(S)
            cam = mk(S, kind, "none", p, o, {})
            f = [front(S, o, str(i)) for i in range(2)]
            H = [S.f("H%d" % i, 0.3, 4) for i in range(2)]
            top = [[a[0], a[1], a[2] + h] for a, h in zip(f, H)]
            ahead = [ref_camera_from_space(o, t)[2] < -1 for t in top]
            uf, ut = [im(kind, p, o, a) for a in f], [im(kind, p, o, a) for a in top]
            kw = dict(assume=ahead, rel=1e-5)
            g = cam.getObjectHeight
            R.eq("one object", S.call(g, S.arr(uf[0]), S.arr(ut[0]), Z=f[0][2]), H[0], **kw)
            R.eq("two objects", S.call(g, S.arr(uf), S.arr(ut), Z=S.arr([f[0][2], f[1][2]])), H, **kw)
            flat = [f[0], [f[1][0], f[1][1], f[0][2]]]
            top2 = [[a[0], a[1], a[2] + h] for a, h in zip(flat, H)]
            ah = [ref_camera_from_space(o, t)[2] < -1 for t in flat + top2]
            R.eq("two objects on one plane", S.call(g, S.arr([im(kind, p, o, a) for a in flat]), S.arr([im(kind, p, o, a) for a in top2]), Z=f[0][2]), H, assume=ah, rel=1e-5)
            R.eq("lists", S.call(g, S.un([S.un(u) for u in uf]), S.un([S.un(u) for u in ut]), S.un([f[0][2], f[1][2]])), H, **kw)
            low = [f[0][0], f[0][1], f[0][2] - H[0]]
            R.eq("object hanging down", S.call(g, S.arr(uf[0]), S.arr(im(kind, p, o, low)), Z=f[0][2]), x(0) - H[0],
                 assume=[ref_camera_from_space(o, low)[2] < -1], rel=1e-5)
        return go

    def ground(S, o, p, kind, tag=""):
        """a symbolic point on the plane Z=0 in front of the camera"""
        q = [S.f("gx" + tag, -200, 200), S.f("gy" + tag, -200, 200), x(0)]
        return q, ref_camera_from_space(o, q)[2] < -5

    def floor_(kind):
        def go(S):
            p, o = P(S), O(S)
            cam = mk(S, kind, "none", p, o, {})
            a, ca = ground(S, o, p, kind, "1")
            h = S.f("H", 0.3, 4)
            b = [a[0], a[1], h]
            R.eq("height on the ground, plane not given", S.call(cam.getObjectHeight, S.arr(im(kind, p, o, a)), S.arr(im(kind, p, o, b))), h,
                 assume=[ca, ref_camera_from_space(o, b)[2] < -5], rel=1e-5)
            c, cc = ground(S, o, p, kind, "2")
            R.eq("length on the ground, plane not given", S.call(cam.getObjectLength, S.arr(im(kind, p, o, a)), S.arr(im(kind, p, o, c))), sqrt(dist2(a, c)),
                 assume=[ca, cc], rel=1e-5)
        return go

    def length(kind):
        def go(S):
            p, o = P(S), O(S)
            cam = mk(S, kind, "none", p, o, {})
            f = [front(S, o, "f%d" % i) for i in range(2)]
            b = [front(S, o, "b%d" % i) for i in range(2)]
            g = cam.getObjectLength
            # both ends on one plane
            b = [[q[0], q[1], a[2]] for q, a in zip(b, f)]
            ah = [ref_camera_from_space(o, t)[2] < -1 for t in b]
            L = [sqrt(dist2(q, a)) for q, a in zip(b, f)]
            uf, ub = [im(kind, p, o, a) for a in f], [im(kind, p, o, a) for a in b]
            kw = dict(assume=ah, rel=1e-5)
            R.eq("one object", S.call(g, S.arr(uf[0]), S.arr(ub[0]), Z=f[0][2]), L[0], **kw)
            R.eq("ends exchanged", S.call(g, S.arr(ub[0]), S.arr(uf[0]), Z=f[0][2]), L[0], **kw)
            R.eq("two objects", S.call(g, S.arr(uf), S.arr(ub), Z=S.arr([f[0][2], f[1][2]])), L, **kw)
            R.eq("no extent", S.call(g, S.arr(uf[0]), S.arr(uf[0]), Z=f[0][2]), 0)
        return go
    for kind in PROJ:
        R.group("object height, " + SHORT[kind], height(kind))
        R.group("object length, " + SHORT[kind], length(kind))
        R.group("objects on the ground, " + SHORT[kind], floor_(kind))

    def centre(S):
        """objects straight ahead of a camera that looks north (the default heading): their viewing rays never change X"""
        for head in (0.0,):
            p, o = P(S), O(S)
            o.roll, o.head = x(0), x(head)
            o.tilt = S.f("tiltc", 50, 85)
            cam = mk(S, RECT, "none", p, o, {})
            s = x(S.f("dist", 20, 90))
            dx, dy = (0, 1)
            f = [x(o.x) + s * dx, x(o.y) + s * dy, x(0)]
            H = S.f("H", 0.3, 4)
            t = [f[0], f[1], x(H)]
            v = [im(RECT, p, o, q)[1] for q in (f, t)]
            R.eq("height, heading %d" % head, S.call(cam.getObjectHeight, S.arr([p.cx, v[0]]), S.arr([p.cx, v[1]])), H,
                 assume=[ref_camera_from_space(o, f)[2] < -1, ref_camera_from_space(o, t)[2] < -1], rel=1e-5)
    R.group("objects in the image centre", centre)

    def shapes(S):
        p, o = P(S), O(S)
        cam = mk(S, RECT, "none", p, o, {})
        for n in (1, 3):
            us, vs = [pixel(S, "f%d" % i) for i in range(n)], [pixel(S, "h%d" % i) for i in range(n)]
            for name in ("getObjectHeight", "getObjectLength"):
                g = S.get(cam, name)
                R.eq("%s of %d" % (name, n), S.call(g, S.arr(us), S.arr(vs)), [vec(S, S.call(g, S.arr(a), S.arr(b)))[0] for a, b in zip(us, vs)])
    R.group("batches", shapes)

    def horizon(S):
        p, o = P(S), O(S)
        o.el = S.f("el", 1, 1000)
        cam = mk(S, RECT, "none", p, o, {})
        RE = 6371e3
        R.eq("tangent to the earth", S.call(cam.distanceToHorizon), sqrt(x(o.el) * o.el + x(o.el) * 2 * RE), rel=2e-4)
    R.group("distance to the horizon", horizon)

    def small(S, kind, w=3, h=4, lens="none"):
        """a camera with a small image, so that rows and columns are enumerated"""
        p, o = P(S), O(S)
        p.fx, p.fy = S.f("fxs", 2, 6), S.f("fys", 2, 6)
        p.cx, p.cy = S.f("cxs", 0.2, w - 0.2), S.f("cys", 0.2, h - 0.2)
        p.w, p.h = w, h
        return mk(S, kind, lens, p, o, {}), p, o

    def rz(kind, p, o, uv):
        """z component of the normed viewing ray in space"""
        r = ref_ray(kind, uv, p)
        n = norm(r)
        return ref_space_from_camera(o, [c / n for c in r], direction=True)

    def image_horizon(kind):
        def go(S):
            cam, p, o = small(S, kind)
            d = S.call(cam.distanceToHorizon)
            D = vec(S, d)[0]

            def row(u):
                best, arg = None, None
                for v in range(p.h):
                    z = absx(x(o.el) + D * rz(kind, p, o, [u, v])[2])
                    if best is None:
                        best, arg = z, x(v)
                    else:
                        arg = ite(z < best, x(v), arg)
                        best = ite(z < best, z, best)
                return arg
            R.eq("default columns", S.call(cam.getImageHorizon), [[0, row(0)], [1.5, row(1.5)], [3, row(3)]])
            u, u2 = S.f("u", 0, 3), S.f("u2", 0, 3)
            R.eq("one column", S.call(cam.getImageHorizon, u), [u, row(u)])
            R.eq("columns as list", S.call(cam.getImageHorizon, S.un([u2, u])), [[u2, row(u2)], [u, row(u)]])
            R.eq("columns as array", S.call(cam.getImageHorizon, S.arr([u])), [[u, row(u)]])
        return go
    for kind in PROJ:
        R.group("horizon in the image, " + SHORT[kind], image_horizon(kind))

    def level(S):
        """a level view has the horizon in the row of the horizontal ray"""
        p, o = P(S), O(S)
        p.fx, p.fy, p.w, p.h = S.f("fxs", 4, 9), S.f("fys", 4, 9), 4, 6
        p.cx, p.cy = S.f("cxs", 1, 3), S.f("cys", 1, 5)
        o.roll, o.tilt = x(0), S.f("tiltl", 85, 95)
        o.el = S.f("ell", 1, 30)
        cam = mk(S, RECT, "none", p, o, {})
        # image row of the horizontal direction: tan(90 - tilt) * fy above the principal point
        t = rad(x(o.tilt) - 90)
        v = x(p.cy) + tan(t) * p.fy
        got = vec(S, S.call(cam.getImageHorizon, S.un([0, 2.5])))
        inside = [v > 0, v < 5]
        for c, y in (("left edge", got[1]), ("centre", got[3])):
            R.true("row of the horizontal view, " + c, absx(y - v) < 0.6, assume=inside)
    R.group("horizon of a level view", level)

    def border(S):
        for w, h in ((3, 2), (2, 4)):
            cam, p, o = small(S, RECT, w, h)
            for res in (1, 2, 0.5):
                want = []
                n = lambda a: range(int(-(-a // res)))
                want += [[0, i * res] for i in n(h)] + [[i * res, h] for i in n(w)] + [[w, h - i * res] for i in n(h)] + [[w - i * res, 0] for i in n(w)]
                got = S.call(cam.getImageBorder) if res == 1 else S.call(cam.getImageBorder, resolution=res)
                R.eq("%d x %d pixel, every %s pixel" % (w, h, res), got, want)
    R.group("border of the image", border)

    def cone(kind):
        def go(S):
            cam, p, o = small(S, kind, 3, 2)
            w, h = 3, 2
            nan = [X(T.NAN)] * 3
            t = o.t()

            def at(uv, D):
                return [a + b * D for a, b in zip(t, rz(kind, p, o, uv))]
            D = S.f("D", 0.5, 20)
            for label, kw, d in (("distance 1", {}, x(1)), ("any distance", dict(D=D), x(D))):
                c = [at(uv, d) for uv in ([0, h], [w, h], [w, 0], [0, 0], [0, h])]
                got = rows(S, S.call(cam.getCameraCone, **kw))
                R.eq(label + ": border", [v for r in got[:5] for v in r], [v for r in c for v in r])
                lines = got[5:]
                R.true(label + ": separated lines", len(lines) % 3 == 0 and len(lines) >= 12)
                ends = []
                for i in range(0, len(lines) // 3):
                    R.eq("%s: line %d is separated" % (label, i), lines[3 * i], nan)
                    R.eq("%s: line %d starts at the camera" % (label, i), lines[3 * i + 1], t)
                    ends.append(lines[3 * i + 2])
                for k, corner in enumerate(c[:4]):
                    R.eq("%s: line to corner %d" % (label, k), ends[k], corner)
        return go
    for kind in PROJ:
        R.group("cone, " + SHORT[kind], cone(kind))

    def cone_ground(S):
        cam, p, o = small(S, RECT, 3, 2)
        b = [[0, 0], [0, 1], [0, 2], [1, 2], [2, 2], [3, 2], [3, 1], [3, 0], [2, 0], [1, 0]]
        got = rows(S, S.call(cam.getCameraCone, project_to_ground=True))
        g = [vec(S, S.call(cam.spaceFromImage, S.arr(q), Z=0)) for q in b]
        R.eq("border on the ground", [v for r in got[:10] for v in r], [v for r in g for v in r])
        t = o.t()
        n = 10
        for k in (0, 2, 5, 7):
            R.eq("line to corner %d" % k, got[n + 1] + got[n + 2], t + g[k])
            n += 3
    R.group("cone on the ground", cone_ground)

    def lut(kind):
        def go(S):
            w, h = 3, 3
            cam, p, o = small(S, kind, w, h)

            def area(u, v, undef):
                q = []
                ok = None
                for du, dv in ((-.5, -.5), (.5, -.5), (.5, .5), (-.5, .5)):
                    d = rz(kind, p, o, [u + du, v + dv])
                    k = (x(0) - o.el) / d[2]
                    ok = T.land(ok, k > 0) if ok is not None else (k > 0)
                    q.append([a + b * k for a, b in zip(o.t()[:2], d)])
                s = x(0)
                for i in range(4):
                    s = s + q[i][0] * q[(i + 1) % 4][1] - q[(i + 1) % 4][0] * q[i][1]
                return ite(ok, absx(s) / 2, x(undef))
            R.eq("column", S.call(cam.generateLUT), [area(w / 2, v, 0) for v in range(h)], rel=1e-5)
            u = S.f("undef", -5, -1)
            R.eq("column, own value for undefined", S.call(cam.generateLUT, undef_value=u), [area(w / 2, v, u) for v in range(h)], rel=1e-5)
            R.eq("whole image", S.call(cam.generateLUT, whole_image=True, undef_value=u), [[area(c, v, u) for c in range(w)] for v in range(h)], rel=1e-5)
        return go
    for kind in PROJ if R.thorough else PROJ[:1]:
        R.group("area of pixels, " + SHORT[kind], lut(kind))

    def pos(S):
        p, o = P(S), O(S)
        cam = mk(S, RECT, "none", p, o, {})
        R.eq("position", S.call(cam.getPos), o.t())
    R.group("camera position", pos)

    def epipolar(S):
        p, o, o2 = P(S), O(S), O(S, "B")
        g = S.ct("CameraGroup")(S.ct(RECT)(**p.kw()), S.un([S.ct("SpatialOrientation")(**q.kw()) for q in (o, o2)]))
        n = 2
        a, b = [pixel(S, "a%d" % i) for i in range(n)], [pixel(S, "b%d" % i) for i in range(n)]

        def dist(oa, ob, ua, ub):
            """distance of ub from the image of ua's viewing ray"""
            r = ref_space_from_camera(oa, ref_ray(RECT, ua, p), direction=True)
            q = [im(RECT, p, ob, [c + d * s for c, d in zip(oa.t(), r)]) for s in (1, 2)]
            e = [q[1][0] - q[0][0], q[1][1] - q[0][1]]
            m = [x(ub[0]) - q[0][0], x(ub[1]) - q[0][1]]
            return absx(e[0] * m[1] - e[1] * m[0]) / sqrt(e[0] * e[0] + e[1] * e[1])
        r = S.I.unpack(S.call(g.pointCorrespondenceError, S.arr(a), S.arr(b)).v, 2)
        R.eq("second image", Obj(S, r[0]), [dist(o, o2, u, v) for u, v in zip(a, b)], rel=1e-5)
        R.eq("first image", Obj(S, r[1]), [dist(o2, o, v, u) for u, v in zip(a, b)], rel=1e-5)
        # true correspondences have no error
        pts = [front(S, o, "t%d" % i) for i in range(n)]
        ta, tb = [im(RECT, p, o, q) for q in pts], [im(RECT, p, o2, q) for q in pts]
        r = S.I.unpack(S.call(g.pointCorrespondenceError, S.arr(ta), S.arr(tb)).v, 2)
        for k in range(2):
            for i, v in enumerate(vec(S, Obj(S, r[k]))):
                R.true("true correspondence %d, direction %d" % (i, k), T.lor((v < 1e-3).t if isinstance(v < 1e-3, X) else (v < 1e-3), T.isnan(v.t)),
                       assume=[ref_camera_from_space(o2, pts[i])[2] < -1])
    R.group("error of correspondences", epipolar)
