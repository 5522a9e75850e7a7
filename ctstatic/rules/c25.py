"""Turning and scaling the reference frame: rotateSpace of a camera and scaleSpace of a group are interpreted abstractly; images of
the turned (scaled) points after the change must be the images of the original points before it, rays and back projections turn
along, changes add up, and nothing but heading and position changes."""
from .common import *
from .c10 import mk, coef, NAME, INTR, EXTR, COEF


def turn(pt, d):
    """clockwise rotation (seen from above) about the origin"""
    a = rad(d)
    X_, Y_ = x(pt[0]), x(pt[1])
    return [cos(a) * X_ + sin(a) * Y_, cos(a) * Y_ - sin(a) * X_] + [x(c) for c in pt[2:]]


def course(h):
    """a heading as a direction: whole turns do not matter"""
    return [sin(rad(h)), cos(rad(h))]


def run(R):
    def rotate(kind, lens):
        def go(S):
            p, o, k = P(S), O(S), coef(S, lens)
            cam = mk(S, kind, lens, p, o, k)
            pts = [point3(S, str(i)) for i in range(2)]
            uv = pixel(S)
            z = S.f("Z", -3, 0)
            im = S.call(cam.imageFromSpace, S.arr(pts), hide_backpoints=False)
            off, ray = S.I.unpack(S.call(cam.getRay, S.arr(uv)).v, 2)
            off, ray = vec(S, Obj(S, off)), vec(S, Obj(S, ray))
            g = vec(S, S.call(cam.spaceFromImage, S.arr(uv), Z=z))
            d = S.f("delta", -350, 350, specials=(0.0, 90.0, 180.0))
            S.call(cam.rotateSpace, d)
            R.eq("heading", course(cam.heading_deg), course(x(o.head) + d))
            R.eq("position", [cam.pos_x_m, cam.pos_y_m], turn([o.x, o.y], d))
            for n in ("elevation_m", "tilt_deg", "roll_deg"):
                R.eq("%s stays" % n, S.get(cam, n), {"elevation_m": o.el, "tilt_deg": o.tilt, "roll_deg": o.roll}[n])
            for n in INTR:
                R.eq("%s stays" % NAME[n], S.get(cam, NAME[n]), getattr(p, n))
            for n in k:
                R.eq("%s stays" % n, S.get(cam, n), k[n])
            R.eq("image of turned points", S.call(cam.imageFromSpace, S.arr([turn(q, d) for q in pts]), hide_backpoints=False), im)
            o2, r2 = S.I.unpack(S.call(cam.getRay, S.arr(uv)).v, 2)
            R.eq("origin of the viewing ray", Obj(S, o2), turn(off, d))
            R.eq("direction of the viewing ray", Obj(S, r2), turn(ray, d))
            R.eq("back projection", S.call(cam.spaceFromImage, S.arr(uv), Z=z), turn(g, d))
            R.eq("position as array", S.call(cam.getPos), turn([o.x, o.y, o.el], d))
        return go
    for kind in PROJ:
        for lens in ("none", "Brown") if kind == PROJ[0] or R.thorough else ("none",):
            R.group("rotation, %s, lens %s" % (SHORT[kind], lens), rotate(kind, lens))

    def twice(S):
        p, o = P(S), O(S)
        cam = mk(S, PROJ[0], "none", p, o, {})
        a, b = S.f("da", -200, 200), S.f("db", -200, 200)
        S.call(cam.rotateSpace, a)
        S.call(cam.rotateSpace, b)
        R.eq("heading", course(cam.heading_deg), course(x(o.head) + a + b))
        R.eq("position", [cam.pos_x_m, cam.pos_y_m], turn([o.x, o.y], x(a) + b))
        S.call(cam.rotateSpace, x(0) - a - b)
        R.eq("turned back: heading", course(cam.heading_deg), course(o.head))
        R.eq("turned back: position", [cam.pos_x_m, cam.pos_y_m], [o.x, o.y])
        q = S.arr([S.f("qx", 5, 50), S.f("qy", 5, 50), 0])
        one = S.call(cam.imageFromSpace, q, hide_backpoints=False)
        S.call(cam.rotateSpace, 0)
        R.eq("no rotation", S.call(cam.imageFromSpace, q, hide_backpoints=False), one)
        S.call(cam.rotateSpace, 360)
        R.eq("full turn: position", [cam.pos_x_m, cam.pos_y_m], [o.x, o.y])
        R.eq("full turn: image", S.call(cam.imageFromSpace, q, hide_backpoints=False), one)
    R.group("several rotations", twice)

    def own(S):
        """of two cameras only the rotated one changes"""
        p, o, o2 = P(S), O(S), O(S, "B")
        c1, c2 = mk(S, PROJ[0], "none", p, o, {}), mk(S, PROJ[0], "none", p, o2, {})
        q = S.arr(point3(S))
        before = S.call(c2.imageFromSpace, q, hide_backpoints=False)
        S.call(c1.rotateSpace, S.f("d", 5, 200))
        R.eq("image of the other camera", S.call(c2.imageFromSpace, q, hide_backpoints=False), before)
        R.eq("pose of the other camera", [c2.heading_deg, c2.pos_x_m, c2.pos_y_m], [o2.head, o2.x, o2.y])
    R.group("other cameras", own)

    def group(kind, n):
        def go(S):
            p = P(S)
            os_ = [O(S, "ABC"[i]) for i in range(n)]
            g = S.ct("CameraGroup")(S.ct(kind)(**p.kw()), S.un([S.ct("SpatialOrientation")(**o.kw()) for o in os_]))
            pts = [point3(S, str(i)) for i in range(2)]
            im = S.call(g.imagesFromSpace, S.arr(pts))
            im = [rows(S, Obj(S, r)) for r in S.I.iterate(im.v)]
            base = vec(S, S.call(g.getBaseline))[0]
            s = S.f("scale", 0.2, 8)
            S.call(g.scaleSpace, s)
            im2 = S.call(g.imagesFromSpace, S.arr([[x(c) * s for c in q] for q in pts]))
            for i, r in enumerate(S.I.iterate(im2.v)):
                R.eq("camera %d: image of scaled points" % i, Obj(S, r), im[i])
            R.eq("baseline", S.call(g.getBaseline), base * s)
            for i, o in enumerate(os_):
                c = S.call(S.get(g, "__getitem__"), i)
                R.eq("camera %d: position" % i, [c.pos_x_m, c.pos_y_m, c.elevation_m], [x(o.x) * s, x(o.y) * s, x(o.el) * s])
                R.eq("camera %d: angles" % i, [c.tilt_deg, c.roll_deg, c.heading_deg], [o.tilt, o.roll, o.head])
            S.call(g.scaleSpace, x(1) / s)
            R.eq("scaled back: baseline", S.call(g.getBaseline), base)
        return go
    for kind in PROJ:
        R.group("scaling a group, %s" % SHORT[kind], group(kind, 2))
    R.group("scaling a group of three", group(PROJ[0], 3))

    def grotate(S):
        """all cameras of a group turned together keep their images of the turned points and their baseline"""
        p, o, o2 = P(S), O(S), O(S, "B")
        g = S.ct("CameraGroup")(S.ct(PROJ[0])(**p.kw()), S.un([S.ct("SpatialOrientation")(**q.kw()) for q in (o, o2)]))
        q = point3(S)
        im = [rows(S, Obj(S, S.call(c.imageFromSpace, S.arr([q]), hide_backpoints=False).v)) for c in [S.call(S.get(g, "__getitem__"), i) for i in range(2)]]
        base = vec(S, S.call(g.getBaseline))[0]
        d = S.f("delta", -350, 350)
        for i in range(2):
            S.call(S.get(S.call(S.get(g, "__getitem__"), i), "rotateSpace"), d)
        for i in range(2):
            c = S.call(S.get(g, "__getitem__"), i)
            R.eq("camera %d: image of the turned point" % i, S.call(c.imageFromSpace, S.arr([turn(q, d)]), hide_backpoints=False), im[i])
        R.eq("baseline", S.call(g.getBaseline), base)
    R.group("rotating a group", grotate)
