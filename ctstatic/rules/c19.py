"""Lines, triangulation and areas: the functions of the ray module and the stereo methods of CameraGroup are interpreted abstractly
for symbolic lines, points and polygons and compared with the closed-form geometry (closest points of two lines, common
perpendicular, projection on a line, vector area); true correspondences of symbolic cameras triangulate to the symbolic point."""
from .common import *
from .c10 import mk, coef, CLS
from .c16 import gp


def lines(S, tag=""):
    return [[x(c) for c in point3(S, n + tag, -5, 5)] for n in ("p", "v", "q", "w")]


def sub3(a, b):
    return [x(u) - v for u, v in zip(a, b)]


def closest(p, v, q, w):
    w0 = sub3(p, q)
    a, b, c, d, e = dot(v, v), dot(v, w), dot(w, w), dot(v, w0), dot(w, w0)
    D = a * c - b * b
    s, t = (b * e - c * d) / D, (a * e - b * d) / D
    return [u + s * k for u, k in zip(p, v)], [u + t * k for u, k in zip(q, w)]


def middle(p, v, q, w):
    a, b = closest(p, v, q, w)
    return [(u + k) / 2 for u, k in zip(a, b)]


def line_distance(p, v, q, w):
    n = cross(v, w)
    return absx(dot(sub3(q, p), n)) / norm(n)


def skew(v, w):
    n = cross(v, w)
    return [dot(n, n) > 4]


def run(R):
    A = lambda l: S_arr(l)

    def two(S):
        f, g = S.sub("ray", "intersectionOfTwoLines"), S.sub("ray", "distanceOfTwoLines")
        p, v, q, w = lines(S)
        a = skew(v, w)
        arr = S.arr
        R.eq("closest point of two lines", S.call(f, arr(p), arr(v), arr(q), arr(w)), middle(p, v, q, w), assume=a, rel=1e-6)
        R.eq("distance of two lines", S.call(g, arr(p), arr(v), arr(q), arr(w)), line_distance(p, v, q, w), assume=a, rel=1e-6)
        R.eq("exchanged lines have the same closest point", S.call(f, arr(q), arr(w), arr(p), arr(v)), middle(p, v, q, w), assume=a, rel=1e-6)
        R.eq("exchanged lines have the same distance", S.call(g, arr(q), arr(w), arr(p), arr(v)), line_distance(p, v, q, w), assume=a, rel=1e-6)
        s, t = S.f("s", 0.2, 3), S.f("t", -3, -0.2)
        v2, w2 = [k * s for k in v], [k * t for k in w]
        R.eq("the length of the directions does not matter", S.call(f, arr(p), arr(v2), arr(q), arr(w2)), middle(p, v, q, w), assume=a, rel=1e-6)
        R.eq("the length of the directions does not matter for the distance", S.call(g, arr(p), arr(v2), arr(q), arr(w2)), line_distance(p, v, q, w), assume=a, rel=1e-6)
        # lines through one point
        m = [x(c) for c in point3(S, "m", -5, 5)]
        p0, q0 = [k - s * u for k, u in zip(m, v)], [k - t * u for k, u in zip(m, w)]
        R.eq("lines through a point meet there", S.call(f, arr(p0), arr(v), arr(q0), arr(w)), m, assume=a, rel=1e-6)
        R.eq("lines through a point have no distance", x(S.call(g, arr(p0), arr(v), arr(q0), arr(w)).v) + 1, 1, assume=a, rel=1e-6)
        _, v_, _, w_ = lines(S, "b")
        a2 = a + skew(v_, w_)
        R.eq("batch: closest points", S.call(f, arr(p), arr([v, v_]), arr(q), arr([w, w_])), [middle(p, v, q, w), middle(p, v_, q, w_)], assume=a2, rel=1e-6)
        R.eq("batch: distances", S.call(g, arr(p), arr([v, v_]), arr(q), arr([w, w_])), [line_distance(p, v, q, w), line_distance(p, v_, q, w_)], assume=a2, rel=1e-6)
        nan3 = [nan()] * 3
        R.eq("parallel lines have no closest point", S.call(f, arr(p), arr(v), arr(q), arr(v)), nan3, assume=[dot(v, v) > 1])
        R.eq("a parallel pair does not disturb the others", S.call(f, arr(p), arr([v, v_]), arr(q), arr([v, w_])), [nan3, middle(p, v_, q, w_)],
             assume=skew(v_, w_) + [dot(v, v) > 1], rel=1e-6)
        dl = sub3(q, p)
        ref = norm(cross(dl, v)) / norm(v)
        R.eq("distance of parallel lines", S.call(g, arr(p), arr(v), arr(q), arr(v)), ref, assume=[dot(v, v) > 1], rel=1e-6)
        R.eq("distance of opposite parallel lines", S.call(g, arr(p), arr(v), arr(q), arr([-k for k in v])), ref, assume=[dot(v, v) > 1], rel=1e-6)
        R.eq("batch: distance of parallel lines", S.call(g, arr(p), arr([v, v_]), arr(q), arr([v, w_])), [ref, line_distance(p, v_, q, w_)],
             assume=skew(v_, w_) + [dot(v, v) > 1], rel=1e-6)
    R.group("two lines", two)

    def near(S):
        """nearly parallel lines and lines with short direction vectors are lines like all others"""
        f, g = S.sub("ray", "intersectionOfTwoLines"), S.sub("ray", "distanceOfTwoLines")
        p, v, q, u = lines(S)
        _, v_, _, u_ = lines(S, "b")
        for lo, hi, c, name in ((1e-3, 1e-2, 1, "nearly parallel"), (1, 2, 1e-2, "short directions")):
            e = S.f("eps" + name, lo, hi)
            w, w_ = [c * (k + e * l) for k, l in zip(v, u)], [c * (k + e * l) for k, l in zip(v_, u_)]
            vs, vs_ = [c * k for k in v], [c * k for k in v_]
            a = skew(v, u) + skew(v_, u_)
            rel = 1e-4 if lo < 1 else 1e-6
            R.eq("%s: closest point" % name, S.call(f, S.arr(p), S.arr(vs), S.arr(q), S.arr(w)), middle(p, vs, q, w), assume=a, rel=rel)
            R.eq("%s: distance" % name, S.call(g, S.arr(p), S.arr(vs), S.arr(q), S.arr(w)), line_distance(p, vs, q, w), assume=a, rel=rel)
            R.eq("%s: closest points, batch" % name, S.call(f, S.arr(p), S.arr([vs, vs_]), S.arr(q), S.arr([w, w_])), [middle(p, vs, q, w), middle(p, vs_, q, w_)], assume=a, rel=rel)
            R.eq("%s: distances, batch" % name, S.call(g, S.arr(p), S.arr([vs, vs_]), S.arr(q), S.arr([w, w_])), [line_distance(p, vs, q, w), line_distance(p, vs_, q, w_)], assume=a, rel=rel)
        f, g = S.sub("ray", "getClosestPointFromLine"), S.sub("ray", "distanceLinePoint")
        short = [1e-3 * k for k in v]
        a = [dot(v, v) > 1]
        R.eq("short direction: closest point on the line", S.call(f, S.arr(p), S.arr(short), S.arr(q)), [k + dot(sub3(q, p), v) / dot(v, v) * b for k, b in zip(p, v)], assume=a, rel=1e-6)
        R.eq("short direction: distance from the line", S.call(g, S.arr(p), S.arr(short), S.arr(q)), norm(cross(v, sub3(p, q))) / norm(v), assume=a, rel=1e-6)
    R.group("nearly parallel lines and short directions", near)

    def point_(S):
        f, g = S.sub("ray", "getClosestPointFromLine"), S.sub("ray", "distanceLinePoint")
        arr = S.arr
        o, v, q, w = lines(S)
        _, v2, q2, _ = lines(S, "b")
        o2 = [x(c) for c in point3(S, "o2", -5, 5)]
        foot = lambda o, v, q: [a + dot(sub3(q, o), v) / dot(v, v) * b for a, b in zip(o, v)]
        dist = lambda o, v, q: norm(cross(v, sub3(o, q))) / norm(v)
        a = [dot(v, v) > 1, dot(v2, v2) > 1]
        R.eq("closest point on the line", S.call(f, arr(o), arr(v), arr(q)), foot(o, v, q), assume=a, rel=1e-7)
        R.eq("distance from the line", S.call(g, arr(o), arr(v), arr(q)), dist(o, v, q), assume=a, rel=1e-7)
        R.eq("closest point, batch of directions and points", S.call(f, arr(o), arr([v, v2]), arr([q, q2])), [foot(o, v, q), foot(o, v2, q2)], assume=a, rel=1e-7)
        R.eq("closest point, batch of lines", S.call(f, arr([o, o2]), arr([v, v2]), arr([q, q2])), [foot(o, v, q), foot(o2, v2, q2)], assume=a, rel=1e-7)
        R.eq("distance, batch of directions and points", S.call(g, arr(o), arr([v, v2]), arr([q, q2])), [dist(o, v, q), dist(o, v2, q2)], assume=a, rel=1e-7)
        R.eq("distance, batch of lines", S.call(g, arr([o, o2]), arr([v, v2]), arr([q, q2])), [dist(o, v, q), dist(o2, v2, q2)], assume=a, rel=1e-7)
        t = S.f("t", -3, 3)
        on = [k + t * u for k, u in zip(o, v)]
        R.eq("a point on the line is its own closest point", S.call(f, arr(o), arr(v), arr(on)), on, assume=a, rel=1e-6)
        # in the image plane
        oo, vv, qq = o[:2], v[:2], q[:2]
        R.eq("closest point in two dimensions", S.call(f, arr(oo), arr(vv), arr(qq)), foot(oo, vv, qq), assume=[dot(vv, vv) > 1], rel=1e-7)
        R.eq("closest point in two dimensions, batch", S.call(f, arr([oo, o2[:2]]), arr([vv, v2[:2]]), arr([qq, q2[:2]])),
             [foot(oo, vv, qq), foot(o2[:2], v2[:2], q2[:2])], assume=[dot(vv, vv) > 1, dot(v2[:2], v2[:2]) > 1], rel=1e-7)
    R.group("line and point", point_)

    def areas(S):
        f, g = S.sub("ray", "areaOfTriangle"), S.sub("ray", "areaOfQuadrilateral")
        t = [[x(c) for c in point3(S, "t%d" % i, -5, 5)] for i in range(3)]
        u = [[x(c) for c in point3(S, "u%d" % i, -5, 5)] for i in range(3)]

        def area(t):
            if len(t[0]) == 2:
                t = [q + [x(0)] for q in t]
            return norm(cross(sub3(t[1], t[0]), sub3(t[2], t[0]))) / 2
        big = lambda t: [area(t) > 2]
        R.eq("triangle", S.call(f, S.arr(t)), area(t), assume=big(t), rel=1e-6)
        R.eq("triangle in the plane", S.call(f, S.arr([q[:2] for q in t])), area([q[:2] for q in t]), assume=big([q[:2] for q in t]), rel=1e-6)
        R.eq("triangles", S.call(f, S.arr([t, u])), [area(t), area(u)], assume=big(t) + big(u), rel=1e-6)
        q = [[S.f("qx%d" % i, -5, 5), S.f("qy%d" % i, -5, 5)] for i in range(4)]
        r = [[S.f("rx%d" % i, -5, 5), S.f("ry%d" % i, -5, 5)] for i in range(4)]

        def shoe(q):
            s = x(0)
            for i in range(4):
                a, b = q[i], q[(i + 1) % 4]
                s = s + x(a[0]) * b[1] - x(b[0]) * a[1]
            return absx(s) / 2
        R.eq("quadrilateral", S.call(g, S.arr(q)), shoe(q), rel=1e-7)
        R.eq("quadrilaterals", S.call(g, S.arr([q, r])), [shoe(q), shoe(r)], rel=1e-7)
        R.eq("quadrilateral as list", S.call(g, q), shoe(q), rel=1e-7)
        R.eq("quadrilateral, other direction of rotation", S.call(g, S.arr(q[::-1])), shoe(q), rel=1e-7)
        a, b = S.f("width", 0.1, 9), S.f("length", 0.1, 9)
        rect = [[q[0][0], q[0][1]], [x(q[0][0]) + a, q[0][1]], [x(q[0][0]) + a, x(q[0][1]) + b], [q[0][0], x(q[0][1]) + b]]
        R.eq("rectangle", S.call(g, S.arr(rect)), x(a) * b, rel=1e-6)
    R.group("areas", areas)

    combos = [(PROJ[0], "none"), (PROJ[0], "Brown"), (PROJ[1], "none"), (PROJ[2], "none")]
    if R.thorough:
        combos = [(a, b) for a in PROJ for b in CLS]
    for kind, lens in combos:
        def stereo(S):
            """the images of a point triangulate to the point"""
            p, o1, o2 = P(S), O(S), O(S, "B")
            o2.x = S.f("posxR", 150, 300)
            pr = S.ct(kind)(**p.kw())
            le = S.ct(CLS[lens])(**coef(S, lens))
            g = S.ct("CameraGroup")(pr, S.un([orient(S, o=o1)[0], orient(S, o=o2)[0]]), le)
            a, b = point3(S, "a", -80, 80), point3(S, "b", -80, 80)
            vis, sk = [], []
            cs = [[ref_camera_from_space(o, pt) for o in (o1, o2)] for pt in (a, b)]
            for pt in cs:
                for c in pt:
                    vis.append(c[2] < -5 if kind == PROJ[0] else c[0] * c[0] + c[2] * c[2] > 25)
                    if lens != "none":     # inside the range of the inverse of the lens
                        vis.append((c[0] * c[0] + c[1] * c[1]) < c[2] * c[2])
            d = lambda o, pt: sub3(pt, o.t())
            for pt in (a, b):
                n = cross(d(o1, pt), d(o2, pt))
                sk.append(dot(n, n) > 0.05 * dot(d(o1, pt), d(o1, pt)) * dot(d(o2, pt), d(o2, pt)))
            im = S.call(g.imagesFromSpace, S.arr([a, b]))
            im1, im2 = [Obj(S, v) for v in S.I.iterate(im.v)]
            A = vis + sk
            R.eq("triangulated points", S.call(g.spaceFromImages, im1, im2), [a, b], assume=A, rel=1e-5)
            one = S.call(g.imagesFromSpace, S.arr(a))
            i1, i2 = [Obj(S, v) for v in S.I.iterate(one.v)]
            R.eq("triangulated point", S.call(g.spaceFromImages, i1, i2), list(a), assume=A, rel=1e-5)
            R.eq("rays of corresponding positions meet", x(S.call(g.discanteBetweenRays, i1, i2).v) + 1, 1, assume=A, rel=1e-4)
            # arbitrary positions
            u, v = S.arr(pixel(S)), S.arr(pixel(S, "2"))
            of1, r1 = [vec(S, Obj(S, q)) for q in S.I.unpack(S.call(g[0].getRay, u, normed=True).v, 2)]
            of2, r2 = [vec(S, Obj(S, q)) for q in S.I.unpack(S.call(g[1].getRay, v, normed=True).v, 2)]
            n = cross(r1, r2)
            A = [dot(n, n) > 0.1]
            R.eq("closest point of two rays", S.call(g.spaceFromImages, u, v), middle(of1, r1, of2, r2), assume=A, rel=1e-5)
            R.eq("distance of two rays", S.call(g.discanteBetweenRays, u, v), line_distance(of1, r1, of2, r2), assume=A, rel=1e-5)
        R.group("stereo, %s, lens %s" % (SHORT[kind], lens), stereo, allowed=("LinAlgError",))
