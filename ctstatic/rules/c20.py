"""Rays and meshes: ray_intersect_triangle and spaceFromImage(mesh=) are interpreted abstractly for symbolic rays and triangles that
are built from the wanted hit (position on the ray, barycentric coordinates), so that the expected result is known by construction:
the nearest hit in front of the origin and inside a triangle (or on its plane), not-a-number otherwise."""
from .common import *
from .c10 import coef, CLS
from .c19 import sub3


def away(t, *vals):
    return [absx(x(t) - v) > 0.01 for v in vals]


class Tri:
    """a triangle that the line o + t d meets at barycentric coordinates (a, b)"""

    def __init__(self, S, tag, o, d, lo=-2, hi=6, inside=False):
        self.t = S.f("t" + tag, lo, hi)
        self.e1 = [x(c) for c in point3(S, "e" + tag, -9, 9)]
        self.e2 = [x(c) for c in point3(S, "g" + tag, -9, 9)]
        self.a = S.f("a" + tag, 0.05 if inside else -0.5, 0.4 if inside else 1.2)
        self.b = S.f("b" + tag, 0.05 if inside else -0.5, 0.4 if inside else 1.2)
        self.hit = [k + x(self.t) * v for k, v in zip(o, d)]
        v0 = [h - x(self.a) * u - x(self.b) * w for h, u, w in zip(self.hit, self.e1, self.e2)]
        self.p = [v0, [k + u for k, u in zip(v0, self.e1)], [k + w for k, w in zip(v0, self.e2)]]
        n = cross(self.e1, self.e2)
        self.n = n
        # well-conditioned: not nearly degenerate, not nearly parallel to the ray, hit not on an edge
        self.assume = [dot(n, n) > 4, absx(dot(n, d)) > 0.05 * norm(n) * norm(d)] + away(self.t, 0) + away(self.a, 0) + away(self.b, 0) + away(x(self.a) + self.b, 1)

    def inside(self, yes, no, planes=False):
        yes = ite(x(self.t) >= 0, yes, no)
        if planes:
            return yes
        return ite(x(self.a) >= 0, ite(x(self.b) >= 0, ite(x(self.a) + self.b <= 1, yes, no), no), no)


FAR = 1e9


def nearest(o, d, hits):
    """o + min(t) d, nan when there is no hit; hits: expressions (FAR if missed)"""
    m = hits[0]
    for h in hits[1:]:
        m = min2(m, h)
    return [ite(m < FAR / 2, k + m * v, nan()) for k, v in zip(o, d)]


def moeller(o, d, tri, planes=False):
    """-> expression t of the hit of the ray with a triangle, FAR if missed; conditions keeping away from edges"""
    e1, e2 = sub3(tri[1], tri[0]), sub3(tri[2], tri[0])
    h = cross(d, e2)
    det = dot(e1, h)
    s = sub3(o, tri[0])
    a = dot(s, h) / det
    q = cross(s, e1)
    b = dot(d, q) / det
    t = dot(e2, q) / det
    n = cross(e1, e2)
    c = [dot(n, n) > 4, absx(dot(n, d)) > 0.05 * norm(n) * norm(d)] + away(t, 0) + away(a, 0) + away(b, 0) + away(a + b, 1)
    r = ite(t >= 0, t, FAR)
    if not planes:
        r = ite(a >= 0, ite(b >= 0, ite(a + b <= 1, r, FAR), FAR), FAR)
    return r, c


def run(R):
    for planes in (False, True):
        what = "planes of triangles" if planes else "triangles"
        kw = dict(use_planes=True) if planes else {}

        def one(S):
            f = S.sub("ray", "ray_intersect_triangle")
            arr = S.arr
            o = [x(c) for c in point3(S, "o", -9, 9)]
            d = [x(c) for c in point3(S, "d", -3, 3)]
            A = [dot(d, d) > 0.5]
            t = Tri(S, "", o, d)
            want = [t.inside(k, nan(), planes) for k in t.hit]
            A1 = A + t.assume
            R.eq("one ray, one triangle", S.call(f, arr(o), arr(d), arr(t.p), **kw), want, assume=A1, rel=1e-6)
            R.eq("one ray, list of one triangle", S.call(f, arr(o), arr(d), arr([t.p]), **kw), want, assume=A1, rel=1e-6)
            R.eq("lists instead of arrays", S.call(f, o, d, t.p, **kw), want, assume=A1, rel=1e-6)
            R.eq("batch of one ray", S.call(f, arr(o), arr([d]), arr(t.p), **kw), [want], assume=A1, rel=1e-6)
            R.eq("batch of one ray with its origin", S.call(f, arr([o]), arr([d]), arr([t.p]), **kw), [want], assume=A1, rel=1e-6)
            R.eq("other orientation of the triangle", S.call(f, arr(o), arr(d), arr([t.p[0], t.p[2], t.p[1]]), **kw), want, assume=A1, rel=1e-6)
            R.eq("other first corner", S.call(f, arr(o), arr(d), arr([t.p[1], t.p[2], t.p[0]]), **kw), want, assume=A1, rel=1e-6)
            k = S.f("k", 0.1, 5)
            R.eq("length of the direction", S.call(f, arr(o), arr([k * c for c in d]), arr(t.p), **kw), want, assume=A1, rel=1e-6)
            R.eq("opposite direction", S.call(f, arr(o), arr([-c for c in d]), arr(t.p), **kw), [
                ite(x(t.t) < 0, h, nan()) if planes else
                ite(x(t.t) < 0, ite(x(t.a) >= 0, ite(x(t.b) >= 0, ite(x(t.a) + t.b <= 1, h, nan()), nan()), nan()), nan()) for h in t.hit], assume=A1, rel=1e-6)
        R.group("%s: one" % what, one)

        def several(S):
            f = S.sub("ray", "ray_intersect_triangle")
            arr = S.arr
            o = [x(c) for c in point3(S, "o", -9, 9)]
            d = [x(c) for c in point3(S, "d", -3, 3)]
            A = [dot(d, d) > 0.5]
            ts = [Tri(S, str(i), o, d) for i in range(3)]
            A3 = A + [c for t in ts for c in t.assume]
            hits = [t.inside(x(t.t), x(FAR), planes) for t in ts]
            R.eq("nearest of two triangles", S.call(f, arr(o), arr(d), arr([t.p for t in ts[:2]]), **kw), nearest(o, d, hits[:2]), assume=A3, rel=1e-6)
            R.eq("order of the triangles", S.call(f, arr(o), arr(d), arr([t.p for t in ts[:2][::-1]]), **kw), nearest(o, d, hits[:2]), assume=A3, rel=1e-6)
            R.eq("nearest of three triangles", S.call(f, arr(o), arr(d), arr([t.p for t in ts]), **kw), nearest(o, d, hits), assume=A3, rel=1e-6)
            R.eq("triangle behind and in front", S.call(f, arr(o), arr(d), arr([t.p for t in ts[:2]]), **kw), nearest(o, d, hits[:2]),
                 assume=A3 + [x(ts[0].t) < 0, x(ts[1].t) > 0], rel=1e-6)
        R.group("%s: nearest" % what, several)

        def batch(S):
            f = S.sub("ray", "ray_intersect_triangle")
            arr = S.arr
            o = [x(c) for c in point3(S, "o", -9, 9)]
            o2 = [x(c) for c in point3(S, "oo", -9, 9)]
            d = [x(c) for c in point3(S, "d", -3, 3)]
            e = [x(c) for c in point3(S, "dd", -3, 3)]
            A = [dot(d, d) > 0.5, dot(e, e) > 0.5]
            t, u = Tri(S, "0", o, d, 0.5, 6), Tri(S, "1", o, d, 0.5, 6)

            def want(o, d, tris):
                hs, c = [], []
                for tri in tris:
                    h, k = moeller(o, d, tri, planes)
                    hs.append(h)
                    c += k
                return nearest(o, d, hs), c
            for label, tris in (("one triangle", [t.p]), ("two triangles", [t.p, u.p])):
                w1, c1 = want(o, d, tris)
                w2, c2 = want(o, e, tris)
                w3, c3 = want(o2, e, tris)
                R.eq("two rays, %s" % label, S.call(f, arr(o), arr([d, e]), arr(tris), **kw), [w1, w2], assume=A + c1 + c2, rel=1e-5)
                R.eq("two rays with origins, %s" % label, S.call(f, arr([o, o2]), arr([d, e]), arr(tris), **kw), [w1, w3], assume=A + c1 + c3, rel=1e-5)
                R.eq("three rays, %s" % label, S.call(f, arr(o), arr([e, d, e]), arr(tris), **kw), [w2, w1, w2], assume=A + c1 + c2, rel=1e-5)
        R.group("%s: batch" % what, batch)

        def flat(S):
            """rays exactly parallel to the plane of the triangle"""
            f = S.sub("ray", "ray_intersect_triangle")
            arr = S.arr
            h, q = S.f("h", -5, 5), S.f("q", 0.5, 5)
            v0 = [S.f("vx", -5, 5), S.f("vy", -5, 5)]
            e1 = [S.f("ex", 1, 9), S.f("ey", -0.4, 0.4)]
            e2 = [S.f("gx", -0.4, 0.4), S.f("gy", 1, 9)]
            a, b = S.f("a", -0.5, 1.2), S.f("b", -0.5, 1.2)
            tri2 = [v0, [x(k) + u for k, u in zip(v0, e1)], [x(k) + u for k, u in zip(v0, e2)]]
            pos = [x(k) + x(a) * u + x(b) * w for k, u, w in zip(v0, e1, e2)]
            dr = [S.f("dx", -3, 3), S.f("dy", 0.2, 3)]
            A = away(a, 0) + away(b, 0) + away(x(a) + b, 1)
            for axis in range(3):
                def put(p, z):
                    p = list(p)
                    p.insert(axis, z)
                    return p
                tri = [put(p, h) for p in tri2]
                d = put(dr, 0.0)
                R.eq("parallel beside the triangle (axis %d)" % axis, S.call(f, arr(put(pos, x(h) + q)), arr(d), arr(tri), **kw), [nan()] * 3, assume=A)
                o = put(pos, h)
                ins = lambda k: k if planes else ite(x(a) >= 0, ite(x(b) >= 0, ite(x(a) + b <= 1, k, nan()), nan()), nan())
                R.eq("parallel in the triangle (axis %d)" % axis, S.call(f, arr(o), arr(d), arr(tri), **kw), [ins(x(k)) for k in o], assume=A)
                # a parallel triangle does not hide another one
                far = [put(p, x(h) - q) for p in tri2]
                dd = put([0.0, 0.0], -1.0)
                wall = [put([x(pos[0]) - 1, x(pos[1]) - 1], x(h)), put([x(pos[0]) - 1, x(pos[1]) - 1], x(h) - x(q) * 3), put([x(pos[0]) - 1, x(pos[1]) + 1], x(h))]
                o = put(pos, x(h) + q)
                if not planes:
                    R.eq("parallel triangle beside a hit one (axis %d)" % axis, S.call(f, arr(o), arr(dd), arr([wall, far]), **kw),
                         [ite(x(a) >= 0, ite(x(b) >= 0, ite(x(a) + b <= 1, x(k), nan()), nan()), nan()) for k in put(pos, x(h) - q)], assume=A, rel=1e-6)
                # ... and a triangle that is parallel to one ray of a batch is still met by the others
                hit = [ite(x(a) >= 0, ite(x(b) >= 0, ite(x(a) + b <= 1, x(k), nan()), nan()), nan()) if not planes else x(k) for k in put(pos, h)]
                o = put(pos, x(h) + q)
                for order in (0, 1):
                    rays, wants = [dd, d], [hit, [nan()] * 3]
                    if order:
                        rays, wants = rays[::-1], wants[::-1]
                    R.eq("batch with a parallel ray, %d (axis %d)" % (order, axis), S.call(f, arr(o), arr(rays), arr(tri), **kw), wants, assume=A, rel=1e-6)
                    R.eq("batch with a parallel ray, two triangles, %d (axis %d)" % (order, axis), S.call(f, arr(o), arr(rays), arr([far, tri]), **kw), wants, assume=A, rel=1e-6)
        R.group("%s: parallel" % what, flat)

    combos = [(PROJ[0], "none"), (PROJ[0], "Brown"), (PROJ[1], "none"), (PROJ[2], "none")]
    if R.thorough:
        combos = [(a, b) for a in PROJ for b in CLS]
    for kind, lens in combos:
        def mesh(S):
            """image positions projected on a mesh"""
            p, o = P(S), O(S)
            cam = S.ct("Camera")(S.ct(kind)(**p.kw()), orient(S, o=o)[0], S.ct(CLS[lens])(**coef(S, lens)))
            u, v = pixel(S), pixel(S, "2")
            of, r1 = [vec(S, Obj(S, q)) for q in S.I.unpack(S.call(cam.getRay, S.arr(u)).v, 2)]
            of2, r2 = [vec(S, Obj(S, q)) for q in S.I.unpack(S.call(cam.getRay, S.arr(v)).v, 2)]
            t1, t2 = Tri(S, "0", of, r1, -0.5, 6), Tri(S, "1", of, r1, -0.5, 6)
            A = t1.assume + t2.assume
            R.eq("position on the mesh", S.call(cam.spaceFromImage, S.arr(u), mesh=S.arr([t1.p, t2.p])),
                 nearest(of, r1, [t1.inside(x(t1.t), x(FAR)), t2.inside(x(t2.t), x(FAR))]), assume=A, rel=1e-5)
            R.eq("position on a mesh of one triangle", S.call(cam.spaceFromImage, S.arr(u), mesh=S.arr([t1.p])),
                 nearest(of, r1, [t1.inside(x(t1.t), x(FAR))]), assume=A, rel=1e-5)
            t3 = Tri(S, "2", of, r2, -0.5, 6)
            h11, c11 = moeller(of, r1, t1.p)
            h13, c13 = moeller(of, r1, t3.p)
            h21, c21 = moeller(of, r2, t1.p)
            h23, c23 = moeller(of, r2, t3.p)
            R.eq("batch of positions on the mesh", S.call(cam.spaceFromImage, S.arr([u, v]), mesh=S.arr([t1.p, t3.p])),
                 [nearest(of, r1, [h11, h13]), nearest(of, r2, [h21, h23])], assume=c11 + c13 + c21 + c23, rel=1e-5)
        R.group("mesh, %s, lens %s" % (SHORT[kind], lens), mesh, allowed=("LinAlgError",))
