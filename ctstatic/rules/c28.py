"""Scene objects and extruded lines: the geometry built by addCube, addRect, addGrid and extrudeLine is interpreted abstractly for
symbolic positions and sizes: the polylines must cover exactly the edges of the object, the mesh exactly the walls above the line; scenes are
independent and keep what was added."""
from .common import *
from .c19 import sub3


def segments(S, R, v, label):
    """[(point, point)] of a polyline with not-a-number separators"""
    r = rows(S, v)
    out, last = [], None
    for p in r:
        n = [T.isnan(c.t).op == "true" or c.t.op == "nan" for c in p]
        if any(n):
            if not all(n):
                raise Undecided("mixed separator")
            last = None
            continue
        if last is not None:
            out.append((last, p))
        last = p
    return out


def cover(S, R, label, segs, edges):
    """every edge is drawn and nothing else"""
    conds = S.pc() + S.assume

    def equal(a, b):
        for u, v in zip(a, b):
            u, v = x(u).t, x(v).t
            if u is v:
                continue
            p, used = T.refute(u, v, conds, 12, True, 1e-8)
            if p is not None:
                return False
            if not used:
                raise Undecided("no witness")
        return True

    def same(s, e):
        return equal(s[0], e[0]) and equal(s[1], e[1]) or equal(s[0], e[1]) and equal(s[1], e[0])

    if not segs:
        R.true(label + ": something is drawn", False)
        return
    for i, e in enumerate(edges):
        R.true("%s: edge %d is drawn" % (label, i), any(same(s, e) for s in segs), detail="an edge of the object is missing")
    for i, s in enumerate(segs):
        R.true("%s: line %d is an edge" % (label, i), any(same(s, e) for e in edges), detail="a line is drawn that is no edge of the object")


def run(R):
    def scene(S):
        return S.ct("Scene")()

    def objects(S, sc):
        return [Obj(S, v) for v in S.I.iterate(S.get(sc, "objects").v)]

    def cube_edges(c, w):
        r = x(w) / 2
        corner = lambda i: [x(c[k]) + (r if i >> k & 1 else x(0) - r) for k in range(3)]
        return [(corner(a), corner(a | 1 << k)) for a in range(8) for k in range(3) if not a >> k & 1]

    def rect_edges(c, w):
        r = x(w) / 2
        q = [[x(c[0]) + r * a, x(c[1]), x(c[2]) + r * b] for a, b in ((-1, -1), (1, -1), (1, 1), (-1, 1))]
        return [(q[i], q[(i + 1) % 4]) for i in range(4)]

    def pos(S, tag=""):
        return [S.f("c%s%s" % (k, tag), -50, 50) for k in "xyz"]

    def cube(S):
        sc = scene(S)
        c, w = pos(S), S.f("w", 0.5, 20)
        C = S.arr(c)
        v = S.call(sc.addCube, C, w)
        cover(S, R, "cube", segments(S, R, v, "cube"), cube_edges(c, w))
        R.eq("position is left alone", C, c)
        o = objects(S, sc)
        R.true("one object", len(o) == 1)
        R.eq("the returned points are the object's", o[0], [[t for t in r] for r in rows(S, v)])
        v = S.call(sc.addCube, S.un(list(c)), w)
        cover(S, R, "cube at a list", segments(S, R, v, "cube"), cube_edges(c, w))
    R.group("cube", cube)

    def rect(S):
        sc = scene(S)
        c, w = pos(S), S.f("w", 0.5, 20)
        v = S.call(sc.addRect, S.arr(c), w)
        cover(S, R, "rectangle", segments(S, R, v, "rect"), rect_edges(c, w))
        o = objects(S, sc)
        R.true("one object", len(o) == 1)
        R.eq("the returned points are the object's", o[0], rows(S, v))
    R.group("rectangle", rect)

    def grid(nx, ny):
        def go(S):
            sc = scene(S)
            xs, ys = [S.f("gx%d" % i, -50, 50) for i in range(nx)], [S.f("gy%d" % i, -50, 50) for i in range(ny)]
            v = S.call(sc.addGrid, S.arr(xs), S.arr(ys))

            def ext(vs):
                a = b = x(vs[0])
                for q in vs[1:]:
                    a, b = ite(x(q) < a, x(q), a), ite(x(q) > b, x(q), b)
                return a, b
            (x0, x1), (y0, y1) = ext(xs), ext(ys)
            edges = [([x0, x(b), x(0)], [x1, x(b), x(0)]) for b in ys] + [([x(a), y0, x(0)], [x(a), y1, x(0)]) for a in xs]
            cover(S, R, "grid", segments(S, R, v, "grid"), edges)
            o = objects(S, sc)
            R.true("one object", len(o) == 1)
            R.eq("the returned points are the object's", o[0], rows(S, v))
        return go
    R.group("grid 2 x 3", grid(2, 3))
    R.group("grid 3 x 1", grid(3, 1))

    def mkcam(S, tag):
        return camera(S, "RectilinearProjection", tag)[0]

    def several(S):
        a, b = scene(S), scene(S)
        c, c2, w = pos(S), pos(S, "2"), S.f("w", 0.5, 20)
        va = S.call(a.addCube, S.arr(c), w)
        va2 = S.call(a.addRect, S.arr(c2), w)
        vb = S.call(b.addRect, S.arr(c), w)
        own = S.arr([pos(S, "3"), pos(S, "4")])
        S.call(a.add, own)
        oa, ob, oc = objects(S, a), objects(S, b), objects(S, scene(S))
        R.true("number of objects of each scene", [len(oa), len(ob), len(oc)] == [3, 1, 0], detail="%s" % [len(oa), len(ob), len(oc)])
        if len(oa) == 3 and len(ob) == 1:
            for n, g, v in (("first", oa[0], va), ("second", oa[1], va2), ("own", oa[2], own), ("other scene", ob[0], vb)):
                R.eq("%s object" % n, g, rows(S, v))
        cam1, cam2 = mkcam(S, ""), mkcam(S, "B")
        S.call(a.setCamera, cam1)
        S.call(b.setCamera, cam2)
        R.true("each scene has its camera", S.get(a, "camera").v is cam1.v and S.get(b, "camera").v is cam2.v)
        R.true("a new scene has none", S.get(scene(S), "camera") is None or getattr(S.get(scene(S), "camera"), "v", None) is None)
    R.group("several scenes", several)

    # ------------------------------------------------------------ extruded lines
    def wall(n, form):
        def go(S):
            pts = [[S.f("lx%d" % i, -50, 50), S.f("ly%d" % i, -50, 50)] for i in range(n)]
            z0, z1 = S.f("z0", -5, 0), S.f("z1", 1, 20)
            arg = S.arr(pts) if form == "array" else S.un([S.un(list(q)) for q in pts])
            f = S.sub("ray", "extrudeLine")
            m = S.call(f, arg, z0, z1)
            R.eq("the line is left alone", arg if not isinstance(arg, Obj) else arg, pts) if form == "array" else None
            sh, ts = S.terms(m)
            R.true("two triangles per piece", sh == (2 * (n - 1), 3, 3), detail="%s" % (sh,))
            if sh != (2 * (n - 1), 3, 3):
                return
            tri = [[[X(ts[(i * 3 + j) * 3 + k]) for k in range(3)] for j in range(3)] for i in range(sh[0])]
            # a point of a wall is on one of its triangles: u along the piece, h in height
            for i in range(n - 1):
                a, b = pts[i], pts[i + 1]
                piece = [x(b[0]) - a[0], x(b[1]) - a[1]]
                L = sqrt(piece[0] * piece[0] + piece[1] * piece[1])
                H = x(z1) - z0
                far = [L > 1]
                total_ = x(0)
                for j in (2 * i, 2 * i + 1):
                    t = tri[j]
                    flat = []
                    for q in t:
                        d = [q[0] - a[0], q[1] - a[1]]
                        u = (d[0] * piece[0] + d[1] * piece[1]) / (L * L)
                        off = d[0] * piece[1] - d[1] * piece[0]
                        R.true("piece %d: triangle %d is in the wall's plane" % (i, j % 2), absx(off) < 1e-7, assume=far)
                        h = (q[2] - z0) / H
                        R.true("piece %d: triangle %d is within the wall" % (i, j % 2), T.land((u > -1e-9), T.land((u < 1 + 1e-9), T.land(h > -1e-9, h < 1 + 1e-9))), assume=far)
                        flat.append((u, h))
                    area = absx((flat[1][0] - flat[0][0]) * (flat[2][1] - flat[0][1]) - (flat[2][0] - flat[0][0]) * (flat[1][1] - flat[0][1])) / 2
                    total_ = total_ + area
                R.eq("piece %d: area of the triangles" % i, total_, 1, assume=far)
                # the triangles do not overlap: every point of the wall is on one of them
                us, hs = S.f("su%d" % i, 0.05, 0.95), S.f("sh%d" % i, 0.05, 0.95)
                on = None
                for j in (2 * i, 2 * i + 1):
                    fl = []
                    for q in tri[j]:
                        d = [q[0] - a[0], q[1] - a[1]]
                        fl.append(((d[0] * piece[0] + d[1] * piece[1]) / (L * L), (q[2] - z0) / H))
                    cr = lambda p, q: (q[0] - p[0]) * (x(hs) - p[1]) - (q[1] - p[1]) * (x(us) - p[0])
                    s = [cr(fl[k], fl[(k + 1) % 3]) for k in range(3)]
                    pos_, neg_ = T.TRUE, T.TRUE
                    for c in s:
                        pos_, neg_ = T.land(pos_, c > -1e-9), T.land(neg_, c < 1e-9)
                    o = T.lor(pos_, neg_)
                    on = o if on is None else T.lor(on, o)
                R.true("piece %d: every point is on a triangle" % i, on, assume=far)
        return go
    for n in (2, 3, 4) if R.thorough else (2, 3):
        R.group("wall over %d points" % n, wall(n, "array"))
    R.group("wall over a list", wall(3, "list"))

    def hit(S):
        """a ray through a point of the wall hits it there"""
        f, g = S.sub("ray", "extrudeLine"), S.sub("ray", "ray_intersect_triangle")
        for n, name in ((2, "piece"), (3, "corner")):
            # walls that do not hide each other: each piece starts further right, seen from the front
            pts = [[S.f("%slx%d" % (name, i), -50 + 40 * i, -30 + 40 * i), S.f("%sly%d" % (name, i), 38, 40)] for i in range(n)]
            z0, z1 = S.f("z0", -5, 0), S.f("z1", 5, 20)
            m = S.call(f, S.arr(pts), z0, z1)
            u, h = S.f("u", 0.05, 0.95), S.f("h", 0.05, 0.95)
            for i in range(n - 1):
                a, b = pts[i], pts[i + 1]
                w = [x(a[0]) + (x(b[0]) - a[0]) * u, x(a[1]) + (x(b[1]) - a[1]) * u, x(z0) + (x(z1) - z0) * h]
                o = [S.f("ox", -10, 10), S.f("oy", -20, 0), S.f("oz", 1, 10)]
                R.eq("%s %d" % (name, i), S.call(g, S.arr(o), S.arr([c - d for c, d in zip(w, o)]), m), w, rel=1e-5)
    R.group("rays hit the wall", hit)
