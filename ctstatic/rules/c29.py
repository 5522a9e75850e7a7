"""Relative pose from point correspondences: setCameraParametersByPointCorrespondence is interpreted abstractly with OpenCV's pose
estimation modelled by its contract (the rotation and unit translation that carry the first view's coordinates into those of the second, in
OpenCV's axes): the second camera must get exactly the pose that produces the correspondences."""
from .common import *
from .c10 import mk, INTR, NAME

RECT = "RectilinearProjection"


def run(R):
    def scene(S, n, pose2=None):
        p = P(S)
        p.fy = p.fx
        o1, o2 = O(S, "1"), O(S, "2")
        g = S.ct("CameraGroup")(S.ct(RECT)(**p.kw()), S.un([S.ct("SpatialOrientation")(**q.kw()) for q in (o1, o2)]))
        pos1 = o1.t()
        tilt, roll, head = pose2 if pose2 else (S.f("tilt", 0, 80, specials=(0.0, 45.0)), S.f("roll", -170, 170, specials=(0.0,)), S.f("head", -170, 170, specials=(0.0, 90.0)))
        rot = rotation(rad(tilt), rad(roll), rad(head))
        b = S.f("baseline", 0.5, 20)
        az, po = S.f("azimuth", -170, 170, specials=(0.0, 90.0)), S.f("polar", -80, 80, specials=(0.0,))
        d = [cos(rad(po)) * cos(rad(az)), cos(rad(po)) * sin(rad(az)), sin(rad(po))]
        pos2 = [c + v * b for c, v in zip(pos1, d)]
        D = [x(1), x(-1), x(-1)]
        cvR = [D[i] * rot[i][j] * D[j] for i in range(3) for j in range(3)]
        cvt = [x(0) - D[i] * v for i, v in enumerate(matvec(rot, d))]

        def cam1(q):
            return [a - c for a, c in zip(q, pos1)]

        def cam2(q):
            return matvec(rot, [x(a) - c for a, c in zip(q, pos2)])
        pts = []
        for i in range(n):
            z = S.f("z%d" % i, 40, 90)
            pts.append([pos1[0] + S.f("x%d" % i, -30, 30), pos1[1] + S.f("y%d" % i, -30, 30), pos1[2] - z])
        A, B = [cam1(q) for q in pts], [cam2(q) for q in pts]
        front = [q[2] < -1 for q in B]
        ia, ib = [ref_image(RECT, q, p) for q in A], [ref_image(RECT, q, p) for q in B]
        norm_ = lambda v: [c for q in v for c in ((x(q[0]) - p.cx) / p.fx, (x(q[1]) - p.cy) / p.fx)]
        conds = [c.t if isinstance(c, X) else c for c in front]
        S.I.cv_pose = ([c.t for c in norm_(ia)], [c.t for c in norm_(ib)], [c.t for c in cvR], [c.t for c in cvt], conds)
        return g, p, o1, o2, pos1, pos2, ia, ib, pts, front, b, cam1, cam2

    def check(S, g, p, pos1, pos2, front, b, cam1, cam2, extra=()):
        c = [S.call(S.get(g, "__getitem__"), i) for i in range(2)]
        kw = dict(assume=front + list(extra), rel=1e-6)
        R.eq("the first camera keeps its position", [c[0].pos_x_m, c[0].pos_y_m, c[0].elevation_m], pos1, **kw)
        R.eq("position of the second camera", [c[1].pos_x_m, c[1].pos_y_m, c[1].elevation_m], pos2, **kw)
        q = [pos1[0] + S.f("qx", -30, 30), pos1[1] + S.f("qy", -30, 30), pos1[2] - S.f("qz", 40, 90)]
        for i, f in enumerate((cam1, cam2)):
            R.eq("image in the %s camera" % ("first", "second")[i], S.call(c[i].imageFromSpace, S.arr(q), hide_backpoints=False), ref_image(RECT, f(q), p),
                 assume=kw["assume"] + [f(q)[2] < -1], rel=1e-6)
            for n in INTR:
                R.eq("camera %d: %s stays" % (i, NAME[n]), S.get(c[i], NAME[n]), getattr(p, n), **kw)
        return c

    def pose(n, form="array", pose2=None):
        def go(S):
            g, p, o1, o2, pos1, pos2, ia, ib, pts, front, b, cam1, cam2 = scene(S, n, pose2)
            a, c = S.arr(ia), S.arr(ib)
            S.call(g.setCameraParametersByPointCorrespondence, a, c, b)
            check(S, g, p, pos1, pos2, front, b, cam1, cam2)
            R.eq("the first points are left alone", a, ia)
            R.eq("the second points are left alone", c, ib)
            off = [x(u) - v for u, v in zip(pos2, pos1)]
            R.eq("baseline", S.call(g.getBaseline), sqrt(off[0] * off[0] + off[1] * off[1]), assume=front, rel=1e-6)
            R.eq("triangulated points", S.call(g.spaceFromImages, a, c), pts, assume=front, rel=1e-4)
        return go
    R.group("general pose", pose(2))
    R.group("second camera looks straight down too", pose(2, pose2=(0, 0, 0)))

    def down(S):
        h = S.f("head", -170, 170, specials=(0.0, 90.0))
        pose(2, pose2=(0, 0, h))(S)
    R.group("second camera only turned", down)

    def rolled(S):
        h = S.f("roll", -170, 170, specials=(0.0, 90.0))
        pose(2, pose2=(S.f("tilt", 1, 80), h, 0))(S)
    R.group("second camera tilted and rolled", rolled)
