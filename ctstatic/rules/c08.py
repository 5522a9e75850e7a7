"""Visibility marking: abstract interpretation of imageFromCamera / imageFromSpace with and without hiding; NaN-ness of
every component is compared with the half-space condition of the property."""
from .common import *


def isn(v):
    return T.isnan(v.t)


def run(R):
    for lens in ("none", "Brown", "ABC"):
        def mk(S):
            from .c06 import LENSES
            return camera(S, "RectilinearProjection", lens=LENSES[lens](S))

        def cam_side(S):
            cam, p, o = mk(S)
            P3, Q3 = point3(S, lo=-60, hi=60), point3(S, "2", lo=-60, hi=60)
            c, c2 = ref_camera_from_space(o, P3), ref_camera_from_space(o, Q3)
            S.assume += [c[2] * c[2] > 1e-12, c2[2] * c2[2] > 1e-12]
            im = vec(S, S.call(cam.imageFromSpace, S.arr(P3)))
            for k in (0, 1):
                R.true("component %d is NaN exactly behind the camera" % k, iff(isn(im[k]), c[2] > 0))
            im = vec(S, S.call(cam.imageFromSpace, S.arr([P3, Q3])))
            for k in range(4):
                R.true("batch component %d is NaN exactly behind the camera" % k, iff(isn(im[k]), (c if k < 2 else c2)[2] > 0))
            im = vec(S, S.call(cam.imageFromSpace, S.arr([P3, Q3]), hide_backpoints=False))
            for k in range(4):
                R.true("not hidden: component %d is a number" % k, T.lnot(isn(im[k])))
        R.group("rectilinear camera, lens %s" % lens, cam_side, allowed=("LinAlgError",))

    def proj_side(S):
        pr, p = proj(S, "RectilinearProjection")
        P3, Q3 = point3(S), point3(S, "2")
        S.assume += [x(P3[2]) * x(P3[2]) > 1e-18, x(Q3[2]) * x(Q3[2]) > 1e-18]
        for kw in ({}, dict(hide_backpoints=True)):
            im = vec(S, S.call(pr.imageFromCamera, S.arr([P3, Q3]), **kw))
            for k in range(4):
                R.true("component %d %s" % (k, kw), iff(isn(im[k]), (x(P3[2]) if k < 2 else x(Q3[2])) > 0))
        im = vec(S, S.call(pr.imageFromCamera, S.arr(P3)))
        for k in range(2):
            R.true("single component %d" % k, iff(isn(im[k]), x(P3[2]) > 0))
    R.group("rectilinear projection", proj_side)

    for kind in PROJ[1:]:
        def pano(S):
            cam, p, o = camera(S, kind)
            P3, Q3 = point3(S, lo=-60, hi=60), point3(S, "2", lo=-60, hi=60)
            for pt in (P3, Q3):
                c = ref_camera_from_space(o, pt)
                S.assume.append(c[0] * c[0] + c[2] * c[2] > 0.01)
            for hide in (True, False):
                im = vec(S, S.call(cam.imageFromSpace, S.arr([P3, Q3]), hide_backpoints=hide))
                for k in range(4):
                    R.true("component %d is a number (hide=%s)" % (k, hide), T.lnot(isn(im[k])))
            im = vec(S, S.call(cam.imageFromSpace, S.arr(P3)))
            for k in range(2):
                R.true("single component %d is a number" % k, T.lnot(isn(im[k])))
        R.group("%s camera sees all directions" % SHORT[kind], pano, allowed=("LinAlgError",))

        def own(S):
            """the panorama shows a point on the own vertical plane z=0 too"""
            pr, p = proj(S, kind)
            a, b = S.f("px", 1, 50), S.f("py", -50, 50)
            im = S.call(pr.imageFromCamera, S.arr([a.t, b.t, T.const(0)]))
            R.eq("point in the camera plane", im, ref_image(kind, (a, b, T.const(0)), p))
        R.group("%s camera plane" % SHORT[kind], own)

    for kind in PROJ:
        def nanin(S):
            """NaN coordinates stay NaN and do not spread to other points of the batch"""
            pr, p = proj(S, kind)
            P3 = point3(S)
            S.assume.append(x(P3[2]) < -1)
            im = vec(S, S.call(pr.imageFromCamera, S.arr([[T.NAN] * 3, list(P3)])))
            for k in range(2):
                R.true("NaN stays NaN [%d]" % k, isn(im[k]))
            R.eq("other point", [im[2], im[3]], ref_image(kind, P3, p))
        R.group("%s NaN input" % SHORT[kind], nanin)

    def above(S):
        """pixels whose ray never reaches the plane are NaN in all three coordinates"""
        cam, p, o = camera(S)
        uv, uv2 = pixel(S), pixel(S, "2")
        z = S.f("c", -100, 100)
        f = []
        for q in (uv, uv2):
            d = ref_space_from_camera(o, ref_ray("RectilinearProjection", q, p), direction=True)
            S.assume.append(d[2] * d[2] > 0.0001)
            f.append((x(z) - x(o.el)) / d[2])
            S.assume.append(f[-1] * f[-1] > 0.0001)
        got = vec(S, S.call(cam.spaceFromImage, S.arr([uv, uv2]), Z=z))
        for k in range(6):
            R.true("component %d" % k, iff(isn(got[k]), f[k // 3] < 0))
        got = vec(S, S.call(cam.spaceFromImage, S.arr(uv), Z=z))
        for k in range(3):
            R.true("single component %d" % k, iff(isn(got[k]), f[0] < 0))
    R.group("back projection above the horizon", above, allowed=("LinAlgError",))


def iff(a, b):
    return T.lor(T.land(a, b), T.land(T.lnot(a), T.lnot(b)))
