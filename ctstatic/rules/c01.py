"""Pixel <-> ray round trip: abstract interpretation of getRay and imageFromCamera composed on symbolic pixels, camera
points and intrinsic parameters; the composed value numbers are compared with the input's."""
from .common import *


def run(R):
    for kind in PROJ:
        for normed in (False, True):
            def pix(S, kind=kind, normed=normed):
                pr, p = proj(S, kind)
                uv = pixel(S)
                ray = S.call(pr.getRay, S.arr(uv), normed=normed)
                back = S.call(pr.imageFromCamera, ray)
                R.eq("pixel -> ray -> pixel", back, [uv[0], uv[1]])
                d = S.f("d", 0.01, 500)
                r = vec(S, ray)
                back = S.call(pr.imageFromCamera, S.arr([c * x(d) for c in r]))
                R.eq("any point on the ray projects to the pixel", back, [uv[0], uv[1]])
                if normed:
                    R.eq("unit length", dot(r, r), 1)
            R.group("%s normed=%s" % (SHORT[kind], normed), pix)

            def batch(S, kind=kind, normed=normed):
                pr, p = proj(S, kind)
                a, b = pixel(S), pixel(S, "2")
                ray = S.call(pr.getRay, S.arr([a, b]), normed=normed)
                back = S.call(pr.imageFromCamera, ray)
                R.eq("pixels -> rays -> pixels", back, [list(a), list(b)])
            R.group("%s batch normed=%s" % (SHORT[kind], normed), batch)

        def pt(S, kind=kind):
            pr, p = proj(S, kind)
            P3 = point3(S)
            if kind == "RectilinearProjection":
                S.assume.append(x(P3[2]) < -1)
            else:
                S.assume.append(x(P3[0]) * x(P3[0]) + x(P3[2]) * x(P3[2]) > 1)
            im = S.call(pr.imageFromCamera, S.arr(P3))
            ray = vec(S, S.call(pr.getRay, im))
            c = cross(ray, [x(v) for v in P3])
            n = norm([x(v) for v in P3])
            for k, e in enumerate(c):
                R.eq("point -> pixel -> ray is parallel to the point [%d]" % k, e / n + 1, 1)
            R.true("ray points towards the point", dot(ray, [x(v) for v in P3]) > 0)
        R.group("%s point" % SHORT[kind], pt)
