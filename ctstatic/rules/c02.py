"""Documented projection model: the abstract result of imageFromCamera / getRay on symbolic input is compared, per
projection class, with the formula of the documentation (specification terms in rules/common.py)."""
from .common import *


def run(R):
    for kind in PROJ:
        def img(S, kind=kind):
            pr, p = proj(S, kind)
            P3 = point3(S)
            if kind == "RectilinearProjection":
                S.assume.append(x(P3[2]) < -1)
            else:
                S.assume.append(x(P3[0]) * x(P3[0]) + x(P3[2]) * x(P3[2]) > 1)
            R.eq("image point", S.call(pr.imageFromCamera, S.arr(P3)), ref_image(kind, P3, p))
            R.eq("image point without hiding", S.call(pr.imageFromCamera, S.arr(P3), hide_backpoints=False), ref_image(kind, P3, p))
            Q3 = point3(S, "2")
            if kind == "RectilinearProjection":
                S.assume.append(x(Q3[2]) < -1)
            else:
                S.assume.append(x(Q3[0]) * x(Q3[0]) + x(Q3[2]) * x(Q3[2]) > 1)
            R.eq("image points (batch)", S.call(pr.imageFromCamera, S.arr([P3, Q3])),
                 [ref_image(kind, P3, p), ref_image(kind, Q3, p)])
        R.group("%s projection formula" % SHORT[kind], img)

        def back(S):
            pr, p = proj(S, "RectilinearProjection")
            P3 = point3(S)
            S.assume.append(x(P3[2]) > 1)
            R.eq("points behind, not hidden", S.call(pr.imageFromCamera, S.arr(P3), hide_backpoints=False),
                 ref_image("RectilinearProjection", P3, p))
        if kind == "RectilinearProjection":
            R.group("rectilinear behind", back)

        def ray(S, kind=kind):
            pr, p = proj(S, kind)
            uv, uv2 = pixel(S), pixel(S, "2")
            want = ref_ray(kind, uv, p)
            R.eq("ray", S.call(pr.getRay, S.arr(uv)), want)
            n = norm(want)
            R.eq("unit ray", S.call(pr.getRay, S.arr(uv), normed=True), [c / n for c in want])
            R.eq("rays (batch)", S.call(pr.getRay, S.arr([uv, uv2])), [want, ref_ray(kind, uv2, p)])
        R.group("%s ray formula" % SHORT[kind], ray)

        def axis(S, kind=kind):
            pr, p = proj(S, kind)
            R.eq("principal point looks along the optical axis", S.call(pr.getRay, S.arr([p.cx, p.cy])), [0.0, 0.0, -1.0])
            d = S.f("d", 0.5, 100)
            R.eq("optical axis hits the principal point", S.call(pr.imageFromCamera, S.arr([T.const(0), T.const(0), (-x(d)).t])), [p.cx, p.cy])
        R.group("%s axis" % SHORT[kind], axis)

        def seq(S, kind=kind):
            """lists and integer input are accepted"""
            pr, p = proj(S, kind)
            a, b, c = (S.i(n, lo, hi) for n, lo, hi in (("ia", -9, 9), ("ib", -9, 9), ("ic", -9, -1)))
            R.eq("list of ints", S.call(pr.imageFromCamera, [a, b, c]), ref_image(kind, (a, b, c), p))
            u, v = S.i("iu", 0, 3000), S.i("iv", 0, 2000)
            R.eq("list of int pixels", S.call(pr.getRay, [u, v]), ref_ray(kind, (u, v), p))
            R.eq("int pixel array", S.call(pr.getRay, S.arr([u, v], dtype="int")), ref_ray(kind, (u, v), p))
            R.eq("int point array", S.call(pr.imageFromCamera, S.arr([a, b, c], dtype="int")), ref_image(kind, (a, b, c), p))
        R.group("%s input kinds" % SHORT[kind], seq)
