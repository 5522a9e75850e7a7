"""Back projection honours its constraint: Camera.spaceFromImage is interpreted abstractly for symbolic cameras, pixels and
constraints X, Y, Z or D (scalar, per-point array, list); the result must be the point of the pixel's ray that satisfies
the constraint, NaN exactly when that point lies behind the camera."""
from .common import *
from .c06 import unpack2


def target(R_, axis, val):
    """reference point for ray (origin, direction) and constraint"""
    off, d = R_
    if axis == "D":
        n = norm(d)
        return [a + x(val) * b / n for a, b in zip(off, d)], None
    i = "XYZ".index(axis)
    fac = (x(val) - off[i]) / d[i]
    return [ite(fac < 0, nan(), a + fac * b) for a, b in zip(off, d)], fac


def cond(d, axis):
    if axis == "D":
        return []
    i = "XYZ".index(axis)
    return [d[i] * d[i] > 0.01]


def run(R):
    for kind in PROJ:
        def ref(S, o, p, uv):
            return o.t(), ref_space_from_camera(o, ref_ray(kind, uv, p), direction=True)

        for axis in "XYZD":
            lo, hi = (0.5, 300) if axis == "D" else (-100, 100)

            def single(S):
                cam, p, o = camera(S, kind)
                uv = pixel(S)
                c = S.f("c", lo, hi, specials=(0.0, 1.0))
                r = ref(S, o, p, uv)
                S.assume += cond(r[1], axis)
                got = S.call(cam.spaceFromImage, S.arr(uv), **{axis: c})
                want, fac = target(r, axis, c)
                R.eq("single point", got, want)
                if fac is not None:
                    g = vec(S, got)
                    i = "XYZ".index(axis)
                    R.eq("constraint is met in front of the camera", g[i], c, assume=[fac > 0.001])
                    R.true("visible points are finite", T.lnot(T.isnan(g[0].t)), assume=[fac > 0.001])
                    R.true("points behind the camera are NaN", T.isnan(g[0].t), assume=[fac < -0.001])
                else:
                    R.eq("distance from the camera", dist2(vec(S, got), o.t()), x(c) * x(c))
            R.group("%s %s single" % (SHORT[kind], axis), single, allowed=("LinAlgError",))

            if kind != "RectilinearProjection" and not R.thorough:
                continue

            def batch(S):
                cam, p, o = camera(S, kind)
                pts = [pixel(S), pixel(S, "2"), pixel(S, "3")]
                c = S.f("c", lo, hi)
                cs = [S.f("c%d" % i, lo, hi) for i in range(3)]
                for uv in pts:
                    S.assume += cond(ref(S, o, p, uv)[1], axis)
                for n in (1, 2, 3):
                    got = S.call(cam.spaceFromImage, S.arr(pts[:n]), **{axis: c})
                    R.eq("N=%d, scalar" % n, got, [target(ref(S, o, p, uv), axis, c)[0] for uv in pts[:n]])
                    got = S.call(cam.spaceFromImage, S.arr(pts[:n]), **{axis: S.arr(cs[:n])})
                    R.eq("N=%d, array" % n, got, [target(ref(S, o, p, uv), axis, k)[0] for uv, k in zip(pts[:n], cs)])
                    if axis != "D":
                        got = S.call(cam.spaceFromImage, S.arr(pts[:n]), **{axis: list(cs[:n])})
                        R.eq("N=%d, list" % n, got, [target(ref(S, o, p, uv), axis, k)[0] for uv, k in zip(pts[:n], cs)])
                got = S.call(cam.spaceFromImage, S.arr(pts[0]), **{axis: S.arr(cs[:2])})
                R.eq("one pixel, two constraints", got, [target(ref(S, o, p, pts[0]), axis, k)[0] for k in cs[:2]])
            R.group("%s %s batch" % (SHORT[kind], axis), batch, allowed=("LinAlgError",))

        def default(S):
            cam, p, o = camera(S, kind)
            uv = pixel(S)
            r = ref(S, o, p, uv)
            S.assume += cond(r[1], "Z")
            R.eq("default is the ground plane", S.call(cam.spaceFromImage, S.arr(uv)), target(r, "Z", 0)[0])
            c, d, e, f = S.f("c", -100, 100), S.f("c2", -100, 100), S.f("c3", -100, 100), S.f("cd", 0.5, 300)
            S.assume += cond(r[1], "X") + cond(r[1], "Y")
            R.eq("X replaces the default Z", S.call(cam.spaceFromImage, S.arr(uv), X=c), target(r, "X", c)[0])
            R.eq("D replaces the default Z", S.call(cam.spaceFromImage, S.arr(uv), D=f), target(r, "D", f)[0])
            R.eq("int constraint", S.call(cam.spaceFromImage, S.arr(uv), Z=3), target(r, "Z", 3)[0])
        R.group("%s default constraint" % SHORT[kind], default, allowed=("LinAlgError",))

        def trip(S):
            cam, p, o = camera(S, kind)
            P3 = point3(S, lo=-60, hi=60)
            c = ref_camera_from_space(o, P3)
            if kind == "RectilinearProjection":
                S.assume.append(c[2] < -1)
            else:
                S.assume.append(c[0] * c[0] + c[2] * c[2] > 1)
                if kind == "EquirectangularProjection":
                    pass
            for i, axis in enumerate("XYZ"):
                S.assume.append((x(P3[i]) - o.t()[i]) * (x(P3[i]) - o.t()[i]) > 1)
            im = S.call(cam.imageFromSpace, S.arr(P3))
            for i, axis in enumerate("XYZ"):
                R.eq("space -> image -> space with %s" % axis, S.call(cam.spaceFromImage, im, **{axis: P3[i]}), list(P3), rel=1e-7)
            d = norm([x(a) - b for a, b in zip(P3, o.t())])
            R.eq("space -> image -> space with D", S.call(cam.spaceFromImage, im, D=d), list(P3), rel=1e-7)
        R.group("%s round trip" % SHORT[kind], trip, allowed=("LinAlgError",))

    def mesh(S):
        """with a mesh the result lies on the ray and on the triangle's plane"""
        cam, p, o = camera(S)
        uv = pixel(S)
        tri = [[S.f("t%d%d" % (i, j), -80, 80) for j in range(3)] for i in range(3)]
        got = vec(S, S.call(cam.spaceFromImage, S.arr(uv), mesh=S.arr(tri)))
        off, d = o.t(), ref_space_from_camera(o, ref_ray("RectilinearProjection", uv, p), direction=True)
        n = cross([x(b) - a for a, b in zip(tri[0], tri[1])], [x(b) - a for a, b in zip(tri[0], tri[2])])
        fac = dot(n, [x(a) - b for a, b in zip(tri[0], off)]) / dot(n, d)
        want = [a + fac * b for a, b in zip(off, d)]
        hit = T.lnot(T.isnan(got[0].t))
        for k in range(3):
            R.eq("hit point on ray and plane [%d]" % k, got[k], want[k], assume=[hit])
    R.group("mesh", mesh, allowed=("LinAlgError",))
