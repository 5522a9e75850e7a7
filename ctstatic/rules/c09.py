"""Lens models: distortedFromImage is compared with the documented radial polynomial on symbolic coefficients, intrinsic
parameters and pixels; imageFromDistorted, whose interpolating spline is abstracted by the exact inverse of the function it
is built from, must undo it; the sampling of that spline (span, spacing, order, kept samples) is an obligation of its own."""
from .common import *

ASSUMES = ["the interpolating spline equals the inverse of the sampled function; its numerical accuracy between samples is not decided, only its span, spacing and order"]


def brown(S):
    k = [S.f("k1", 0, 0.3, specials=(0.0,)), S.f("k2", 0, 0.1, specials=(0.0,)), S.f("k3", 0, 0.05, specials=(0.0,))]
    return S.ct("BrownLensDistortion")(*k), k


def abc(S):
    k = [S.f("a", 0, 0.05, specials=(0.0,)), S.f("b", 0, 0.05, specials=(0.0,)), S.f("c", 0, 0.05, specials=(0.0,))]
    return S.ct("ABCDistortion")(*k), k


def poly(model, k, r2):
    """factor r'/r as a term of r^2"""
    k = [x(v) for v in k]
    if model == "Brown":
        return 1 + k[0] * r2 + k[1] * r2 * r2 + k[2] * r2 * r2 * r2
    a, b, c = k
    r = sqrt(r2)
    return (1 - a - b - c) + c * r + b * r2 + a * r2 * r


def ref(model, k, p, uv):
    if p is None:
        off, sc = (x(0), x(0)), (x(1), x(1))
    elif model == "Brown":
        off, sc = (x(p.cx), x(p.cy)), (x(p.fx), x(p.fy))
    else:
        s = min2(p.w, p.h) / 2
        off, sc = (x(p.cx), x(p.cy)), (s, s)
    q = [(x(u) - o) / s for u, o, s in zip(uv, off, sc)]
    r2 = dot(q, q)
    f = poly(model, k, r2)
    return [a * f * s + o for a, s, o in zip(q, sc, off)], r2


def run(R):
    for model, mk in (("Brown", brown), ("ABC", abc)):
        def bind(S, lens):
            pr, p = proj(S, "RectilinearProjection")
            cam = S.ct("Camera")(pr, S.ct("SpatialOrientation")(), lens)
            return p

        def forward(S):
            lens, k = mk(S)
            p = bind(S, lens)
            uv, uv2 = pixel(S), pixel(S, "2")
            w1, r1 = ref(model, k, p, uv)
            w2, r2 = ref(model, k, p, uv2)
            S.assume += [r1 > 1e-6, r2 > 1e-6]
            R.eq("single", S.call(lens.distortedFromImage, S.arr(uv)), w1)
            R.eq("batch", S.call(lens.distortedFromImage, S.arr([uv, uv2])), [w1, w2])
            R.eq("list", S.call(lens.distortedFromImage, list(uv)), w1)
            u, v = S.i("iu", 0, 3000), S.i("iv", 0, 2000)
            w3, r3 = ref(model, k, p, (u, v))
            R.eq("integer pixels", S.call(lens.distortedFromImage, S.arr([u, v], dtype="int")), w3, assume=[r3 > 1e-6])
        R.group("%s formula" % model, forward, allowed=("LinAlgError",))

        def alone(S):
            lens, k = mk(S)
            uv = S.f("qx", -1, 1), S.f("qy", -1, 1)
            w, r = ref(model, k, None, uv)
            R.eq("normalised coordinates", S.call(lens.distortedFromImage, S.arr(uv)), w, assume=[r > 1e-6])
            u = S.call(lens.imageFromDistorted, S.call(lens.distortedFromImage, S.arr(uv)))
            S.assume += [w[0] * w[0] + w[1] * w[1] < 1.5, r > 1e-6]
            R.eq("normalised coordinates back", u, list(uv), rel=1e-6)
        R.group("%s without projection" % model, alone, allowed=("LinAlgError",))

        def changed(S):
            """a lens without projection follows its coefficients"""
            lens, k = mk(S)
            names = ("k1", "k2", "k3") if model == "Brown" else ("a", "b", "c")
            k2 = [S.f(n + "_new", -0.02, 0.02) for n in names]
            for n, v in zip(names, k2):
                setattr(lens, n, v)
            uv = S.f("qx", -.7, .7), S.f("qy", -.7, .7)
            w, r = ref(model, k2, None, uv)
            S.assume.append(r > 1e-6)
            d = S.call(lens.distortedFromImage, S.arr(uv))
            R.eq("forward", d, w)
            R.eq("back", S.call(lens.imageFromDistorted, d), list(uv), rel=1e-6)
        R.group("%s changed without projection" % model, changed, allowed=("LinAlgError",))

        def center(S):
            lens, k = mk(S)
            p = bind(S, lens)
            c = [p.cx, p.cy]
            uv = pixel(S)
            R.eq("distorted", S.call(lens.distortedFromImage, S.arr(c)), c)
            R.eq("undistorted", S.call(lens.imageFromDistorted, S.arr(c)), c)
            w, r = ref(model, k, p, uv)
            S.assume.append(r > 1e-6)
            R.eq("center in a batch", S.call(lens.distortedFromImage, S.arr([c, list(uv)])), [c, w])
        R.group("%s center" % model, center, allowed=("LinAlgError",))

        def inverse(S):
            lens, k = mk(S)
            p = bind(S, lens)
            uv = pixel(S)
            w, r = ref(model, k, p, uv)
            S.assume += [r > 1e-4, r < 2.2]
            d = S.call(lens.distortedFromImage, S.arr(uv))
            R.eq("image -> distorted -> image", S.call(lens.imageFromDistorted, d), list(uv), rel=1e-6)
            S.assume += [r < 1.2]
            u = S.call(lens.imageFromDistorted, S.arr(uv))
            R.eq("distorted -> image -> distorted", S.call(lens.distortedFromImage, u), list(uv), rel=1e-6)
            uv2 = pixel(S, "2")
            S.assume += [ref(model, k, p, uv2)[1] > 1e-4, ref(model, k, p, uv2)[1] < 1.2]
            del S.I.events[:]
            u = S.call(lens.imageFromDistorted, S.arr([uv, uv2]))
            for e in S.I.events:
                if e[0] == "splinearg":     # normalised radii below 1.2 lie between the samples
                    for t in e[1]:
                        R.true("radius looked up between the samples", T.lt(T.num(t), T.const(1.9)))
            R.eq("batch", S.call(lens.distortedFromImage, u), [list(uv), list(uv2)], rel=1e-6)
        R.group("%s inverse" % model, inverse, allowed=("LinAlgError",))

        def zero(S):
            """vanishing coefficients: no distortion"""
            cls = "BrownLensDistortion" if model == "Brown" else "ABCDistortion"
            lens = S.ct(cls)()
            p = bind(S, lens)
            uv = pixel(S)
            S.assume.append(ref(model, [0, 0, 0], p, uv)[1] > 1e-6)
            R.eq("default coefficients do nothing", S.call(lens.distortedFromImage, S.arr(uv)), list(uv))
        R.group("%s default" % model, zero, allowed=("LinAlgError",))

        def radial(S):
            """the direction from the centre is unchanged"""
            lens, k = mk(S)
            p = bind(S, lens)
            uv = pixel(S)
            w, r = ref(model, k, p, uv)
            S.assume.append(r > 1e-3)
            d = vec(S, S.call(lens.distortedFromImage, S.arr(uv)))
            a = [(x(u) - c) for u, c in zip(uv, (p.cx, p.cy))]
            b = [(x(u) - c) for u, c in zip(d, (p.cx, p.cy))]
            R.eq("parallel", (a[0] * b[1] - a[1] * b[0]) / (1 + dot(a, a)) + 1, 1)
            R.true("same side", dot(a, b) > 0)
        R.group("%s radial" % model, radial, allowed=("LinAlgError",))

        def sampling(S):
            lens, k = mk(S)
            p = bind(S, lens)
            ev = [e for e in S.I.events if e[0] == "spline"]
            if not ev:
                return      # no interpolation: the inverse obligations decide alone
            e = ev[-1]
            if e[1] is None:
                R.record("%s sampling" % model, "undecided", "sampled function not recognised")
                return
            grid, masks, order = sorted(e[4]), e[5], e[6]
            R.true("samples start at the centre", grid[0] == 0, detail="first sample at %r" % grid[0])
            R.true("samples reach radius 1.9", grid[-1] >= 1.9 - 1e-9, detail="last sample at radius %r" % grid[-1])
            gap = max(b - a for a, b in zip(grid, grid[1:])) if len(grid) > 1 else 9
            o = order if isinstance(order, int) else 3
            R.true("spacing and order", gap ** (o + 1) <= 1.02e-4, detail="spacing %r, order %r" % (gap, order))
            for g, m in zip(e[4], masks):
                R.true("sample at %.2f is kept for an increasing function" % g, m)
        R.group("%s inverse sampling" % model, sampling, allowed=("LinAlgError",))

    def none(S):
        lens = S.ct("NoDistortion")()
        uv, uv2 = pixel(S), pixel(S, "2")
        for name in ("distortedFromImage", "imageFromDistorted"):
            R.eq(name, S.call(S.get(lens, name), S.arr([uv, uv2])), [list(uv), list(uv2)])
            R.eq(name + " single", S.call(S.get(lens, name), S.arr(uv)), list(uv))
    R.group("no distortion", none)
