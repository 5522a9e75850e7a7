"""Terms of the fit probability: after every add...Information call the camera's (group's) log probability is interpreted abstractly
for symbolic cameras, observations and uncertainties and compared with the sum of the normal log densities of the documented
residuals; terms, cameras and groups are checked for separation (only_plot, clear, several terms, several cameras)."""
from .common import *
from .c10 import mk, coef, CLS, EXTR, NAME
from .c14 import small
from .c17 import gcam
from .c19 import sub3

RECT = "RectilinearProjection"


def lognorm(v, loc, s):
    z = (x(v) - loc) / s
    return -(z * z) / 2 - log(s) - log(2 * pi()) / 2


def total(l):
    r = x(l[0])
    for v in l[1:]:
        r = r + v
    return r


def landmark(of, d, pt, sig, n=1000):
    """sum over n positions on the ray (unit direction), from 2 max(sig) before to 2 max(sig) behind the closest point"""
    dd = [x(c) for c in d]
    t = norm([dot(sub3(pt, of), dd) * c for c in dd])
    m = sig[0]
    for s in sig[1:]:
        m = max2(m, s)
    m = x(m) * 2
    near = [x(k) + t * c for k, c in zip(of, dd)]
    sq = m * m * (n * (n + 1) / (3.0 * (n - 1)))            # sum of the squared offsets
    r = x(0)
    for a, b, c, s in zip(near, pt, dd, sig):
        z, q = (a - b) / s, c / s
        r = r - n * (z * z / 2 + log(s) + log(2 * pi()) / 2) - sq * q * q / 2
    return r


def visible(S, cam, feet, heads):
    return []


def run(R):
    combos = [(RECT, "none"), (RECT, "Brown")] + ([(k, l) for k in PROJ for l in CLS] if R.thorough else [(PROJ[1], "none")])
    for kind, lens in combos:
        what = "%s, lens %s" % (SHORT[kind], lens)

        def size(S, which):
            p, o, k = P(S), O(S), coef(S, lens)
            make = lambda: mk(S, kind, lens, p, o, k)
            f, h = [pixel(S, "f%d" % i) for i in range(2)], [pixel(S, "h%d" % i) for i in range(2)]
            F, H = S.arr(f), S.arr(h)
            L = [S.f("len%d" % i, 0.3, 3) for i in range(2)]
            sd = [S.f("sd%d" % i, 0.05, 2) for i in range(2)]
            add = "addObjectHeightInformation" if which == "height" else "addObjectLengthInformation"
            get = "getObjectHeight" if which == "height" else "getObjectLength"
            val = lambda cam, *a: vec(S, S.call(S.get(cam, get), F, H, *a))

            def case(label, args, want, **kw):
                cam = make()
                S.call(S.get(cam, add), *args, **kw)
                w = want(cam)
                R.eq(label, S.call(cam.getLogProbability), w, rel=1e-7)
                R.eq(label + " (objects visible)", S.call(cam.getLogProbability), w, assume=[T.lnot(T.isinf(w.t))], rel=1e-7)
                return cam
            nn = lambda t: ite(T.isnan(t.t), X(T.neg(T.INF)), t)
            case("common length and variation", (F, H, L[0], sd[0]), lambda c: nn(total([lognorm(v, L[0], sd[0]) for v in val(c)])))
            case("length and variation per object", (F, H, S.arr(L), S.arr(sd)), lambda c: nn(total([lognorm(v, a, b) for v, a, b in zip(val(c), L, sd)])))
            case("lists", (F, H, S.un(list(L)), S.un(list(sd))), lambda c: nn(total([lognorm(v, a, b) for v, a, b in zip(val(c), L, sd)])))
            case("variation per object", (F, H, L[0], S.arr(sd)), lambda c: nn(total([lognorm(v, L[0], b) for v, b in zip(val(c), sd)])))
            case("length per object", (F, H, S.arr(L), sd[0]), lambda c: nn(total([lognorm(v, a, sd[0]) for v, a in zip(val(c), L)])))
            case("only plotted", (F, H, L[0], sd[0]), lambda c: x(0), only_plot=True)
            if which == "length":
                z = S.f("Z", -3, 3)
                case("on another plane", (F, H, L[0], sd[0]), lambda c: nn(total([lognorm(v, L[0], sd[0]) for v in val(c, z)])), Z=z)
            # single object
            cam = make()
            S.call(S.get(cam, add), S.arr(f[0]), S.arr(h[0]), L[0], sd[0])
            R.eq("single object", S.call(cam.getLogProbability), nn(lognorm(S.call(S.get(cam, get), S.arr(f[0]), S.arr(h[0])).v, L[0], sd[0])), rel=1e-7)
            # the term follows the camera
            o2 = O(S, "N")
            for a in EXTR:
                S.set(cam, NAME[a], getattr(o2, a))
            R.eq("single object after moving the camera", S.call(cam.getLogProbability), nn(lognorm(S.call(S.get(cam, get), S.arr(f[0]), S.arr(h[0])).v, L[0], sd[0])), rel=1e-7)
            # unknown variation
            v1 = S.f("v1", 0.05, 1)
            par = S.ct("FitParameter")("variation", lower=0.01, upper=2.0, value=v1)
            cam = case("unknown variation", (F, H, S.arr(L), par), lambda c: nn(total([lognorm(v, a, v1) for v, a in zip(val(c), L)])))
            ad = S.I.iterate(S.get(cam, "additional_parameters").v)
            R.true("unknown variation is an additional parameter", len(ad) == 1 and ad[0] is par.v)
            v2 = S.f("v2", 1.1, 2)
            S.call(par.set_value, v2)
            R.eq("unknown variation, other value", S.call(cam.getLogProbability), nn(total([lognorm(v, a, v2) for v, a in zip(val(cam), L)])), rel=1e-7)
            if which == "length":
                case("unknown variation, on another plane", (F, H, S.arr(L), par), lambda c: nn(total([lognorm(v, a, v2) for v, a in zip(val(c, z), L)])), Z=z)
            cam = case("unknown variation, only plotted", (F, H, S.arr(L), par), lambda c: x(0), only_plot=True)
            R.true("only plotted: no additional parameter", len(S.I.iterate(S.get(cam, "additional_parameters").v)) == 0)
        R.group("object height, " + what, lambda S: size(S, "height"), allowed=("LinAlgError",))
        R.group("object length, " + what, lambda S: size(S, "length"), allowed=("LinAlgError",))

    def landmarks(S, gps=False, lens="none"):
        p, o, k = P(S), O(S), coef(S, lens)
        make = lambda: mk(S, RECT, lens, p, o, k)
        uv = [pixel(S, str(i)) for i in range(2)]
        if gps:
            la, lo = S.f("glat", -60, 60), S.f("glon", -150, 150)
            geo = [[x(la) + S.f("dlat%d" % i, 0.001, 0.01), x(lo) + S.f("dlon%d" % i, 0.001, 0.01), S.f("hgt%d" % i, 0, 100)] for i in range(2)]
        pts = [[x(c) for c in point3(S, str(i), -60, 60)] for i in range(2)]
        sig = [[S.f("s%s%d" % (c, i), 1, 9) for c in "xyz"] for i in range(2)]
        add = "addLandmarkInformationGPS" if gps else "addLandmarkInformation"

        def ref(cam, which, sigs):
            r = []
            _, dirs = S.I.unpack(S.call(cam.getRay, S.arr(uv), normed=True).v, 2)
            dirs = rows(S, Obj(S, dirs))
            m = [s for row in sigs for s in row]
            for i in which:
                pt = vec(S, S.call(cam.spaceFromGPS, S.arr(geo[i]))) if gps else pts[i]
                r.append(landmark_m(o.t(), dirs[i], pt, sigs[i], m))
            return total(r)

        def landmark_m(of, d, pt, sig, allsig, n=1000):
            t = norm([dot(sub3(pt, of), d) * c for c in d])
            m = x(allsig[0])
            for s in allsig[1:]:
                m = max2(m, s)
            m = m * 2
            near = [x(k) + t * c for k, c in zip(of, d)]
            sq = m * m * (n * (n + 1) / (3.0 * (n - 1)))
            r = x(0)
            for a, b, c, s in zip(near, pt, d, sig):
                z, q = (a - b) / s, c / s
                r = r - (z * z / 2 + log(s) + log(2 * pi()) / 2) * n - sq * q * q / 2
            return r

        def case(label, idx, pos, unc, sigs, **kw):
            cam = make()
            if gps:
                S.set(cam, "gps_lat", la)
                S.set(cam, "gps_lon", lo)
            img = S.arr([uv[i] for i in idx]) if len(idx) > 1 else S.arr(uv[idx[0]])
            P3 = [geo[i] if gps else pts[i] for i in idx]
            S.call(S.get(cam, add), img, S.arr(P3 if len(idx) > 1 else P3[0]), unc, **kw)
            if kw.get("only_plot"):
                R.eq(label, S.call(cam.getLogProbability), 0)
            else:
                R.eq(label, S.call(cam.getLogProbability), ref(cam, idx, sigs), rel=1e-5, npoints=6)
            return cam
        s0 = sig[0]
        case("one landmark, common uncertainty", [0], None, s0[0], [[s0[0]] * 3])
        case("one landmark, uncertainty per axis", [0], None, S.arr(s0), [s0])
        case("one landmark, list", [0], None, S.un(list(s0)), [s0])
        case("only plotted", [0, 1], None, S.arr(s0), None, only_plot=True)
        if not gps or R.thorough:
            case("two landmarks, uncertainty per axis", [0, 1], None, S.arr(s0), [s0, s0])
            case("two landmarks, uncertainty per landmark and axis", [0, 1], None, S.arr(sig), sig)
    R.group("landmarks", landmarks, allowed=("LinAlgError",))
    R.group("landmarks, lens Brown", lambda S: landmarks(S, lens="Brown"), allowed=("LinAlgError",))
    R.group("landmarks (GPS)", lambda S: landmarks(S, gps=True), allowed=("LinAlgError",))

    def horizon(S):
        cam = small(S)
        hx, hy = [S.f("hx%d" % i, 0, 4) for i in range(2)], [S.f("hy%d" % i, 0, 3) for i in range(2)]
        sd = [S.f("sd%d" % i, 0.2, 3) for i in range(2)]
        pts = [[a, b] for a, b in zip(hx, hy)]
        line = rows(S, S.call(cam.getImageHorizon, S.arr(hx)))
        nn = lambda t: ite(T.isnan(t.t), X(T.neg(T.INF)), t)
        o = O(S, "H")
        st = S.fork()
        for label, unc, ss in (("common uncertainty", sd[0], [sd[0]] * 2), ("uncertainty per point", None, sd)):
            S.back(st)
            unc = unc or S.arr(sd)
            S.call(cam.addHorizonInformation, S.arr(pts), unc)
            R.eq("horizon, " + label, S.call(cam.getLogProbability), nn(total([lognorm(x(h) - r[1], 0, s) for h, r, s in zip(hy, line, ss)])))
        S.back(st)
        S.call(cam.addHorizonInformation, pts, sd[0])
        R.eq("horizon as list", S.call(cam.getLogProbability), nn(total([lognorm(x(h) - r[1], 0, sd[0]) for h, r in zip(hy, line)])))
        S.back(st)
        S.call(cam.addHorizonInformation, S.arr(pts[0]), sd[0])
        R.eq("horizon, single point", S.call(cam.getLogProbability), nn(lognorm(x(hy[0]) - line[0][1], 0, sd[0])))
        S.back(st)
        S.call(cam.addHorizonInformation, S.arr(pts), sd[0], only_plot=True)
        R.eq("horizon, only plotted", S.call(cam.getLogProbability), 0)
    R.group("horizon", horizon)

    def group(S):
        p, oa, ob = P(S), O(S, "a"), O(S, "b")
        k = coef(S, "Brown")

        def make():
            return S.ct("CameraGroup")(S.ct(RECT)(**p.kw()), S.un([S.ct("SpatialOrientation")(**q.kw()) for q in (oa, ob)]), S.ct("BrownLensDistortion")(**k))
        g = make()
        base = sqrt((x(oa.x) - ob.x) ** 2 + (x(oa.y) - ob.y) ** 2)
        t, s = S.f("target", 1, 50), S.f("sd", 0.5, 5)
        R.eq("no information", S.call(g.getLogProbability), 0)
        S.call(g.addBaselineInformation, t, s)
        R.eq("baseline", S.call(g.getLogProbability), lognorm(base, t, s), rel=1e-6)
        c1, c2 = [pixel(S, "c%d" % i) for i in range(2)], [pixel(S, "d%d" % i) for i in range(2)]
        g = make()
        S.call(g.addBaselineInformation, t)
        R.eq("baseline, default uncertainty", S.call(g.getLogProbability), lognorm(base, t, 6), rel=1e-6)

        def epi(i, hide):
            """distance of the positions in image 1-i from the epipolar line of the positions in image i"""
            here, other = (c1, c2) if i == 0 else (c2, c1)
            out = []
            for a, b in zip(here, other):
                of, d = [vec(S, Obj(S, q)) for q in S.I.unpack(S.call(g[i].getRay, S.arr(a)).v, 2)]
                q1, q2 = [vec(S, S.call(g[1 - i].imageFromSpace, S.arr([u + m * w for u, w in zip(of, d)]), hide_backpoints=hide)) for m in (1, 2)]
                v = [u - w for u, w in zip(q2, q1)]
                dl = [x(u) - w for u, w in zip(b, q1)]
                out.append(absx(v[0] * dl[1] - v[1] * dl[0]) / norm(v))
            return out
        nn = lambda t: ite(T.isnan(t.t), X(T.neg(T.INF)), t)
        R.eq("correspondence error", S.call(g.pointCorrespondenceError, S.arr(c1), S.arr(c2)), [epi(0, False), epi(1, False)], rel=1e-5)
        h = make()
        S.call(h.addPointCorrespondenceInformation, S.arr(c1), S.arr(c2), s)
        want = total([lognorm(e, 0, s) for i in (0, 1) for e in epi(i, True)])
        R.eq("correspondence", S.call(h.getLogProbability), nn(want), rel=1e-5)
        h = make()
        S.call(h.addPointCorrespondenceInformation, S.arr(c1), S.arr(c2))
        R.eq("correspondence, default uncertainty", S.call(h.getLogProbability), nn(total([lognorm(e, 0, 1) for i in (0, 1) for e in epi(i, True)])), rel=1e-5)
        # the terms of the member cameras count too
        L, sd = S.f("len", 0.3, 3), S.f("sdl", 0.05, 2)
        h = make()
        S.call(h.addBaselineInformation, t, s)
        a, b = S.arr(c1), S.arr(c2)
        S.call(h[0].addObjectLengthInformation, a, b, L, sd)
        S.call(h[1].addObjectHeightInformation, b, a, L, sd)
        one = total([lognorm(v, L, sd) for v in vec(S, S.call(h[0].getObjectLength, a, b))])
        two = total([lognorm(v, L, sd) for v in vec(S, S.call(h[1].getObjectHeight, b, a))])
        R.eq("group and members", S.call(h.getLogProbability), nn(lognorm(base, t, s) + one + two), rel=1e-6)
        R.eq("first member alone", S.call(h[0].getLogProbability), nn(one), rel=1e-6)
        R.eq("second member alone", S.call(h[1].getLogProbability), nn(two), rel=1e-6)
        R.eq("another group has no information", S.call(make().getLogProbability), 0)
        S.call(h.clearLogProbability)
        R.eq("group cleared, members not", S.call(h.getLogProbability), nn(one + two), rel=1e-6)
    R.group("group", group, allowed=("LinAlgError",))

    def several(S):
        """sum of terms, clear, separation of cameras, custom terms, not-a-number"""
        p, o = P(S), O(S)
        cam, other = mk(S, RECT, "none", p, o, {}), mk(S, RECT, "none", p, o, {})
        a, b = S.arr(pixel(S, "a")), S.arr(pixel(S, "b"))
        L, sd = S.f("len", 0.3, 3), S.f("sd", 0.05, 2)
        M, sm = S.f("len2", 0.3, 3), S.f("sd2", 0.05, 2)
        nn = lambda t: ite(T.isnan(t.t), X(T.neg(T.INF)), t)
        R.eq("no information", S.call(cam.getLogProbability), 0)
        S.call(cam.addObjectHeightInformation, a, b, L, sd)
        S.call(cam.addObjectLengthInformation, a, b, M, sm)
        S.call(cam.addCustomoLogProbability, S.get(cam, "distanceToHorizon"))
        hgt = lognorm(S.call(cam.getObjectHeight, a, b).v, L, sd)
        lgt = lognorm(S.call(cam.getObjectLength, a, b).v, M, sm)
        own = x(S.call(cam.distanceToHorizon).v)
        R.eq("sum of all terms", S.call(cam.getLogProbability), nn(hgt + lgt + own))
        R.eq("sum of all terms, raw", S.call(cam._getLogProbability_raw), hgt + lgt + own)
        R.eq("other camera", S.call(other.getLogProbability), 0)
        S.call(cam.addObjectHeightInformation, a, b, M, sm)
        hgt2 = lognorm(S.call(cam.getObjectHeight, a, b).v, M, sm)
        R.eq("two terms of a kind", S.call(cam.getLogProbability), nn(hgt + lgt + own + hgt2))
        par = S.ct("FitParameter")("extra", lower=0.0, upper=1.0, value=0.5)
        S.call(cam.addCustomoLogProbability, S.get(cam, "distanceToHorizon"), S.un([par]))
        ad = S.I.iterate(S.get(cam, "additional_parameters").v)
        R.true("additional parameter of a custom term", len(ad) == 1 and ad[0] is par.v)
        R.eq("additional parameters of the other camera", len(S.I.iterate(S.get(other, "additional_parameters").v)), 0)
        S.call(cam.clearLogProbability)
        R.eq("cleared", S.call(cam.getLogProbability), 0)
        R.eq("additional parameters cleared", len(S.I.iterate(S.get(cam, "additional_parameters").v)), 0)
        S.call(cam.addObjectLengthInformation, a, b, M, sm)
        R.eq("used again after clearing", S.call(cam.getLogProbability), nn(lgt))
    R.group("several terms", several)

    def accumulate(S):
        """every kind of term is added to the terms that are there already"""
        p, o = P(S), O(S)
        p.w, p.h = 4, 3
        a, b = S.arr([pixel(S, "a")]), S.arr([pixel(S, "b")])
        pt = S.arr([point3(S, "l", -60, 60)])
        geo = S.arr([[S.f("glat", 0.001, 0.01), S.f("glon", 0.001, 0.01), S.f("hgt", 0, 100)]])
        hor = S.arr([[S.f("hx", 0, 4), S.f("hy", 0, 3)]])
        L, sd = S.f("len", 0.3, 3), S.f("sd", 0.5, 2)
        par = S.ct("FitParameter")("variation", lower=0.01, upper=2.0, value=sd)
        kinds = [("addObjectHeightInformation", (a, b, L, sd)), ("addObjectHeightInformation", (a, b, L, par)), ("addObjectLengthInformation", (a, b, L, sd)),
                 ("addObjectLengthInformation", (a, b, L, par)), ("addLandmarkInformation", (a, pt, sd)), ("addLandmarkInformationGPS", (a, geo, sd)), ("addHorizonInformation", (hor, sd))]
        nn = lambda t: ite(T.isnan(t.t), X(T.neg(T.INF)), t)
        for i, (name, args) in enumerate(kinds):
            cam, alone = mk(S, RECT, "none", p, o, {}), mk(S, RECT, "none", p, o, {})
            S.call(cam.addCustomoLogProbability, S.get(cam, "distanceToHorizon"))
            S.call(S.get(cam, name), *args)
            S.call(S.get(alone, name), *args)
            w = x(S.call(alone.getLogProbability).v)
            own = x(S.call(cam.distanceToHorizon).v)
            for lb, asm in (("", ()), (" (finite)", [T.lnot(T.isinf(w.t))])):
                R.eq("added to another term: %s, %d%s" % (name[3:], i, lb), S.call(cam.getLogProbability), w + own, assume=asm, rel=1e-6, npoints=8)
            S.call(cam.addCustomoLogProbability, S.get(cam, "distanceToHorizon"))
            R.eq("followed by another term: %s, %d" % (name[3:], i), S.call(cam.getLogProbability), w + own * 2, rel=1e-6, npoints=8)
    R.group("accumulation", accumulate)
