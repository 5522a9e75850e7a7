"""Parameter access: the effect of every way of reading and writing a parameter is interpreted abstractly (attribute of the
object or of its parts, defaults, None, value with uncertainty, sampling, fit interface) and compared with the documented
meaning; which parameters count as unknown for a fit is decided for every state."""
from .common import *
from ..interp import has_unk
from .c10 import NAME, INTR, EXTR, mk, coef, CLS, COEF

EXTDEF = dict(elevation_m=30, tilt_deg=85, roll_deg=0, heading_deg=0, pos_x_m=0, pos_y_m=0)


def names(S, v):
    return [x for x in S.I.iterate(S.un(v))]


def run(R):
    for kind, lens in (("RectilinearProjection", "Brown"), ("CylindricalProjection", "ABC"), ("EquirectangularProjection", "none")):
        def views(S):
            """the same parameter is seen through the camera, the part and the parameter set"""
            p, o, k = P(S), O(S), coef(S, lens)
            cam = mk(S, kind, lens, p, o, k)
            p2, o2, k2 = P(S, "B"), O(S, "B"), coef(S, lens, "B")
            parts = [("projection", NAME[n], getattr(p, n), getattr(p2, n)) for n in INTR] + \
                    [("orientation", NAME[n], getattr(o, n), getattr(o2, n)) for n in EXTR] + [("lens", n, k[n], k2[n]) for n in k]
            for part, n, v, _ in parts:
                for who, ob in (("camera", cam), ("part", S.get(cam, part)), ("parameter set", S.get(S.get(cam, part), "parameters")), ("camera parameters", S.get(cam, "parameters"))):
                    R.eq("%s read through the %s" % (n, who), S.get(ob, n), v)
            for i, (part, n, v, v2) in enumerate(parts):
                w = [cam, S.get(cam, part), S.get(S.get(cam, part), "parameters"), S.get(cam, "parameters")][i % 4]
                S.set(w, n, v2)
                for ob in (cam, S.get(cam, part), S.get(S.get(cam, part), "parameters"), S.get(cam, "parameters")):
                    R.eq("%s read after writing" % n, S.get(ob, n), v2)
            for part, n, v, v2 in parts:
                R.eq("%s unaffected by the other writes" % n, S.get(cam, n), v2)
        R.group("%s, lens %s, one value everywhere" % (SHORT[kind], lens), views, allowed=("LinAlgError",))

    def defaults(S):
        o = S.ct("SpatialOrientation")()
        for n, d in EXTDEF.items():
            R.eq("%s has its documented default" % n, S.get(o, n), float(d))
        a, b, c = S.f("da", 1, 50), S.f("db", 1, 50), S.f("dc", 1, 50)
        for n in EXTDEF:
            R.eq("default of %s readable" % n, S.get(S.get(o, "defaults"), n), float(EXTDEF[n]))
            S.set(S.get(o, "defaults"), n, a)
            R.eq("unset %s follows its default" % n, S.get(o, n), a)
            S.set(o, n, b)
            R.eq("set %s wins" % n, S.get(o, n), b)
            S.set(S.get(o, "defaults"), n, c)
            R.eq("default of %s does not replace a value" % n, S.get(o, n), b)
            R.eq("default of %s stored" % n, S.get(S.get(o, "defaults"), n), c)
            S.set(o, n, None)
            R.eq("None resets %s" % n, S.get(o, n), c)
        S.set(o, "elevation_m", 0)
        R.eq("zero is a value, not unset", S.get(o, "elevation_m"), 0)
        S.set(o, "elevation_m", 0.0)
        R.eq("0.0 is a value, not unset", S.get(o, "elevation_m"), 0)
        z = S.ct("SpatialOrientation")(elevation_m=0, tilt_deg=0)
        R.eq("constructed with zero elevation", S.get(z, "elevation_m"), 0)
        R.eq("constructed with zero tilt", S.get(z, "tilt_deg"), 0)
        for n in ("a", "b", "c"):
            R.eq("lens default " + n, S.get(S.ct("ABCDistortion")(), n), 0)
        for n in ("k1", "k2", "k3"):
            R.eq("lens default " + n, S.get(S.ct("BrownLensDistortion")(), n), 0)
        R.eq("first instance unaffected", S.get(S.ct("SpatialOrientation")(), "heading_deg"), 0)
    R.group("defaults", defaults, allowed=("LinAlgError",))

    def unknown(S):
        p = P(S)
        pr = S.ct("RectilinearProjection")(**p.kw())
        cam = S.ct("Camera")(pr, S.ct("SpatialOrientation")(elevation_m=S.f("el", 1, 200), heading_deg=0), S.ct("BrownLensDistortion")(k2=S.f("k2", 0, 0.1)))
        ps = S.get(cam, "parameters")

        def unk(t=None, ob=ps):
            return set(names(S, S.call(S.get(ob, "get_fit_parameters"), *([] if t is None else [t]))))
        want = {"tilt_deg", "roll_deg", "pos_x_m", "pos_y_m", "k1", "k3", "sensor_height_mm", "sensor_width_mm"}
        R.true("parameters never given are unknown", unk() == want, detail="unknown parameters %s, expected %s" % (sorted(unk()), sorted(want)))
        typ = {n: S.sub("parameter_set", "TYPE_" + n) for n in ("INTRINSIC", "EXTRINSIC1", "EXTRINSIC2", "EXTRINSIC", "DISTORTION", "GPS")}
        sel = dict(INTRINSIC={"sensor_height_mm", "sensor_width_mm"}, EXTRINSIC1={"tilt_deg", "roll_deg"}, EXTRINSIC2={"pos_x_m", "pos_y_m"},
                   EXTRINSIC={"tilt_deg", "roll_deg", "pos_x_m", "pos_y_m"}, DISTORTION={"k1", "k3"}, GPS=set())
        for t in sel:
            got = unk(typ[t])
            R.true("unknown parameters of type " + t, got == sel[t], detail="%s, expected %s" % (sorted(got), sorted(sel[t])))
        cam.tilt_deg = S.f("tilt", -85, 85)
        R.true("a set parameter is known", "tilt_deg" not in unk())
        cam.tilt_deg = None
        R.true("reset to None is unknown again", "tilt_deg" in unk())
        S.call(S.get(ps, "set_fit_parameters"), ["tilt_deg", "elevation_m"], [S.f("tilt", -85, 85), S.f("el2", 1, 200)])
        R.true("a fitted parameter stays fittable", {"tilt_deg", "elevation_m"} <= unk())
        S.set(S.get(cam, "defaults"), "roll_deg", S.f("roll", -9, 9))
        R.true("a default does not make a parameter known", "roll_deg" in unk())
        cam.heading_deg = (S.f("head", -9, 9), S.f("sd", 0.1, 1))
        R.true("a value with uncertainty is known", "heading_deg" not in unk())
        d = vec(S, S.call(S.get(ps, "get_parameter_defaults"), ["elevation_m", "tilt_deg", "k1"]))
        R.eq("defaults by name", d, [30, 85, 0])
        want = dict(tilt_deg=(-90, 90), elevation_m=(0, None), pos_x_m=(None, None), roll_deg=(-180, 180), k1=(0, None), k2=(0, None), k3=(0, None),
                    heading_deg=(None, None), pos_y_m=(None, None), focallength_x_px=(None, None), image_width_px=(None, None))
        for ask in (["tilt_deg", "elevation_m", "pos_x_m"], sorted(want), sorted(want, reverse=True)):
            rg = [tuple(names(S, r)) for r in names(S, S.call(S.get(ps, "get_parameter_ranges"), list(ask)))]
            R.true("ranges by name", rg == [want[n] for n in ask], detail="ranges %r" % (rg,))
        dw = dict(tilt_deg=85, heading_deg=0, pos_x_m=0, pos_y_m=0, k2=0, k3=0)
        for ask in (sorted(dw), sorted(dw, reverse=True)):
            R.eq("defaults by name", vec(S, S.call(S.get(ps, "get_parameter_defaults"), list(ask))), [dw[n] for n in ask])
    R.group("unknown parameters", unknown, allowed=("LinAlgError",))

    def stats(S):
        cam, p, o = camera(S)
        m, s = S.f("mean", 1, 50), S.f("sd", 0.1, 2)
        cam.elevation_m = (m, s)
        R.eq("a value with uncertainty reads as its mean", S.get(cam, "elevation_m"), m)
        before = {n: S.get(cam, NAME[n]).v for n in INTR + EXTR}
        seen = set()
        for again in ("", ", second sample", ", sample after reset"):
            if "reset" in again:
                S.call(cam.set_to_mean)
            S.call(cam.sample)
            v = S.get(cam, "elevation_m")
            t = vec(S, v)[0].t
            draws = [u for u in T.subterms([t]) if u.op == "sym" and u.args[0].startswith("z#")]
            fresh = [u for u in draws if u not in seen]
            seen |= set(draws)
            if fresh:
                z = X(fresh[-1])
                R.eq("drawn from a normal distribution of this mean and deviation" + again, (X(t) - m) * (X(t) - m), z * z * x(s) * s)
            else:
                R.true("a new draw decides the value" + again, has_unk(t), detail="the sampled value does not depend on a new random draw")
        for n in before:
            if n != "el":
                R.eq("sampling leaves %s alone" % NAME[n], S.get(cam, NAME[n]), before[n])
        S.call(cam.set_to_mean)
        R.eq("set_to_mean returns to the mean", S.get(cam, "elevation_m"), m)
        w = S.f("w1", 1, 50)
        cam.elevation_m = w
        S.call(cam.sample)
        R.eq("a plain value ends the uncertainty (sample)", S.get(cam, "elevation_m"), w)
        S.call(cam.set_to_mean)
        R.eq("a plain value ends the uncertainty (set_to_mean)", S.get(cam, "elevation_m"), w)
        for n in before:
            if n != "el":
                R.eq("set_to_mean leaves %s alone" % NAME[n], S.get(cam, NAME[n]), before[n])
    R.group("uncertainty", stats, allowed=("LinAlgError",))

    def common(S):
        for kind in PROJ:
            pr, p = proj(S, kind)
            f = S.f("f", 1500, 4000)
            pr.focallength_px = f
            R.eq("%s: both focal lengths set (x)" % kind, pr.focallength_x_px, f)
            R.eq("%s: both focal lengths set (y)" % kind, pr.focallength_y_px, f)
            R.eq("%s: readable" % kind, pr.focallength_px, f)
            R.eq("%s: center unchanged" % kind, [pr.center_x_px, pr.center_y_px], [p.cx, p.cy])
            g = S.f("g", 1500, 4000)
            pr.focallength_y_px = g
            R.eq("%s: individual y" % kind, pr.focallength_y_px, g)
            R.eq("%s: x unchanged by y" % kind, pr.focallength_x_px, f)
            pr.focallength_x_px = p.fx
            R.eq("%s: y unchanged by x" % kind, pr.focallength_y_px, g)
    R.group("common focal length", common)

    def other(S):
        """attributes that are no parameters behave like normal attributes"""
        cam, p, o = camera(S)
        v = S.f("any", 0, 1)
        cam.my_note = v
        R.eq("free attribute", cam.my_note, v)
        R.expect_raise("unknown attribute", S, lambda: S.get(cam, "not_there"), ("AttributeError",))
        R.expect_raise("unknown parameter", S, lambda: S.get(S.get(cam, "parameters"), "not_there"), ("AttributeError",))
        R.eq("parameters unaffected", cam.elevation_m, o.el)
        R.eq("position vector", S.call(cam.getPos), [o.x, o.y, o.el])
    R.group("other attributes", other, allowed=("LinAlgError",))
