"""Derived state follows the parameters: after every abstract history of parameter changes (attribute of the camera or of a
part, parameter set, fit interface, default, value with uncertainty, reset to default) the abstract transforms of the camera
are compared with those of a camera constructed afresh from the current parameter values."""
from .common import *
from .c06 import LENSES

INTR = ["fx", "fy", "cx", "cy", "w", "h"]
NAME = dict(fx="focallength_x_px", fy="focallength_y_px", cx="center_x_px", cy="center_y_px", w="image_width_px", h="image_height_px",
            el="elevation_m", tilt="tilt_deg", roll="roll_deg", head="heading_deg", x="pos_x_m", y="pos_y_m")
EXTR = ["el", "tilt", "roll", "head", "x", "y"]
COEF = {"none": [], "Brown": ["k1", "k2", "k3"], "ABC": ["a", "b", "c"]}
CLS = {"none": "NoDistortion", "Brown": "BrownLensDistortion", "ABC": "ABCDistortion"}


def coef(S, lens, tag=""):
    hi = {"Brown": (0.3, 0.1, 0.05), "ABC": (0.05, 0.05, 0.05), "none": ()}[lens]
    return {n: S.f(n + tag, 0, h) for n, h in zip(COEF[lens], hi)}


def mk(S, kind, lens, p, o, k, ypr=False):
    pr = S.ct(kind)(**p.kw())
    cls = S.sub("spatial", "SpatialOrientationYawPitchRoll") if ypr else S.ct("SpatialOrientation")
    orr = S.call(cls, **(o.ypr_kw() if ypr else o.kw()))
    le = S.ct(CLS[lens])(**k)
    return S.ct("Camera")(pr, orr, le)


def compare(R, S, label, cam, kind, lens, p, o, k, ypr=False, key=None):
    fresh = mk(S, kind, lens, p, o, k, ypr)
    P3 = point3(S, lo=-60, hi=60)
    c = ref_camera_from_space(o, P3)
    uv = pixel(S)
    if not ypr:
        a = [c[2] < -1] if kind == "RectilinearProjection" else [c[0] * c[0] + c[2] * c[2] > 1]
    else:
        a = []
    R.eq(label + ": image of a point", S.call(cam.imageFromSpace, S.arr(P3), hide_backpoints=False), S.call(fresh.imageFromSpace, S.arr(P3), hide_backpoints=False), assume=a, key=key)
    off, d = S.I.unpack(S.call(cam.getRay, S.arr(uv)).v, 2)
    off2, d2 = S.I.unpack(S.call(fresh.getRay, S.arr(uv)).v, 2)
    R.eq(label + ": origin", Obj(S, off), Obj(S, off2), key=key)
    R.eq(label + ": ray", Obj(S, d), Obj(S, d2), key=key)


def assign(S, cam, route, part, name, val):
    if route == "camera":
        S.set(cam, name, val)
    elif route == "part":
        S.set(S.get(cam, part), name, val)
    elif route == "parameters":
        S.set(S.get(S.get(cam, part), "parameters"), name, val)
    elif route == "camera parameters":
        S.set(S.get(cam, "parameters"), name, val)
    elif route == "fit":
        S.call(S.get(S.get(cam, "parameters"), "set_fit_parameters"), [name], [val])
    elif route == "fit dict":
        S.call(S.get(S.get(cam, "parameters"), "set_fit_parameters"), {name: val})
    elif route == "part fit":
        S.call(S.get(S.get(S.get(cam, part), "parameters"), "set_fit_parameters"), [name], S.arr([val]))
    elif route == "uncertain":
        S.set(cam, name, (val, S.f("sd", 0.1, 1)))
    else:
        raise KeyError(route)


ROUTES = ["camera", "part", "parameters", "camera parameters", "fit", "fit dict", "part fit", "uncertain"]


def run(R):
    combos = [("RectilinearProjection", "none"), ("RectilinearProjection", "Brown"), ("RectilinearProjection", "ABC"),
              ("CylindricalProjection", "Brown"), ("EquirectangularProjection", "ABC")]
    if R.thorough:
        combos = [(k, l) for k in PROJ for l in CLS]
    for kind, lens in combos:
        base = "%s, lens %s" % (SHORT[kind], lens)
        routes = ROUTES if (kind == "RectilinearProjection" or R.thorough) else ROUTES[:2]
        for route in routes:
            def each(S, route=route):
                """one parameter after the other, with uses of the camera in between"""
                p, o, k = P(S), O(S), coef(S, lens)
                p2, o2, k2 = P(S, "B"), O(S, "B"), coef(S, lens, "B")
                cam = mk(S, kind, lens, p, o, k)
                uv = pixel(S)
                for n in INTR:
                    setattr(p, n, getattr(p2, n))
                    assign(S, cam, route, "projection", NAME[n], getattr(p2, n))
                    if n in ("fx", "cy", "h"):
                        compare(R, S, "after " + NAME[n], cam, kind, lens, p, o, k)
                    else:
                        S.call(cam.getRay, S.arr(uv))
                for n in EXTR:
                    setattr(o, n, getattr(o2, n))
                    assign(S, cam, route, "orientation", NAME[n], getattr(o2, n))
                    if n in ("el", "head", "y"):
                        compare(R, S, "after " + NAME[n], cam, kind, lens, p, o, k)
                for n in k:
                    k[n] = k2[n]
                    assign(S, cam, route, "lens", n, k2[n])
                    compare(R, S, "after " + n, cam, kind, lens, p, o, k)
            R.group("%s, changes by %s" % (base, route), each, allowed=("LinAlgError",))

        def single(S):
            """every parameter alone as the only change"""
            p, o, k = P(S), O(S), coef(S, lens)
            p2, o2, k2 = P(S, "B"), O(S, "B"), coef(S, lens, "B")
            cam = mk(S, kind, lens, p, o, k)
            st = S.fork()
            for n in INTR + EXTR + list(k):
                S.back(st)
                part = "projection" if n in INTR else "orientation" if n in EXTR else "lens"
                tgt, src = (p, p2) if n in INTR else (o, o2)
                if part == "lens":
                    old = k[n]
                    k[n] = k2[n]
                    assign(S, cam, "camera", part, n, k2[n])
                    compare(R, S, "only " + n, cam, kind, lens, p, o, k)
                    k[n] = old
                else:
                    old = getattr(tgt, n)
                    setattr(tgt, n, getattr(src, n))
                    assign(S, cam, "camera", part, NAME[n], getattr(src, n))
                    compare(R, S, "only " + NAME[n], cam, kind, lens, p, o, k)
                    setattr(tgt, n, old)
        if kind == "RectilinearProjection" or R.thorough:
            R.group("%s, single change" % base, single, allowed=("LinAlgError",))

        def joint(S):
            """all at once by the fit interface; then the common focal length"""
            p, o, k = P(S), O(S), coef(S, lens)
            cam = mk(S, kind, lens, p, o, k)
            p2, o2, k2 = P(S, "B"), O(S, "B"), coef(S, lens, "B")
            names = [NAME[n] for n in INTR + EXTR] + list(k)
            vals = [getattr(p2, n) for n in INTR] + [getattr(o2, n) for n in EXTR] + list(k2.values())
            S.call(S.get(S.get(cam, "parameters"), "set_fit_parameters"), names, vals)
            compare(R, S, "all parameters fitted", cam, kind, lens, p2, o2, k2)
            f = S.f("f", 1500, 4000)
            cam.focallength_px = f
            p2.fx = p2.fy = f
            compare(R, S, "common focal length", cam, kind, lens, p2, o2, k2)
            S.call(S.get(S.get(cam, "parameters"), "set_fit_parameters"), ["focallength_px"], [p.fx])
            p2.fx = p2.fy = p.fx
            compare(R, S, "common focal length fitted", cam, kind, lens, p2, o2, k2)
        R.group("%s, joint change" % base, joint, allowed=("LinAlgError",))

    def defaults(S):
        """parameters left at their default follow the default"""
        p, o = P(S), O(S)
        pr = S.ct("RectilinearProjection")(**p.kw())
        orr = S.ct("SpatialOrientation")()
        cam = S.ct("Camera")(pr, orr, S.ct("BrownLensDistortion")())
        st = S.fork()
        for who in ("camera", "part"):
            S.back(st)
            for n in EXTR:
                d = S.get(cam if who == "camera" else orr, "defaults")
                S.set(d, NAME[n], getattr(o, n))
            k = coef(S, "Brown")
            for n in k:
                S.set(S.get(cam if who == "camera" else S.get(cam, "lens"), "defaults"), n, k[n])
            compare(R, S, "defaults of the %s" % who, cam, "RectilinearProjection", "Brown", p, o, k)
        o2 = O(S, "B")
        for n in EXTR:
            S.set(cam, NAME[n], getattr(o2, n))
            S.set(S.get(cam, "defaults"), NAME[n], getattr(o, n))
        compare(R, S, "a set value hides the default", cam, "RectilinearProjection", "Brown", p, o2, k)
        for n in EXTR:
            S.set(cam, NAME[n], None)
        compare(R, S, "reset to None falls back to the default", cam, "RectilinearProjection", "Brown", p, o, k)
    R.group("defaults", defaults, allowed=("LinAlgError",))

    def turns(S):
        """headings outside of one turn"""
        p, o = P(S), O(S)
        cam = mk(S, "RectilinearProjection", "none", p, o, {})
        h = S.f("headw", -1000, 1000, specials=(360.0, -360.0, 400.0, -725.0))
        cam.heading_deg = h
        o.head = h
        P3, uv = point3(S, lo=-60, hi=60), pixel(S)
        c = ref_camera_from_space(o, P3)
        R.eq("heading beyond a full turn", S.call(S.get(cam, "orientation").cameraFromSpace, S.arr(P3)), c)
        R.eq("and back", S.call(S.get(cam, "orientation").spaceFromCamera, S.arr(P3)), ref_space_from_camera(o, P3))
    R.group("full turns", turns, allowed=("LinAlgError",))

    def ypr(S):
        p, o = P(S), O(S)
        cam = mk(S, "RectilinearProjection", "none", p, o, {}, ypr=True)
        o2 = O(S, "B")
        names = dict(el="elevation_m", head="yaw_deg", tilt="pitch_deg", roll="roll_deg", x="pos_x_m", y="pos_y_m")
        for route in ("camera", "part", "fit"):
            for n in names:
                new = O(S, "B" + route) if route != "camera" else o2
                setattr(o, n, getattr(new, n))
                assign(S, cam, route, "orientation", names[n], getattr(new, n))
                compare(R, S, "%s by %s" % (names[n], route), cam, "RectilinearProjection", "none", p, o, {}, ypr=True)
    R.group("yaw-pitch-roll", ypr, allowed=("LinAlgError",))

    def swap(S):
        """a lens moved to another camera follows the new camera's projection"""
        p, p2, o, k = P(S), P(S, "B"), O(S), coef(S, "Brown")
        cam = mk(S, "RectilinearProjection", "Brown", p, o, k)
        lens = S.get(cam, "lens")
        pr2 = S.ct("CylindricalProjection")(**p2.kw())
        cam2 = S.ct("Camera")(pr2, S.ct("SpatialOrientation")(**o.kw()), lens)
        compare(R, S, "moved lens", cam2, "CylindricalProjection", "Brown", p2, o, k)
        p3 = P(S, "C")
        for n in INTR:
            S.set(cam2, NAME[n], getattr(p3, n))
        compare(R, S, "moved lens, new intrinsics", cam2, "CylindricalProjection", "Brown", p3, o, k)
    R.group("lens used by another camera", swap, allowed=("LinAlgError",))

    def shared(S):
        """two cameras with own lenses share one projection object"""
        p, o, k = P(S), O(S), coef(S, "Brown")
        pr = S.ct("RectilinearProjection")(**p.kw())
        c1 = S.ct("Camera")(pr, S.ct("SpatialOrientation")(**o.kw()), S.ct("BrownLensDistortion")(**k))
        c2 = S.ct("Camera")(pr, S.ct("SpatialOrientation")(**o.kw()), S.ct("BrownLensDistortion")(**k))
        c1.focallength_x_px = p2x = P(S, "B").fx
        p.fx = p2x
        compare(R, S, "second camera", c2, "RectilinearProjection", "Brown", p, o, k)
        compare(R, S, "first camera", c1, "RectilinearProjection", "Brown", p, o, k)
        k1 = coef(S, "Brown", "B")["k1"]
        c1.k1 = k1
        compare(R, S, "first camera after own lens change", c1, "RectilinearProjection", "Brown", p, o, dict(k, k1=k1))
        compare(R, S, "second camera keeps its lens", c2, "RectilinearProjection", "Brown", p, o, k)
    R.group("shared projection", shared, allowed=("LinAlgError",))

    def shared_orient(S):
        p, o = P(S), O(S)
        orr = S.ct("SpatialOrientation")(**o.kw())
        c1 = S.ct("Camera")(S.ct("RectilinearProjection")(**p.kw()), orr)
        c2 = S.ct("Camera")(S.ct("RectilinearProjection")(**p.kw()), orr)
        o2 = O(S, "B")
        for n in EXTR:
            S.set(c1, NAME[n], getattr(o2, n))
        compare(R, S, "other camera", c2, "RectilinearProjection", "none", p, o2, {})
    R.group("shared orientation", shared_orient, allowed=("LinAlgError",))

    def independent(S):
        """separately built cameras do not influence each other"""
        p, o, k = P(S), O(S), coef(S, "Brown")
        c1, c2 = mk(S, "RectilinearProjection", "Brown", p, o, k), mk(S, "RectilinearProjection", "Brown", p, o, k)
        p2, o2, k2 = P(S, "B"), O(S, "B"), coef(S, "Brown", "B")
        for n in INTR:
            S.set(c1, NAME[n], getattr(p2, n))
        for n in EXTR:
            S.set(c1, NAME[n], getattr(o2, n))
        for n in k:
            S.set(c1, n, k2[n])
        compare(R, S, "untouched camera", c2, "RectilinearProjection", "Brown", p, o, k)
    R.group("independent cameras", independent, allowed=("LinAlgError",))

    def sampled(S):
        """parameters with uncertainty: sampling and returning to the mean"""
        p, o, k = P(S), O(S), coef(S, "Brown")
        cam = mk(S, "RectilinearProjection", "Brown", p, o, k)
        o2, p2 = O(S, "B"), P(S, "B")
        cam.elevation_m = (o2.el, S.f("sd", 0.1, 1))
        cam.tilt_deg = (o2.tilt, S.f("sd2", 0.1, 1))
        cam.focallength_x_px = (p2.fx, S.f("sd3", 0.1, 1))
        o.el, o.tilt, p.fx = o2.el, o2.tilt, p2.fx
        compare(R, S, "mean after setting", cam, "RectilinearProjection", "Brown", p, o, k)
        S.call(cam.sample)
        o.el, o.tilt, p.fx = Obj(S, S.get(cam, "elevation_m").v).v, S.get(cam, "tilt_deg").v, S.get(cam, "focallength_x_px").v
        compare(R, S, "after sampling", cam, "RectilinearProjection", "Brown", p, o, k)
        S.call(cam.set_to_mean)
        o.el, o.tilt, p.fx = o2.el, o2.tilt, p2.fx
        compare(R, S, "after set_to_mean", cam, "RectilinearProjection", "Brown", p, o, k)
    R.group("uncertain parameters", sampled, allowed=("LinAlgError",))
