"""Save and load: the abstract file written by save is read back by the abstract load (json and files are modelled as exact
stores); every parameter, the classes of the parts and the transforms of the loaded camera are compared with the saved
camera's, for every combination of projection, lens and orientation class."""
from .common import *
from .c10 import NAME, INTR, EXTR, coef, CLS, COEF, compare

YPR = dict(el="elevation_m", head="yaw_deg", tilt="pitch_deg", roll="roll_deg", x="pos_x_m", y="pos_y_m")
ASSUMES = ["json.dumps/json.loads and file write/read are modelled as exact stores of numbers, strings, lists and dicts"]


def mk(S, kind, lens, ypr, p, o, k, extra=None):
    kw = dict(p.kw())
    kw.update(extra or {})
    pr = S.ct(kind)(**kw)
    cls = S.sub("spatial", "SpatialOrientationYawPitchRoll") if ypr else S.ct("SpatialOrientation")
    cam = S.ct("Camera")(pr, S.call(cls, **(o.ypr_kw() if ypr else o.kw())), S.ct(CLS[lens])(**k))
    return cam


def cls_name(S, v):
    return S.I.getattr_(S.un(v), "__class__").name


def stored(S, name):
    """(cell, host structure) of a json file written in this session"""
    from ..extmodel import JsonText
    c = S.I.st.cells["files"][name]
    t = [q for q in S.I.st.cells[c] if isinstance(q, JsonText)]
    if len(t) != 1:
        raise Undecided("the file is not one json text")
    return c, t[0].v


def same(R, S, label, cam, kind, lens, ypr, p, o, k, gps=None):
    for n in INTR:
        R.eq("%s: %s" % (label, NAME[n]), S.get(cam, NAME[n]), getattr(p, n))
    for n in EXTR:
        R.eq("%s: %s" % (label, (YPR if ypr else NAME)[n]), S.get(cam, (YPR if ypr else NAME)[n]), getattr(o, n))
    for n in k:
        R.eq("%s: %s" % (label, n), S.get(cam, n), k[n])
    if gps is not None:
        R.eq("%s: gps position" % label, [cam.gps_lat, cam.gps_lon], list(gps))
    for part, want in (("projection", kind), ("lens", CLS[lens]), ("orientation", "SpatialOrientationYawPitchRoll" if ypr else "SpatialOrientation")):
        got = cls_name(S, S.get(cam, part))
        R.true("%s: kind of %s" % (label, part), got == want, detail="%s instead of %s" % (got, want))
    compare(R, S, label, cam, kind, lens, p, o, k, ypr)


def run(R):
    for kind in PROJ:
        for lens in CLS:
            for ypr in (False, True):
                def trip(S):
                    p, o, k = P(S), O(S), coef(S, lens)
                    sw, sh = S.f("sw", 5, 50), S.f("sh", 5, 50)
                    cam = mk(S, kind, lens, ypr, p, o, k, dict(sensor=(sw, sh)))
                    g = S.f("lat", -90, 90), S.f("lon", -180, 180)
                    cam.gps_lat, cam.gps_lon = g
                    S.call(cam.save, "cam.json")
                    same(R, S, "saving leaves the camera alone", cam, kind, lens, ypr, p, o, k, g)
                    new = S.call(S.ct("load_camera"), "cam.json")
                    same(R, S, "load_camera", new, kind, lens, ypr, p, o, k, g)
                    R.eq("load_camera: sensor", [new.sensor_width_mm, new.sensor_height_mm], [sw, sh])
                    p2, o2 = P(S, "B"), O(S, "B")
                    other = mk(S, PROJ[(PROJ.index(kind) + 1) % 3], {"none": "Brown", "Brown": "ABC", "ABC": "none"}[lens], False, p2, o2,
                               coef(S, {"none": "Brown", "Brown": "ABC", "ABC": "none"}[lens], "B"))
                    S.call(other.load, "cam.json")
                    same(R, S, "load into another camera", other, kind, lens, ypr, p, o, k, g)
                    # the loaded camera is alive: later changes take effect, and a second generation is identical
                    p3 = P(S, "C")
                    for n in INTR:
                        S.set(new, NAME[n], getattr(p3, n))
                    o.el = S.f("el3", 1, 200)
                    new.elevation_m = o.el
                    same(R, S, "changed after loading", new, kind, lens, ypr, p3, o, k, g)
                    S.call(new.save, "cam2.json")
                    third = S.call(S.ct("load_camera"), "cam2.json")
                    same(R, S, "second generation", third, kind, lens, ypr, p3, o, k, g)
                R.group("%s, lens %s, %s" % (SHORT[kind], lens, "yaw-pitch-roll" if ypr else "tilt-heading-roll"), trip, allowed=("LinAlgError",))

    def unset(S):
        """parameters left at their defaults are restored to the same values"""
        p = P(S)
        cam = S.ct("Camera")(S.ct("RectilinearProjection")(**p.kw()), S.ct("SpatialOrientation")(), S.ct("BrownLensDistortion")(k2=S.f("k2", 0, 0.1)))
        a = S.f("da", 1, 50)
        S.set(S.get(cam, "defaults"), "elevation_m", a)
        S.call(cam.save, "d.json")
        new = S.call(S.ct("load_camera"), "d.json")
        for n, d in dict(elevation_m=a, tilt_deg=85, roll_deg=0, heading_deg=0, pos_x_m=0, pos_y_m=0, k1=0, k2=S.f("k2", 0, 0.1), k3=0, gps_lat=0, gps_lon=0).items():
            R.eq("default " + n, S.get(new, n), d)
    R.group("defaults", unset, allowed=("LinAlgError",))

    def extreme(S):
        """zero values are values"""
        p = P(S)
        cam = S.ct("Camera")(S.ct("RectilinearProjection")(**p.kw()), S.ct("SpatialOrientation")(elevation_m=0, tilt_deg=0, heading_deg=0))
        cam.center_x_px = 0
        cam.center_y_px = 0.0
        S.call(cam.save, "z.json")
        new = S.call(S.ct("load_camera"), "z.json")
        for n in ("elevation_m", "tilt_deg", "heading_deg", "center_x_px", "center_y_px"):
            R.eq("zero " + n, S.get(new, n), 0)
        R.eq("zero focal length difference", [new.focallength_x_px, new.focallength_y_px], [p.fx, p.fy])
    R.group("zeros", extreme, allowed=("LinAlgError",))

    def uncertain(S):
        p, o = P(S), O(S)
        cam, p, o = camera(S)
        m = S.f("mean", 1, 50)
        cam.elevation_m = (m, S.f("sd", 0.1, 1))
        S.call(cam.save, "u.json")
        new = S.call(S.ct("load_camera"), "u.json")
        R.eq("mean of an uncertain parameter", new.elevation_m, m)
    R.group("uncertain parameter", uncertain, allowed=("LinAlgError",))

    def history(S):
        """what is stored is the current value, whatever way it got there"""
        for way in ("fit", "fit interface", "sample", "mean", "default", "none", "part"):
            p, o, k = P(S, way), O(S, way), coef(S, "Brown", way)
            cam = mk(S, "RectilinearProjection", "Brown", False, p, o, k)
            ps = S.get(cam, "parameters")
            o.tilt, k["k2"], p.fy = S.f("nt" + way, -80, 80), S.f("nk" + way, 0, 0.1), S.f("nf" + way, 1000, 5000)
            new = dict(tilt_deg=o.tilt, k2=k["k2"], focallength_y_px=p.fy)
            if way == "fit interface":
                S.call(S.get(ps, "set_fit_parameters"), list(new), list(new.values()))
            elif way == "fit":
                for n, v in new.items():
                    S.call(S.get(ps, "set_fit_parameters"), S.un({n: v}))
            elif way == "part":
                S.set(S.get(S.get(cam, "orientation"), "parameters"), "tilt_deg", o.tilt)
                S.set(S.get(S.get(cam, "lens"), "parameters"), "k2", k["k2"])
                S.set(S.get(cam, "projection"), "focallength_y_px", p.fy)
            elif way in ("default", "none"):
                if way == "default":
                    o.tilt = 85
                    cam.tilt_deg = None
                else:
                    cam.tilt_deg = None
                    S.set(S.get(cam, "defaults"), "tilt_deg", o.tilt)
                cam.k2 = k["k2"]
                cam.focallength_y_px = p.fy
            else:
                cam.tilt_deg = (o.tilt, S.f("sd" + way, 0.1, 1))
                cam.k2 = k["k2"]
                cam.focallength_y_px = p.fy
                S.call(cam.sample)
                if way == "mean":
                    S.call(cam.set_to_mean)
                else:
                    o.tilt = S.get(cam, "tilt_deg").v
            f = "h %s.json" % way
            S.call(cam.save, f)
            same(R, S, "saved after a change by %s" % way, S.call(S.ct("load_camera"), f), "RectilinearProjection", "Brown", False, p, o, k)
    R.group("histories before saving", history, allowed=("LinAlgError",))

    def parts(S):
        for kind in PROJ:
            a, p = proj(S, kind)
            b, p2 = proj(S, kind, "B")
            S.call(a.save, "p.json")
            S.call(b.load, "p.json")
            for n in INTR:
                R.eq("%s: %s" % (kind, NAME[n]), S.get(b, NAME[n]), getattr(p, n))
                R.eq("%s: %s of the saved one" % (kind, NAME[n]), S.get(a, NAME[n]), getattr(p, n))
            uv = pixel(S)
            R.eq("%s: ray" % kind, S.call(b.getRay, S.arr(uv)), ref_ray(kind, uv, p))
        for ypr in (False, True):
            cls = S.sub("spatial", "SpatialOrientationYawPitchRoll") if ypr else S.ct("SpatialOrientation")
            o, o2 = O(S), O(S, "B")
            a = S.call(cls, **(o.ypr_kw() if ypr else o.kw()))
            b = S.call(cls, **(o2.ypr_kw() if ypr else o2.kw()))
            S.call(a.save, "o.json")
            S.call(b.load, "o.json")
            for n in EXTR:
                R.eq("orientation ypr=%s %s" % (ypr, n), S.get(b, (YPR if ypr else NAME)[n]), getattr(o, n))
            P3 = point3(S)
            R.eq("orientation ypr=%s transform" % ypr, S.call(b.cameraFromSpace, S.arr(P3)), S.call(a.cameraFromSpace, S.arr(P3)))
        for lens in ("Brown", "ABC"):
            k, k2 = coef(S, lens), coef(S, lens, "B")
            a, b = S.ct(CLS[lens])(**k), S.ct(CLS[lens])(**k2)
            S.call(a.save, "l.json")
            S.call(b.load, "l.json")
            for n in k:
                R.eq("lens %s %s" % (lens, n), S.get(b, n), k[n])
            q = S.f("qx", 0.1, 1), S.f("qy", 0.1, 1)
    R.group("parts", parts, allowed=("LinAlgError",))

    def legacy(S):
        """files without projection and lens entries are rectilinear cameras"""
        from ..extmodel import JsonText
        p, o, k = P(S), O(S), coef(S, "Brown")
        cam = mk(S, "RectilinearProjection", "none", False, p, o, {})
        S.call(cam.save, "l.json")
        c, d = stored(S, "l.json")
        if isinstance(d, tuple) and d[0] == "dict" and set(NAME.values()) <= {a for a, b in d[1]}:
            S.I.st.cells[c] = (JsonText(("dict", tuple((a, b) for a, b in d[1] if a not in ("projection", "lens")))),)
            same(R, S, "load", S.call(S.ct("load_camera"), "l.json"), "RectilinearProjection", "none", False, p, o, {})
    R.group("legacy", legacy, allowed=("LinAlgError",))
