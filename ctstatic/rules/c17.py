"""GPS and space coordinates: the conversions (module functions and camera methods) are interpreted abstractly and compared with
distance and bearing from the camera's GPS position; round trips, composition with the image transforms and every way of setting
the camera's GPS position are decided on the value numbers."""
from .common import *
from .c16 import RE, gp, ref_distance, ref_bearing, ref_move
from .c10 import mk, coef, CLS


def ref_space(g, g0):
    d, b = ref_distance(g0[:2], g[:2]), rad(ref_bearing(g0[:2], g[:2]))
    return [d * sin(b), d * cos(b), x(g[2]) if len(g) == 3 else x(0)]


def near(S, g0, tag="n", h=True, m=2):
    return [x(g0[0]) + S.f("dla" + tag, -m, m), x(g0[1]) + S.f("dlo" + tag, -m, m)] + ([S.f("h" + tag, 0, 300, specials=(0.0,))] if h else [])


def ref_gps(s, g0):
    d, b = norm([x(s[0]), x(s[1])]), deg(atan2(x(s[0]), x(s[1])))
    t = ref_move(g0, d, b)
    return t[:2] + ([x(s[2])] if len(s) == 3 else (t[2:] if len(g0) == 3 else []))


def gcam(S, kind="RectilinearProjection", lens="none"):
    p, o, k = P(S), O(S), coef(S, lens)
    cam = mk(S, kind, lens, p, o, k)
    g0 = [S.f("lat0", -75, 75, specials=(0.0,)), S.f("lon0", -175, 175, specials=(0.0,))]
    S.call(cam.setGPSpos, g0[0], g0[1])
    return cam, p, o, k, g0


def run(R):
    A = dict(rel=1e-6)

    def module(S):
        g0 = gp(S)
        g0[0] = S.f("lat0", -75, 75)
        g, g2 = near(S, g0), near(S, g0, "m")
        sp, gs = S.sub("gps", "spaceFromGPS"), S.sub("gps", "gpsFromSpace")
        G0 = S.arr(g0)
        R.eq("space from GPS", S.call(sp, S.arr(g), G0), ref_space(g, g0), **A)
        R.eq("space from GPS without height", S.call(sp, S.arr(g[:2]), G0), ref_space(g[:2], g0), **A)
        R.eq("space from GPS, batch", S.call(sp, S.arr([g, g2]), G0), [ref_space(g, g0), ref_space(g2, g0)], **A)
        R.eq("space from GPS, batch without height", S.call(sp, S.arr([g[:2], g2[:2]]), G0), [ref_space(g[:2], g0), ref_space(g2[:2], g0)], **A)
        R.eq("space from GPS, origin given as list", S.call(sp, S.arr(g), g0), ref_space(g, g0), **A)
        R.eq("space from GPS, origin with height", S.call(sp, S.arr(g), S.arr(g0 + [S.f("h0", 1, 100)])), ref_space(g, g0), **A)
        far = gp(S, "f", True)
        R.eq("space from GPS, far away", S.call(sp, S.arr(far), G0), ref_space(far, g0), **A)
        s, s2 = point3(S, "", -3e4, 3e4), point3(S, "2", -3e4, 3e4)
        R.eq("GPS from space", S.call(gs, S.arr(s), G0), ref_gps(s, g0), **A)
        R.eq("GPS from space, two coordinates", S.call(gs, S.arr(s[:2]), G0), ref_gps(s[:2], g0), **A)
        R.eq("GPS from space, batch", S.call(gs, S.arr([s, s2]), G0), [ref_gps(s, g0), ref_gps(s2, g0)], **A)
        R.eq("space -> GPS -> space", S.call(sp, S.call(gs, S.arr(s), G0), G0), list(s), rel=1e-5)
        R.eq("GPS -> space -> GPS", S.call(gs, S.call(sp, S.arr(g), G0), G0), g, **A)
    R.group("functions", module)

    def camera_(S):
        cam, p, o, k, g0 = gcam(S)
        g, g2 = near(S, g0), near(S, g0, "m")
        G3 = g0 + [o.el]
        R.eq("space from GPS", S.call(cam.spaceFromGPS, S.arr(g)), ref_space(g, g0), **A)
        R.eq("space from GPS, batch", S.call(cam.spaceFromGPS, S.arr([g, g2])), [ref_space(g, g0), ref_space(g2, g0)], **A)
        R.eq("the GPS position is the space origin", S.call(cam.spaceFromGPS, S.arr(g0)), [0, 0, 0])
        R.eq("the space origin is at the GPS position", S.call(cam.gpsFromSpace, S.arr([0, 0, 0])), g0 + [0])
        s, s2 = point3(S, "", -3e4, 3e4), point3(S, "2", -3e4, 3e4)
        # the camera moves on the sphere through the camera
        R.eq("GPS from space", S.call(cam.gpsFromSpace, S.arr(s)), ref_gps(s, G3), **A)
        R.eq("GPS from space, batch", S.call(cam.gpsFromSpace, S.arr([s, s2])), [ref_gps(s, G3), ref_gps(s2, G3)], **A)
        f = (x(RE) + o.el) / RE
        back = vec(S, S.call(cam.spaceFromGPS, S.call(cam.gpsFromSpace, S.arr(s))))
        R.eq("space -> GPS -> space, up to the height of the camera", [back[0] * f, back[1] * f, back[2]], list(s), rel=1e-5)
        north = vec(S, S.call(cam.spaceFromGPS, S.arr([x(g0[0]) + S.f("dn", 0.001, 2), g0[1]])))
        R.eq("the north is along y", north, [0, x(RE) * rad(S.f("dn", 0.001, 2)), 0], rel=1e-6)
        S.set(cam, "gps_lat", S.f("lat1", -75, 75))
        S.set(cam, "gps_lon", S.f("lon1", -175, 175))
        g1 = [S.f("lat1", -75, 75), S.f("lon1", -175, 175)]
        g = near(S, g1)
        R.eq("after moving the camera", S.call(cam.spaceFromGPS, S.arr(g)), ref_space(g, g1), **A)
        R.eq("GPS from space after moving the camera", S.call(cam.gpsFromSpace, S.arr(s)), ref_gps(s, g1 + [o.el]), **A)
        S.set(cam, "elevation_m", S.f("el1", 200, 400))
        R.eq("GPS from space after raising the camera", S.call(cam.gpsFromSpace, S.arr(s)), ref_gps(s, g1 + [S.f("el1", 200, 400)]), **A)
    R.group("camera", camera_, allowed=("LinAlgError",))

    combos = [(PROJ[0], "none"), (PROJ[0], "Brown"), (PROJ[1], "none"), (PROJ[2], "ABC")]
    if R.thorough:
        combos = [(a, b) for a in PROJ for b in CLS]
    for kind, lens in combos:
        def chain(S):
            cam, p, o, k, g0 = gcam(S, kind, lens)
            g, g2 = near(S, g0, m=0.01), near(S, g0, "m", m=0.01)
            R.eq("image from GPS", S.call(cam.imageFromGPS, S.arr(g)), S.call(cam.imageFromSpace, S.call(cam.spaceFromGPS, S.arr(g))))
            R.eq("image from GPS is the image of the space point", S.call(cam.imageFromGPS, S.arr(g)), S.call(cam.imageFromSpace, S.arr(ref_space(g, g0))), rel=1e-4)
            R.eq("image from GPS, batch", S.call(cam.imageFromGPS, S.arr([g, g2])), S.call(cam.imageFromSpace, S.call(cam.spaceFromGPS, S.arr([g, g2]))))
            R.eq("image from GPS without height", S.call(cam.imageFromGPS, S.arr(g[:2])), S.call(cam.imageFromSpace, S.call(cam.spaceFromGPS, S.arr(g[:2] + [T.ZERO]))))
            px = S.arr([pixel(S), pixel(S, "2")])
            R.eq("GPS from image", S.call(cam.gpsFromImage, px), S.call(cam.gpsFromSpace, S.call(cam.spaceFromImage, px)))
            for c in "XYZD":
                v = S.f("c" + c, 1, 50)
                R.eq("GPS from image, given " + c, S.call(cam.gpsFromImage, px, **{c: v}), S.call(cam.gpsFromSpace, S.call(cam.spaceFromImage, px, **{c: v})))
                vs = S.arr([v, S.f("e" + c, 1, 50)])
                R.eq("GPS from image, given %s per point" % c, S.call(cam.gpsFromImage, px, **{c: vs}), S.call(cam.gpsFromSpace, S.call(cam.spaceFromImage, px, **{c: vs})))
            one = S.arr(pixel(S))
            R.eq("GPS from image, one point", S.call(cam.gpsFromImage, one, Z=3), S.call(cam.gpsFromSpace, S.call(cam.spaceFromImage, one, Z=3)))
        R.group("chain, %s, lens %s" % (SHORT[kind], lens), chain, allowed=("LinAlgError",))

    def setpos(S):
        la, lo, el = S.f("la", -80, 80, specials=(0.0,)), S.f("lo", -175, 175, specials=(0.0,)), S.f("newel", 210, 300)
        s0 = None
        def fresh():
            cam, p, o = camera(S)
            return cam, o
        def state(label, cam, want):
            for n, w in zip(("gps_lat", "gps_lon", "elevation_m"), want):
                R.eq("%s: %s" % (label, n), S.get(cam, n), w)
                part = S.get(S.get(cam, "parameters"), n) if n != "elevation_m" else S.get(S.get(cam, "orientation"), n)
                R.eq("%s: %s, read through the parameters" % (label, n), part, w)
        def go(label, want, *a, **kw):
            cam, o = fresh()
            S.call(cam.setGPSpos, *a, **kw)
            state(label, cam, [want[0], want[1], o.el if want[2] is None else want[2]])
            pt = point3(S)
            o2 = O(S)
            o2.el = o.el if want[2] is None else want[2]
            R.eq("%s: the camera height takes effect" % label, S.call(cam.orientation.cameraFromSpace, S.arr(pt)), ref_camera_from_space(o2, pt))
        go("two numbers", [la, lo, None], la, lo)
        go("three numbers", [la, lo, el], la, lo, el)
        go("keywords", [la, lo, el], lat=la, lon=lo, elevation=el)
        go("zero elevation", [la, lo, 0], la, lo, 0)
        go("integers", [S.i("ila", -80, 80), S.i("ilo", -170, 170), S.i("iel", 1, 99)], S.i("ila", -80, 80), S.i("ilo", -170, 170), S.i("iel", 1, 99))
        go("tuple", [la, lo, None], (la, lo))
        go("tuple with elevation", [la, lo, el], (la, lo, el))
        go("tuple and elevation", [la, lo, el], (la, lo), elevation=el)
        go("array", [la, lo, el], S.arr([la, lo, el]))
        go("list", [la, lo, None], S.un([la, lo]))
        go("text", [70.5, -8.25, None], "70.5\u00b0 -8.25\u00b0")
        go("text and elevation", [70.5, -8.25, el], "70.5\u00b0 -8.25\u00b0", elevation=el)
        go("text with letters", [-70.5, 8.25, None], "70\u00b0 30' S 8\u00b0 15' E")
        # a later call replaces the position
        cam, o = fresh()
        S.call(cam.setGPSpos, la, lo, el)
        lb, lp = S.f("lb", -80, 80), S.f("lp", -175, 175)
        S.call(cam.setGPSpos, lb, lp)
        state("second call without elevation", cam, [lb, lp, el])
    R.group("setGPSpos", setpos, allowed=("LinAlgError",))
