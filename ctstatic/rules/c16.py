"""Great-circle geometry: getDistance, getBearing and moveDistance are interpreted abstractly for symbolic positions and compared
with the documented spherical formulas (radius 6371 km), their symmetries, and with each other (moving by a distance in a
bearing ends at a point at that distance and bearing)."""
from .common import *

RE = 6371e3


def gp(S, tag="", h=False):
    v = [S.f("lat" + tag, -80, 80, specials=(0.0,)), S.f("lon" + tag, -179, 179, specials=(0.0,))]
    if h:
        v.append(S.f("hgt" + tag, 0, 4000, specials=(0.0,)))
    return v


def ref_distance(a, b):
    la1, lo1, la2, lo2 = rad(a[0]), rad(a[1]), rad(b[0]), rad(b[1])
    s, t = sin((la2 - la1) / 2), sin((lo2 - lo1) / 2)
    q = s * s + cos(la1) * cos(la2) * t * t
    d = 2 * RE * asin(sqrt(q))
    if len(a) == 3 and len(b) == 3:
        dh = x(a[2]) - b[2]
        return sqrt(d * d + dh * dh)
    return d


def ref_bearing(a, b):
    la1, lo1, la2, lo2 = rad(a[0]), rad(a[1]), rad(b[0]), rad(b[1])
    dl = lo2 - lo1
    return deg(atan2(cos(la2) * sin(dl), cos(la1) * sin(la2) - sin(la1) * cos(la2) * cos(dl)))


def ref_move(a, d, b):
    la, lo, be = rad(a[0]), rad(a[1]), rad(b)
    r = x(RE) + a[2] if len(a) == 3 else x(RE)
    q = x(d) / r
    la2 = asin(sin(la) * cos(q) + cos(la) * sin(q) * cos(be))
    lo2 = lo + atan2(sin(be) * sin(q) * cos(la), cos(q) - sin(la) * sin(la2))
    return [deg(la2), deg(lo2)] + ([x(a[2])] if len(a) == 3 else [])


def run(R):
    def near(S, a, tag="n", m=3):
        """a second position some degrees away"""
        return [x(a[0]) + S.f("dla" + tag, -m, m), x(a[1]) + S.f("dlo" + tag, -m, m)] + ([S.f("hgt" + tag, 0, 4000)] if len(a) == 3 else [])

    def formulas(S):
        for h1 in (False, True):
            for h2 in (False, True):
                for far in (False, True):
                    a = gp(S, "", h1)
                    b = gp(S, "2", h2) if far else near(S, a + [0] * (2 + h2 - len(a)))[:2 + h2]
                    lab = "%d and %d coordinates%s" % (2 + h1, 2 + h2, ", any two places" if far else "")
                    A, B = S.arr(a), S.arr(b)
                    R.eq("distance, " + lab, S.call(S.ct("getDistance"), A, B), ref_distance(a, b), rel=1e-6)
                    R.eq("bearing, " + lab, S.call(S.ct("getBearing"), A, B), ref_bearing(a, b), rel=1e-7)
                    R.eq("distance backwards, " + lab, S.call(S.ct("getDistance"), B, A), ref_distance(a, b), rel=1e-6)
        a = gp(S, "", True)
        R.eq("distance to itself", S.call(S.ct("getDistance"), S.arr(a), S.arr(a)), 0)
        up = a[:2] + [x(a[2]) + S.f("up", 1, 100)]
        R.eq("distance straight up", S.call(S.ct("getDistance"), S.arr(a), S.arr(up)), S.f("up", 1, 100))
        R.eq("a full turn of longitude does not matter", S.call(S.ct("getDistance"), S.arr([a[0], x(a[1]) + 360]), S.arr(gp(S, "2"))),
             ref_distance(a[:2], gp(S, "2")), rel=1e-6)
    R.group("distance and bearing", formulas)

    def axes(S):
        la, lo, d = S.f("lat", -60, 60), S.f("lon", -170, 170), S.f("dl", 0.01, 5)
        b = lambda p, q: S.call(S.ct("getBearing"), S.arr(p), S.arr(q))
        R.eq("north is 0", b([la, lo], [x(la) + d, lo]), 0)
        R.eq("south is 180", absx(x(b([la, lo], [x(la) - d, lo]).v)), 180)
        R.eq("east along the equator is 90", b([0, lo], [0, x(lo) + d]), 90)
        R.eq("west along the equator is -90", b([0, lo], [0, x(lo) - d]), -90)
        R.eq("one degree of latitude", S.call(S.ct("getDistance"), S.arr([la, lo]), S.arr([x(la) + d, lo])), x(RE) * rad(d), rel=1e-7)
        R.eq("a quarter around the equator", S.call(S.ct("getDistance"), S.arr([0, lo]), S.arr([0, x(lo) + 90])), x(RE) * pi() / 2)
    R.group("axes", axes)

    def move(S):
        for h in (False, True):
            a = gp(S, "", h)
            d, b = S.f("dist", 1, 5e5), S.f("bear", -179, 179, specials=(0.0, 90.0))
            lab = "%d coordinates" % (2 + h)
            R.eq("formula, " + lab, S.call(S.ct("moveDistance"), S.arr(a), d, b), ref_move(a, d, b), rel=1e-9)
            far = S.f("dfar", 1e6, 1.5e7)
            R.eq("formula, long way, " + lab, S.call(S.ct("moveDistance"), S.arr(a), far, b), ref_move(a, far, b), rel=1e-9)
            R.eq("not moving, " + lab, S.call(S.ct("moveDistance"), S.arr(a), 0, b), a)
            batch = S.call(S.ct("moveDistance"), S.arr([a, gp(S, "2", h)]), S.arr([d, far]), S.arr([b, S.f("bear2", -179, 179)]))
            R.eq("batch, " + lab, batch, [ref_move(a, d, b), ref_move(gp(S, "2", h), far, S.f("bear2", -179, 179))], rel=1e-9)
            R.eq("a full turn of the bearing, " + lab, S.call(S.ct("moveDistance"), S.arr(a), d, x(b) + 360), ref_move(a, d, b), rel=1e-9)
        a = gp(S)
        R.eq("north increases the latitude", S.call(S.ct("moveDistance"), S.arr(a), S.f("dn", 1, 1e5), 0), [x(a[0]) + deg(x(S.f("dn", 1, 1e5)) / RE), a[1]])
        R.eq("east along the equator increases the longitude", S.call(S.ct("moveDistance"), S.arr([T.const(0), a[1]]), S.f("dn", 1, 1e5), 90),
             [0, x(a[1]) + deg(x(S.f("dn", 1, 1e5)) / RE)])
    R.group("moving", move)

    def consistent(S):
        a = gp(S)
        a[0] = S.f("latm", -75, 75)
        d, b = S.f("dist", 1e3, 1e6), S.f("bear", -179, 179)
        t = S.call(S.ct("moveDistance"), S.arr(a), d, b)
        R.eq("the target is at the moved distance", S.call(S.ct("getDistance"), S.arr(a), t), d, rel=1e-6)
        R.eq("the target is in the bearing", S.call(S.ct("getBearing"), S.arr(a), t), b, rel=1e-6)
        q = near(S, a)
        pa, pq = S.arr(a), S.arr(q)
        back = S.call(S.ct("moveDistance"), pa, S.call(S.ct("getDistance"), pa, pq), S.call(S.ct("getBearing"), pa, pq))
        R.eq("moving by distance and bearing reaches the other place", back, q, rel=1e-6)
    R.group("moving agrees with distance and bearing", consistent)
