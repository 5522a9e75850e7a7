"""Camera groups: every combination of shared and per-camera parts is built abstractly; each member camera is compared with a camera
built alone from the parts at its index, before and after changes through the group, a member and the fit interface; parameter
names (C<i>_name or name), images, baseline and scaling are compared with their definitions."""
from .common import *
from .c10 import mk, coef, CLS, NAME, INTR, EXTR, compare

RECT = "RectilinearProjection"


def build(S, nproj, nor, nlens, lens, kind=RECT, default=()):
    n = max(nproj, nor, nlens)
    ps = [P(S, "abc"[i]) for i in range(nproj)]
    os_ = [O(S, "abc"[i]) for i in range(nor)]
    ks = [coef(S, lens, "_" + "abc"[i]) for i in range(nlens)]
    pr = [S.ct(kind)(**p.kw()) for p in ps]
    orr = [S.ct("SpatialOrientation")(**o.kw()) for o in os_]
    le = [S.ct(CLS[lens])(**k) for k in ks]
    one = lambda l, k: l[0] if k == 1 else S.un(l)
    args = [one(pr, nproj), one(orr, nor)] + ([] if "lens" in default else [one(le, nlens)])
    g = S.ct("CameraGroup")(*args)
    return g, n, ps, os_, ks


def at(l, i):
    return l[i % len(l)]


def run(R):
    layouts = [(1, 2, 1, "none"), (1, 3, 1, "Brown"), (2, 2, 2, "Brown"), (2, 2, 1, "none"), (1, 2, 2, "ABC"), (2, 1, 2, "ABC"), (1, 1, 1, "Brown"), (3, 3, 3, "ABC")]
    for nproj, nor, nlens, lens in layouts:
        label = "%d projection(s), %d orientation(s), %d lens(es) %s" % (nproj, nor, nlens, lens)

        def members(S):
            g, n, ps, os_, ks = build(S, nproj, nor, nlens, lens)
            R.eq("number of cameras", S.call(S.get(g, "__len__")), n)
            R.eq("number of cameras (attribute)", S.get(g, "N"), n)
            its = [Obj(S, v) for v in S.I.iterate(g.v)]
            R.true("iteration gives all cameras", len(its) == n)
            for i in range(n):
                R.true("iteration order, camera %d" % i, its[i].v is g[i].v or its[i].v == g[i].v)
            for i in range(n):
                compare(R, S, "camera %d" % i, g[i], RECT, lens, at(ps, i), at(os_, i), at(ks, i))
            pt, qt = point3(S, "a"), point3(S, "b")
            im = S.call(g.imagesFromSpace, S.arr([pt, qt]))
            lst = [Obj(S, v) for v in S.I.iterate(im.v)]
            R.true("one image per camera", len(lst) == n)
            for i in range(n):
                R.eq("image %d" % i, lst[i], S.call(g[i].imageFromSpace, S.arr([pt, qt])))
        R.group(label + ": members", members, allowed=("LinAlgError",))

        def names(S):
            g, n, ps, os_, ks = build(S, nproj, nor, nlens, lens)
            for lst, attrs in ((ps, INTR), (os_, EXTR)):
                for i, q in enumerate(lst):
                    for a in attrs:
                        nm = NAME[a] if len(lst) == 1 else "C%d_%s" % (i, NAME[a])
                        R.eq("read " + nm, S.get(g, nm), getattr(q, a))
            for i, k in enumerate(ks):
                for a in k:
                    nm = a if len(ks) == 1 else "C%d_%s" % (i, a)
                    R.eq("read " + nm, S.get(g, nm), k[a])
        R.group(label + ": names", names, allowed=("LinAlgError",))

        def changes(S):
            for route in ("group", "parameters", "fit"):
                g, n, ps, os_, ks = build(S, nproj, nor, nlens, lens)

                def assign(nm, v):
                    if route == "group":
                        S.set(g, nm, v)
                    elif route == "parameters":
                        S.set(S.get(g, "parameters"), nm, v)
                    else:
                        S.call(S.get(S.get(g, "parameters"), "set_fit_parameters"), S.un([nm]), S.un([v]))
                for lst, attr in ((ps, "fx"), (ps, "cy"), (os_, "tilt"), (os_, "x")):
                    i = len(lst) - 1
                    new = getattr(P(S, "N") if lst is ps else O(S, "N"), attr)
                    setattr(lst[i], attr, new)
                    assign(NAME[attr] if len(lst) == 1 else "C%d_%s" % (i, NAME[attr]), new)
                for nm in list(ks[0])[:1]:
                    new = coef(S, lens, "N")[nm]
                    ks[0] = dict(ks[0], **{nm: new})
                    assign(nm if len(ks) == 1 else "C0_" + nm, new)
                for i in range(n):
                    compare(R, S, "%s: camera %d" % (route, i), g[i], RECT, lens, at(ps, i), at(os_, i), at(ks, i))
                # through a member camera
                o3 = O(S, "M")
                S.set(g[0], "heading_deg", o3.head)
                os_[0].head = o3.head
                R.eq("%s: change through a member is seen in the group" % route, S.get(g, "heading_deg" if len(os_) == 1 else "C0_heading_deg"), o3.head)
                for i in range(n):
                    compare(R, S, "%s, then through a member: camera %d" % (route, i), g[i], RECT, lens, at(ps, i), at(os_, i), at(ks, i))
        R.group(label + ": changes", changes, allowed=("LinAlgError",))

    def onelens(S):
        """known finding: the lens is bound to the last projection"""
        g, n, ps, os_, ks = build(S, 2, 2, 1, "Brown")
        compare(R, S, "last camera", g[1], RECT, "Brown", ps[1], os_[1], ks[0])
        compare(R, S, "first camera", g[0], RECT, "Brown", ps[0], os_[0], ks[0])
    R.group("one lens for two projections", onelens, allowed=("LinAlgError",))

    def geometry(S):
        g, n, ps, os_, ks = build(S, 1, 2, 1, "none")
        a, b = os_
        R.eq("baseline", S.call(g.getBaseline), sqrt((x(a.x) - b.x) ** 2 + (x(a.y) - b.y) ** 2), assume=[absx(x(a.x) - b.x) > 1])
        R.eq("baseline does not depend on the order", S.call(S.ct("CameraGroup")(S.ct(RECT)(**ps[0].kw()), S.un([S.ct("SpatialOrientation")(**q.kw()) for q in (b, a)])).getBaseline),
             S.call(g.getBaseline), assume=[absx(x(a.x) - b.x) > 1])
        s = S.f("s", 0.1, 5)
        pt = point3(S)
        c = ref_camera_from_space(a, pt)
        before = [S.call(g[i].imageFromSpace, S.arr(pt), hide_backpoints=False) for i in range(2)]
        S.call(g.scaleSpace, s)
        for i, q in enumerate(os_):
            for nm in EXTR:
                w = getattr(q, nm)
                R.eq("scaled: %s of camera %d" % (NAME[nm], i), S.get(g[i], NAME[nm]), x(w) * s if nm in ("x", "y", "el") else w)
            for nm in INTR:
                R.eq("scaled: %s of camera %d" % (NAME[nm], i), S.get(g[i], NAME[nm]), getattr(ps[0], nm))
            c = ref_camera_from_space(q, pt)
            R.eq("scaled: image of the scaled point, camera %d" % i, S.call(g[i].imageFromSpace, S.arr([x(k) * s for k in pt]), hide_backpoints=False), before[i], assume=[absx(c[2]) > 1], rel=1e-7)
        for q in os_:
            q.x, q.y, q.el = (x(v) * s for v in (q.x, q.y, q.el))
        for i in range(2):
            compare(R, S, "scaled: camera %d" % i, g[i], RECT, "none", ps[0], os_[i], {})
        R.eq("scaled baseline", S.call(g.getBaseline), sqrt((x(a.x) - b.x) ** 2 + (x(a.y) - b.y) ** 2), assume=[absx(x(a.x) - b.x) > 1])
    R.group("baseline and scaling", geometry, allowed=("LinAlgError",))

    def defaults(S):
        p, o1, o2 = P(S), O(S, "a"), O(S, "b")
        p2 = P(S, "2")
        orr = lambda: S.un([S.ct("SpatialOrientation")(**q.kw()) for q in (o1, o2)])
        g = S.ct("CameraGroup")(S.ct(RECT)(**p.kw()), orr())
        for i, q in enumerate((o1, o2)):
            compare(R, S, "no lens given: camera %d" % i, g[i], RECT, "none", p, q, {})
        g = S.ct("CameraGroup")(S.ct(RECT)(**p.kw()), (S.ct("SpatialOrientation")(**o1.kw()), S.ct("SpatialOrientation")(**o2.kw())))
        R.eq("tuple of orientations: number", S.call(S.get(g, "__len__")), 2)
        for i, q in enumerate((o1, o2)):
            compare(R, S, "tuple of orientations: camera %d" % i, g[i], RECT, "none", p, q, {})
        g = S.ct("CameraGroup")(S.un([S.ct(RECT)(**p.kw()), S.ct(RECT)(**p2.kw())]))
        for i, q in enumerate((p, p2)):
            alone = S.ct("Camera")(S.ct(RECT)(**q.kw()))
            pt = S.arr(point3(S))
            R.eq("no orientation given: camera %d" % i, S.call(g[i].imageFromSpace, pt), S.call(alone.imageFromSpace, pt))
        g = S.ct("CameraGroup")(projection=S.ct(RECT)(**p.kw()), orientation=orr(), lens=S.un([S.ct("NoDistortion")(), S.ct("NoDistortion")()]))
        for i, q in enumerate((o1, o2)):
            compare(R, S, "keyword arguments: camera %d" % i, g[i], RECT, "none", p, q, {})
    R.group("defaults", defaults, allowed=("LinAlgError",))

    def independent(S):
        """two groups do not influence each other"""
        g, n, ps, os_, ks = build(S, 1, 2, 1, "Brown")
        h, n2, ps2, os2, ks2 = build(S, 1, 2, 1, "Brown")
        N = P(S, "N")
        S.set(h, "focallength_x_px", N.fx)
        S.set(h, "C1_tilt_deg", O(S, "N").tilt)
        S.set(h, "k1", coef(S, "Brown", "N")["k1"])
        S.call(h.scaleSpace, S.f("s", 2, 3))
        for i in range(2):
            compare(R, S, "other group: camera %d" % i, g[i], RECT, "Brown", ps[0], os_[i], ks[0])
    R.group("independent groups", independent, allowed=("LinAlgError",))
