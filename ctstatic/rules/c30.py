"""Plots: every plotting method is interpreted abstractly with matplotlib replaced by a recorder of what is drawn in which axes. The drawn
series must contain the observations that were given and the predictions of the camera with its current parameters, joined pairwise."""
from .common import *
from .c10 import mk, coef, INTR, EXTR, NAME
from .c13 import img

RECT = "RectilinearProjection"


class Mark:
    def __init__(self, axes, name, args, kw):
        self.axes, self.name, self.args, self.kw = axes, name, args, kw


def marks(S, n0=0):
    """everything drawn since event n0"""
    out, axes = [], None
    for e in S.I.events[n0:]:
        if e[0] != "plt":
            continue
        if e[1] == "axes":
            axes = e[2][0]
        else:
            out.append(Mark(e[4] if len(e) > 4 else axes, e[1], e[2], e[3]))
    return out


def xy(S, m):
    """[(x, y), ...] of a series, None if it is not numeric"""
    try:
        (_, a), (_, b) = S.terms(Obj(S, m.args[0])), S.terms(Obj(S, m.args[1]))
    except (Undecided, NotNumeric, IndexError, KeyError):
        return None
    return list(zip(a, b)) if len(a) == len(b) else None


def differ(R, S, a, b, assume, rel):
    conds = S.pc() + S.assume + list(assume)
    for p, q in zip(a, b):
        for u, v in zip(p, q):
            v = tm(v)
            if u is v:
                continue
            pt, used = T.refute(u, v, conds, 12, True, rel)
            R.points += used
            if pt is not None:
                return True
    return False


def drawn(R, S, label, ms, want, names=("plot", "scatter"), axes=None, assume=(), rel=1e-6):
    """one of the recorded series is the wanted one"""
    ms = [m for m in ms if m.name in names and (axes is None or m.axes == axes)]
    cand = [(m, xy(S, m)) for m in ms]
    lost = [m for m, s in cand if s is None]
    fit = [(m, s) for m, s in cand if s is not None and len(s) == len(want)]
    full = R.group_name + " / " + label
    fit.sort(key=lambda c: -sum(u is tm(v) for p, q in zip(c[1], want) for u, v in zip(p, q)))
    for m, s in fit:
        if not differ(R, S, s, want, assume, rel):
            R.eq(label, S.arr([list(p) for p in s]), [list(p) for p in want], assume=assume, rel=rel)
            return
    if lost:
        R.record(full, "undecided", "a drawn series is not known")
    elif fit:
        n = len(R.findings)
        for m, s in fit:
            R.eq(label, S.arr([list(p) for p in s]), [list(p) for p in want], assume=assume, rel=rel)
            if len(R.findings) > n:
                return
    else:
        p = feasible(S.pc() + S.assume + list(assume), 12)
        if p is None:
            R.record(full, "undecided", "no witness")
        else:
            R.violate(full, "nothing of %d points is drawn (drawn: %s)" % (len(want), ["%s of %d" % (m.name, len(s)) for m, s in cand if s is not None]), S)


def joined(obs, pred):
    return [q for a, b in zip(obs, pred) for q in (a, b, (nan(), nan()))]


def run(R):
    combos = [(RECT, "none"), (RECT, "Brown"), (PROJ[1], "none")]
    if R.thorough:
        combos += [(PROJ[2], "ABC"), (PROJ[1], "Brown"), (RECT, "ABC")]

    def plot(S, cam, *a):
        n0 = len(S.I.events)
        S.call(cam.plotFitInformation, *a)
        return marks(S, n0)

    def shows(R, S, what, ms, obs, pred, lines=True, **kw):
        drawn(R, S, what + ": observed positions", ms, obs, **kw)
        drawn(R, S, what + ": predicted positions", ms, pred, **kw)
        if lines:
            drawn(R, S, what + ": pairs joined", ms, joined(obs, pred), **kw)

    for kind, lens in combos:
        base = "%s, lens %s" % (SHORT[kind], lens)

        def start(S):
            p, o, k = P(S), O(S), coef(S, lens)
            return p, o, k, (lambda: mk(S, kind, lens, p, o, k))

        def pts(S, v):
            return [tuple(q) for q in rows(S, v)]

        def height(S):
            p, o, k, make = start(S)
            f, h = [pixel(S, "f%d" % i) for i in range(2)], [pixel(S, "h%d" % i) for i in range(2)]
            L = [S.f("len%d" % i, 0.3, 3) for i in range(2)]
            sd = S.f("sd", 0.05, 2)

            def head(cam, i, l):
                q = vec(S, S.call(cam.spaceFromImage, S.arr(f[i]), Z=0))
                return tuple(vec(S, S.call(cam.imageFromSpace, S.arr([q[0], q[1], q[2] + l]))))
            for label, size, ls, kw in (("common height", L[0], [L[0], L[0]], {}), ("height per object", S.arr(L), L, {}), ("only plotted", S.arr(L), L, dict(only_plot=True))):
                cam = make()
                S.call(cam.addObjectHeightInformation, S.arr(f), S.arr(h), size, sd, **kw)
                ms = plot(S, cam)
                pred = [head(cam, i, l) for i, l in enumerate(ls)]
                drawn(R, S, label + ": feet", ms, f)
                shows(R, S, label, ms, h, pred)
            cam = make()
            S.call(cam.addObjectHeightInformation, S.arr(f[0]), S.arr(h[0]), L[0], sd)
            o2 = O(S, "N")
            for a in EXTR:
                S.set(cam, NAME[a], getattr(o2, a))
            ms = plot(S, cam)
            drawn(R, S, "single object, camera moved: foot", ms, [f[0]])
            shows(R, S, "single object, camera moved", ms, [h[0]], [head(cam, 0, L[0])])
        R.group("object heights, " + base, height, allowed=("LinAlgError",))

        def length(S):
            p, o, k, make = start(S)
            f, h = [pixel(S, "f%d" % i) for i in range(2)], [pixel(S, "h%d" % i) for i in range(2)]
            f, h = f + [pixel(S, "f2")], h + [pixel(S, "h2")]
            L = [S.f("len%d" % i, 0.3, 3) for i in range(3)]
            sd, z = S.f("sd", 0.05, 2), S.f("Z", -3, 3)

            def end(cam, i, l, zz):
                a, b = (vec(S, S.call(cam.spaceFromImage, S.arr(q[i]), Z=zz)) for q in (f, h))
                d = [u - v for u, v in zip(b, a)]
                n = norm(d)
                return tuple(vec(S, S.call(cam.imageFromSpace, S.arr([u + v / n * l for u, v in zip(a, d)]))))
            for label, n, size, ls, kw in (("common length", 1, L[0], [L[0]], dict(Z=z)),) if lens != "none" else (("common length", 2, L[0], [L[0]] * 2, {}), ("length per object", 2, S.arr(L[:2]), L, {}),
                                           ("three objects", 3, S.arr(L), L, {}), ("on another plane", 2, L[0], [L[0]] * 2, dict(Z=z)),
                                           ("only plotted", 2, S.arr(L[:2]), L, dict(only_plot=True))):
                cam = make()
                S.call(cam.addObjectLengthInformation, S.arr(f[:n]), S.arr(h[:n]), size, sd, **kw)
                ms = plot(S, cam)
                pred = [end(cam, i, ls[i], kw.get("Z", 0)) for i in range(n)]
                drawn(R, S, label + ": front ends", ms, f[:n])
                drawn(R, S, label + ": observed back ends", ms, h[:n])
                drawn(R, S, label + ": predicted back ends", ms, pred)
                drawn(R, S, label + ": front and predicted back joined", ms, joined(f[:n], pred))
            cam = make()
            S.call(cam.addObjectLengthInformation, S.arr(f[0]), S.arr(h[0]), L[0], sd)
            o2 = O(S, "N")
            for a in EXTR:
                S.set(cam, NAME[a], getattr(o2, a))
            if lens != "none":
                return
            ms = plot(S, cam)
            drawn(R, S, "single object, camera moved: front end", ms, [f[0]])
            drawn(R, S, "single object, camera moved: predicted back end", ms, [end(cam, 0, L[0], 0)])
        R.group("object lengths, " + base, length, allowed=("LinAlgError",))

        def landmarks(gps):
            def go(S):
                p, o, k, make = start(S)
                uv = [pixel(S, str(i)) for i in range(3)]
                if gps:
                    la, lo = S.f("glat", -60, 60), S.f("glon", -150, 150)
                    pos = [[x(la) + S.f("dlat%d" % i, 0.001, 0.01), x(lo) + S.f("dlon%d" % i, 0.001, 0.01), S.f("hgt%d" % i, 0, 100)] for i in range(3)]
                else:
                    pos = [[x(c) for c in point3(S, str(i), -60, 60)] for i in range(3)]
                s = S.arr([1.0, 2.0, 3.0])

                def make2():
                    cam = make()
                    if gps:
                        S.call(cam.setGPSpos, la, lo, o.el)
                    return cam

                def pred(cam, i):
                    q = S.arr(pos[i])
                    return tuple(vec(S, S.call(cam.imageFromSpace, S.call(cam.spaceFromGPS, q) if gps else q)))
                add = "addLandmarkInformationGPS" if gps else "addLandmarkInformation"
                for n, kw in ((2, {}), (3, dict(only_plot=True))):
                    cam = make2()
                    S.call(S.get(cam, add), S.arr(uv[:n]), S.arr(pos[:n]), s, **kw)
                    shows(R, S, "%d landmarks" % n, plot(S, cam), uv[:n], [pred(cam, i) for i in range(n)])
                cam = make2()
                S.call(S.get(cam, add), S.arr(uv[0]), S.arr(pos[0]), s)
                o2 = O(S, "N")
                for a in EXTR:
                    if not (gps and a in ("x", "y")):
                        S.set(cam, NAME[a], getattr(o2, a))
                if gps:
                    S.call(cam.setGPSpos, x(la) - S.f("mlat", 0.0001, 0.0009), x(lo) - S.f("mlon", 0.0001, 0.0009), o2.el)
                shows(R, S, "one landmark, camera moved", plot(S, cam), uv[:1], [pred(cam, 0)])
            return go
        R.group("landmarks, " + base, landmarks(False), allowed=("LinAlgError",))
        R.group("landmarks with GPS positions, " + base, landmarks(True), allowed=("LinAlgError",))

    def horizon(S):
        p, o = P(S), O(S)
        p.w, p.h = 5, 4
        cam = mk(S, RECT, "none", p, o, {})
        hz = [(S.f("u%d" % i, 1, 4), S.f("v%d" % i, 1, 400)) for i in range(2)]
        ok = []

        def pred(us):
            return [tuple(q) for q in rows(S, S.call(cam.getImageHorizon, S.arr(us)))]
        S.call(cam.addHorizonInformation, S.arr(hz), 3.0)
        for label in ("horizon", "horizon, camera moved"):
            if label != "horizon":
                o2 = O(S, "N")
                for a in EXTR:
                    S.set(cam, NAME[a], getattr(o2, a))
            ms = plot(S, cam)
            shows(R, S, label, ms, hz, pred([u for u, v in hz]))
            drawn(R, S, label + ": line over the image", ms, pred([float(i) for i in range(5)]))
    R.group("horizon", horizon, allowed=("LinAlgError",))

    def figure(S):
        """image, order and limits"""
        p, o = P(S), O(S)
        cam = mk(S, RECT, "none", p, o, {})
        a, b = [pixel(S, "a%d" % i) for i in range(2)], [pixel(S, "b%d" % i) for i in range(3)]
        q = [[x(c) for c in point3(S, str(i), -60, 60)] for i in range(3)]
        im = img(S)
        ms = plot(S, cam)
        R.true("nothing drawn without information", not [m for m in ms if m.name in ("plot", "scatter", "imshow")])
        S.call(cam.addLandmarkInformation, S.arr(a), S.arr(q[:2]), S.arr([1.0, 1.0, 1.0]))
        S.call(cam.addLandmarkInformation, S.arr(b), S.arr(q), S.arr([1.0, 1.0, 1.0]), only_plot=True)
        for label, args in (("without image", ()), ("with image", (im,))):
            ms = plot(S, cam, *args)
            drawn(R, S, label + ": first information", ms, a)
            drawn(R, S, label + ": second information", ms, b)
            lim = {m.name: m for m in ms if m.name in ("xlim", "ylim")}
            for n, w in (("xlim", (0, p.w)), ("ylim", (p.h, 0))):
                m = lim.get(n)
                v = [] if m is None else [t for q_ in m.args for t in S.terms(Obj(S, q_))[1]] + [t for k in ("left", "bottom", "right", "top") if k in m.kw for t in S.terms(Obj(S, m.kw[k]))[1]]
                if len(v) == 2:
                    R.eq("%s: %s" % (label, n), S.arr(v), [w[0], w[1]])
                elif m is None and not [k_ for k_ in ms if k_.name in ("axis",)]:
                    R.violate(R.group_name + " / %s: %s" % (label, n), "no limits are set: the plot does not show the image's range", S)
                else:
                    R.record(R.group_name + " / %s: %s" % (label, n), "undecided", "limits not known")
            shown = [m for m in ms if m.name == "imshow"]
            if args:
                R.true("image shown once", len(shown) == 1)
                if shown:
                    R.eq("image", Obj(S, shown[0].args[0]), im)
            else:
                R.true("no image shown", not shown)
    R.group("figure", figure, allowed=("LinAlgError",))

    def views(S):
        """top view and undistorted image are shown over the extent they stand for"""
        p, o = P(S), O(S)
        p.w, p.h = 4, 3
        cam = mk(S, RECT, "Brown", p, o, coef(S, "Brown"))
        im = img(S)
        for i, e in enumerate(([-3, 1, 40, 43], [-3, 1, 40, 43], [0, 3, 41, 43])):
            n0 = len(S.I.events)
            got = S.call(cam.getTopViewOfImage, im, extent=list(e), scaling=1, do_plot=True)
            ms = [m for m in marks(S, n0) if m.name == "imshow"]
            R.true("top view %d: shown once" % i, len(ms) == 1)
            if ms:
                R.eq("top view %d: image" % i, Obj(S, ms[0].args[0]), got)
                if "extent" in ms[0].kw:
                    R.eq("top view %d: extent" % i, Obj(S, ms[0].kw["extent"]), e)
                else:
                    R.true("top view %d: extent given" % i, False)
        n0 = len(S.I.events)
        S.call(cam.getTopViewOfImage, im, extent=[-3, 1, 40, 43], scaling=1)
        S.call(cam.undistortImage, im)
        R.true("nothing shown unless asked for", not marks(S, n0))
        for i, e in enumerate((None, [1, 4, 0, 2], [1, 4, 0, 2], None)):
            n0 = len(S.I.events)
            got = S.call(cam.undistortImage, im, do_plot=True, **({} if e is None else dict(extent=list(e))))
            ms = [m for m in marks(S, n0) if m.name == "imshow"]
            R.true("undistorted %d: shown once" % i, len(ms) == 1)
            if ms:
                R.eq("undistorted %d: image" % i, Obj(S, ms[0].args[0]), got)
                if "extent" in ms[0].kw:
                    q = vec(S, Obj(S, ms[0].kw["extent"]))
                    R.eq("undistorted %d: columns" % i, S.arr([q[0], q[1]]), (e or [0, 4])[:2])
                    R.eq("undistorted %d: number of rows" % i, q[3] - q[2], -3 if e is None else -2)
        # looking down from 10 m with f = 10 px: one pixel is one metre
        p.fx = p.fy = 10
        p.cx, p.cy = 2, 1.5
        o.el, o.tilt, o.roll, o.head, o.x, o.y = 10, 0, 0, 0, 7, 5
        cam = mk(S, RECT, "none", p, o, {})
        n0 = len(S.I.events)
        got = S.call(cam.getTopViewOfImage, im, scaling=1, do_plot=True)
        ms = [m for m in marks(S, n0) if m.name == "imshow"]
        R.true("default extent: shown once with its extent", len(ms) == 1 and "extent" in ms[0].kw)
        if len(ms) == 1 and "extent" in ms[0].kw:
            R.eq("default extent: image", Obj(S, ms[0].args[0]), got)
            R.eq("default extent", Obj(S, ms[0].kw["extent"]), [5, 9, 3.5, 6.5])
    R.group("top view and undistorted image", views, allowed=("LinAlgError",))

    def scene(S):
        p, o = P(S), O(S)
        p.w, p.h = 4, 3
        cam = mk(S, RECT, "none", p, o, {})
        cam2 = mk(S, RECT, "none", P(S, "2"), O(S, "2"), {})
        sc = S.call(S.sub("scene", "Scene"))
        S.call(sc.setCamera, cam2)
        S.call(sc.setCamera, cam)
        ob = [[[x(c) for c in point3(S, "%d%d" % (k, i), -60, 60)] for i in range(2 + k)] for k in range(2)]
        for q in ob:
            S.call(sc.add, S.arr(q))
        proj_ = [[tuple(r) for r in rows(S, S.call(cam.imageFromSpace, S.arr(q)))] for q in ob]
        n0 = len(S.I.events)
        S.call(sc.plotSceneViews)
        ms = marks(S, n0)
        for k, q in enumerate(ob):
            for ax, (i, j), name in ((221, (0, 1), "from above"), (222, (0, 2), "from the front"), (223, (1, 2), "from the side")):
                drawn(R, S, "object %d %s" % (k, name), ms, [(r[i], r[j]) for r in q], axes=ax)
            drawn(R, S, "object %d in the image" % k, ms, proj_[k], axes=224)
        cone = rows(S, S.call(cam.getCameraCone))
        for ax, (i, j), name in ((221, (0, 1), "from above"), (222, (0, 2), "from the front"), (223, (1, 2), "from the side")):
            drawn(R, S, "view cone " + name, ms, [(r[i], r[j]) for r in cone], axes=ax)
        n0 = len(S.I.events)
        S.call(sc.renderImage, "scene.png")
        ms = marks(S, n0)
        for k in range(2):
            drawn(R, S, "rendered: object %d" % k, ms, proj_[k])
        R.true("rendered into the file", [m.args[0] for m in ms if m.name == "savefig"] == ["scene.png"])
    R.group("scene", scene, allowed=("LinAlgError",))
