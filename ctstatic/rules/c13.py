"""Top view and undistorted image: the abstract result image (cv2.remap is an uninterpreted function of source, method and
position) is compared, pixel by pixel, with the source sampled at the image position of the grid point - for a first call and
after every abstract history of earlier calls and changes of camera, extent, scaling, plane height or hiding."""
from .common import *
from .c10 import NAME, INTR, EXTR, coef, mk, CLS

ASSUMES = ["cv2.remap is an uninterpreted function of source image, interpolation method and map position; border handling is not decided"]


def img(S, tag="im", w=4, h=3, ch=0):
    if not ch:
        return S.arr([[S.f("%s%d%d" % (tag, i, j), 0, 255) for j in range(w)] for i in range(h)])
    return S.arr([[[S.f("%s%d%d%d" % (tag, i, j, c), 0, 255) for c in range(ch)] for j in range(w)] for i in range(h)])


def sample(S, im, how="cv2.INTER_NEAREST"):
    sh, ts = S.terms(im)
    n = sh[2] if len(sh) == 3 else 1
    chans = [",".join(str(t.id) for t in ts[c::n]) for c in range(n)]
    if n == 3:      # an opaque alpha channel is added
        chans.append(",".join([str(T.const(255).id)] * (len(ts) // 3)))
    names = ["sample:%s:%s" % (how, c) for c in chans]
    return lambda pos: [X(T.ufn(q, f32(pos[0]).t, f32(pos[1]).t)) for q in names], len(sh) == 3


def steps(a, b, s):
    import math
    n = int(math.ceil((b - a) / s))
    return [a + i * s for i in range(n)]


def want_top(S, kind, lens, p, o, k, im, ext, sc, Z, hide):
    f, multi = sample(S, im)
    fresh = mk(S, kind, lens, p, o, k)
    out = []
    for Y in reversed(steps(ext[2], ext[3], sc)):
        row = []
        for Xv in steps(ext[0], ext[1], sc):
            pos = vec(S, S.call(fresh.imageFromSpace, S.arr([T.num(tmv(Xv)), T.num(tmv(Y)), tmv(Z)]), hide_backpoints=hide))
            row.append(f(pos) if multi else f(pos)[0])
        out.append(row)
    return out


def want_und(S, kind, lens, p, o, k, im, ext, sc):
    f, multi = sample(S, im)
    fresh = mk(S, kind, lens, p, o, k)
    out = []
    for Y in steps(ext[2], ext[3], sc):
        row = []
        for Xv in steps(ext[0], ext[1], sc):
            pos = vec(S, S.call(S.get(fresh, "lens").distortedFromImage, S.arr([tmv(Xv), tmv(Y)])))
            row.append(f(pos) if multi else f(pos)[0])
        out.append(row)
    return out


def tmv(v):
    return x(v).t


class Cam:
    """camera and its reference parameters"""

    def __init__(self, S, kind, lens):
        self.S, self.kind, self.lens = S, kind, lens
        self.p, self.o, self.k = P(S), O(S), coef(S, lens)
        self.p.w, self.p.h = 4, 3
        self.cam = mk(S, kind, lens, self.p, self.o, self.k)

    def change(self, n, tag="B"):
        S = self.S
        if n in INTR:
            v = getattr(P(S, tag), n)
            setattr(self.p, n, v)
            S.set(self.cam, NAME[n], v)
        elif n in EXTR:
            v = getattr(O(S, tag), n)
            setattr(self.o, n, v)
            S.set(self.cam, NAME[n], v)
        else:
            self.k[n] = coef(S, self.lens, tag)[n]
            S.set(self.cam, n, self.k[n])


def run(R):
    def top(S, c, label, im, ext, sc, Z_=0, hide=True, **kw):
        got = S.call(c.cam.getTopViewOfImage, im, extent=list(ext), scaling=sc, **kw)
        R.eq(label, got, want_top(S, c.kind, c.lens, c.p, c.o, c.k, im, ext, sc, Z_, hide), rel=1e-5)

    def und(S, c, label, im, ext=None, sc=None, **kw):
        a = dict(kw)
        if ext is not None:
            a["extent"] = list(ext)
        if sc is not None:
            a["scaling"] = sc
        got = S.call(c.cam.undistortImage, im, **a)
        R.eq(label, got, want_und(S, c.kind, c.lens, c.p, c.o, c.k, im, ext or [0, c.p.w, 0, c.p.h], sc or 1), rel=1e-5)

    E1, E2, E3 = [-3, 1, 40, 43], [-3, 1, 41, 44], [0, 3, 40, 42]
    combos = [("RectilinearProjection", "Brown"), ("CylindricalProjection", "ABC"), ("EquirectangularProjection", "none")]
    if R.thorough:
        combos = [(k, l) for k in PROJ for l in CLS]
    for kind, lens in combos:
        base = "%s, lens %s" % (SHORT[kind], lens)

        def first(S):
            c = Cam(S, kind, lens)
            im = img(S)
            st = S.fork()
            top(S, c, "top view", im, E1, 1)
            for label, args in (("scaling 2", (E1, 2)), ("scaling 0.5", (E3, 0.5)), ("extent tuple-like", ([-2, 2, 5, 7], 1))):
                S.back(st)
                top(S, c, "top view, " + label, im, *args)
            S.back(st)
            Z = S.f("Z", -5, 5)
            top(S, c, "top view on another plane", im, E1, 1, Z, True, Z=Z)
            S.back(st)
            top(S, c, "top view without hiding", im, E1, 1, 0, False, hide_backpoints=False)
            S.back(st)
            top(S, c, "color image", img(S, "c", ch=3), E3, 1)
            S.back(st)
            top(S, c, "image with alpha", img(S, "d", ch=4), E3, 1)
            S.back(st)
            und(S, c, "undistorted, whole image", im)
            S.back(st)
            und(S, c, "undistorted, extent", im, [1, 4, 0, 2], 1)
            S.back(st)
            und(S, c, "undistorted, scaling", im, [0, 4, 0, 3], 0.5)
            S.back(st)
            und(S, c, "undistorted, color", img(S, "c", ch=3))
        R.group("%s, first call" % base, first, allowed=("LinAlgError",))

        def stale(S):
            c = Cam(S, kind, lens)
            im, im2 = img(S), img(S, "jm")
            top(S, c, "first", im, E1, 1)
            top(S, c, "repeated", im, E1, 1)
            top(S, c, "another image", im2, E1, 1)
            top(S, c, "another extent", im, E2, 1)
            top(S, c, "another extent (x)", im, E3, 1)
            top(S, c, "another scaling", im, E3, 0.5)
            und(S, c, "undistort in between", im)
            top(S, c, "same as before undistort", im, E3, 0.5)
            Z = S.f("Z", -5, 5)
            top(S, c, "another plane", im, E3, 0.5, Z, True, Z=Z)
            top(S, c, "back to the ground", im, E3, 0.5)
            top(S, c, "hiding switched off", im, E3, 0.5, 0, False, hide_backpoints=False)
            top(S, c, "hiding switched on", im, E3, 0.5)
            und(S, c, "undistort extent", im, [1, 4, 0, 2])
            und(S, c, "undistort repeated", im, [1, 4, 0, 2])
            und(S, c, "undistort other extent", im, [1, 4, 1, 3])
            und(S, c, "undistort other scaling", im, [1, 4, 1, 3], 0.5)
            und(S, c, "undistort other image", im2, [1, 4, 1, 3], 0.5)
        R.group("%s, repeated calls" % base, stale, allowed=("LinAlgError",))

        def changed(S):
            c = Cam(S, kind, lens)
            im = img(S)
            top(S, c, "first", im, E1, 1)
            und(S, c, "first undistort", im)
            st = S.fork()
            import copy
            keep = (copy.copy(c.p), copy.copy(c.o), dict(c.k))
            for n in [q for q in INTR if q not in "wh"] + EXTR + list(c.k):
                S.back(st)
                c.p, c.o, c.k = copy.copy(keep[0]), copy.copy(keep[1]), dict(keep[2])
                c.change(n)
                top(S, c, "top view after changing %s" % NAME.get(n, n), im, E1, 1)
                und(S, c, "undistorted after changing %s" % NAME.get(n, n), im)
            S.back(st)
            c.p, c.o, c.k = copy.copy(keep[0]), copy.copy(keep[1]), dict(keep[2])
            # longer histories with definitely different values
            for i, n in enumerate(("el", "head", "fx", "el", "x", "fx")):
                lo = {"el": 200, "head": 0, "fx": 4000, "x": 100}[n] + 50 * i + 1
                v = S.f("%s_h%d" % (n, i), lo, lo + 20)
                tgt = c.p if n in INTR else c.o
                if n == "head":
                    c.o.head, old = S.f("head_h", 351, 359), None
                    v = c.o.head
                setattr(tgt, n, v)
                S.set(c.cam, NAME[n], v)
                top(S, c, "history %d, %s" % (i, n), im, E1, 1)
                und(S, c, "history %d, %s, undistorted" % (i, n), im)
        R.group("%s, changed camera" % base, changed, allowed=("LinAlgError",))

        def two(S):
            """maps of two cameras do not mix"""
            a, b = Cam(S, kind, lens), Cam(S, kind, lens)
            for n in EXTR:
                b.change(n)
            im = img(S)
            top(S, a, "first camera", im, E1, 1)
            top(S, b, "second camera", im, E1, 1)
            top(S, a, "first camera again", im, E1, 1)
            und(S, a, "first camera undistort", im)
            b.change("cx")
            und(S, b, "second camera undistort", im)
        R.group("%s, two cameras" % base, two, allowed=("LinAlgError",))

    def reused(S):
        """the caller keeps his own extent and changes it in place"""
        c = Cam(S, "RectilinearProjection", "none")
        im = img(S)
        for how in ("list", "array"):
            e = S.un(list(E1)) if how == "list" else S.arr(list(E1))
            for i, new in enumerate((E1, E2, E3, E1)):
                for q in range(4):
                    S.setitem(e, q, new[q])
                got = S.call(c.cam.getTopViewOfImage, im, extent=e, scaling=1)
                R.eq("%s changed in place, %d" % (how, i), got, want_top(S, c.kind, c.lens, c.p, c.o, c.k, im, new, 1, 0, True), rel=1e-5)
                R.eq("%s left alone, %d" % (how, i), e, new)
        for i, new in enumerate(([1, 4, 0, 2], [1, 4, 1, 3], [0, 2, 1, 3])):
            if i == 0:
                e = S.un(list(new))
            for q in range(4):
                S.setitem(e, q, new[q])
            got = S.call(c.cam.undistortImage, im, extent=e, scaling=1)
            R.eq("undistorted, list changed in place, %d" % i, got, want_und(S, c.kind, c.lens, c.p, c.o, c.k, im, new, 1), rel=1e-5)
    R.group("extent changed by the caller", reused, allowed=("LinAlgError",))

    def extent(S):
        """the default extent covers the image border on the ground; the default resolution keeps the number of pixels"""
        c = Cam(S, "RectilinearProjection", "none")
        p = P(S)
        p.fx = p.fy = 10
        p.cx, p.cy, p.w, p.h = 2, 1.5, 4, 3
        c.p, c.o = p, O(S)
        c.o.el, c.o.tilt, c.o.roll, c.o.head, c.o.x, c.o.y = 10, 0, 0, 0, 7, 5
        c.k = {}
        c.cam = mk(S, "RectilinearProjection", "none", c.p, c.o, {})
        im = img(S)
        got = S.call(c.cam.getTopViewOfImage, im, scaling=1)
        # looking down from 10 m with f = 10 px: one pixel is one metre
        R.eq("default extent", got, want_top(S, c.kind, c.lens, c.p, c.o, {}, im, [5, 9, 3.5, 6.5], 1, 0, True), rel=1e-5)
        got = S.call(c.cam.getTopViewOfImage, im, extent=[5, 9, 3.5, 6.5])
        R.eq("default scaling", got, want_top(S, c.kind, c.lens, c.p, c.o, {}, im, [5, 9, 3.5, 6.5], 1, 0, True), rel=1e-5)
        got = S.call(c.cam.getTopViewOfImage, im, extent=[5, 13, 3.5, 9.5])
        R.eq("default scaling, larger extent", got, want_top(S, c.kind, c.lens, c.p, c.o, {}, im, [5, 13, 3.5, 9.5], 2, 0, True), rel=1e-5)
        got = S.call(c.cam.getTopViewOfImage, im, scaling=0.5, Z=5)
        R.eq("default extent on a higher plane", got, want_top(S, c.kind, c.lens, c.p, c.o, {}, im, [6, 8, 4.25, 5.75], 0.5, 5, True), rel=1e-5)
    R.group("default extent", extent, allowed=("LinAlgError",))

    def sizes(S):
        c = Cam(S, "RectilinearProjection", "none")
        R.expect_raise("image of another width", S, lambda: S.call(c.cam.getTopViewOfImage, img(S, w=5), extent=E1, scaling=1), ("AssertionError", "ValueError"))
        R.expect_raise("image of another height", S, lambda: S.call(c.cam.undistortImage, img(S, h=5)), ("AssertionError", "ValueError"))
    R.group("image size", sizes, allowed=("LinAlgError",))

    def skip(S):
        c = Cam(S, "RectilinearProjection", "none")
        im = img(S, "k", w=5, h=2)
        top(S, c, "unchecked size, top view", im, E3, 1, skip_size_check=True)
    R.group("skipped size check", skip, allowed=("LinAlgError",))
