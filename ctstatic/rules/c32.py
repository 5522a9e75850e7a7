"""Trace plots, trace summaries and plots of epipolar lines: the plotting methods are interpreted abstractly with matplotlib replaced by a
recorder. Series, reference lines, texts and printed lines are compared with the samples and with the epipolar geometry of the cameras."""
import math
from .common import *
from ..extmodel import axes_of
from .c10 import mk
from .c06 import unpack2
from .c13 import img
from .c31 import lines
from .c30 import marks, drawn, xy, RECT

USER = '''
import pandas as pd
def frame(rows, cols):
    return pd.DataFrame(rows, columns=cols)
def later(trace, n):
    return trace[n:]
class Dummy:
    pass
'''


def summary(x, y):
    """number with the digits of its uncertainty, as print_mean_std documents by its name"""
    d = -int(math.floor(math.log10(abs(y))))
    return str(round(x, d)) + "\u00b1" + str(round(y, 1 + d))


def run(R):
    # ------------------------------------------------------------------------------------------- plotTrace
    def trace(cols, prob=True, given=True, skip=None, n=5, mm=True, just=False, limit=None, drop=0):
        def go(S):
            U = S.code(USER)
            p, o = P(S), O(S)
            cam = mk(S, RECT, "none", p, o, {})
            rows_ = [[S.f("%s%d" % (c, i), -40, 60) for c in cols] + ([S.f("lp%d" % i, -30, -1)] if prob else []) for i in range(n)]
            names = list(cols) + (["probability"] if prob else [])
            tr = S.call(U.frame, S.un([S.un(r) for r in rows_]), S.un(names))
            if drop:
                tr, rows_ = S.call(U.later, tr, drop), rows_[drop:]
            S.call(cam.set_trace, tr)
            kw = {}
            if given:
                kw["axes"] = S.un([axes_of(S.I, 1 + i) for i in range(2 * len(cols))])
            if skip:
                kw["skip"] = skip
            if not mm:
                kw["show_mean_median"] = False
            if just:
                kw["just_distributions"] = True
            if limit:
                kw["N"] = limit
            n0 = len(S.I.events)
            S.call(cam.plotTrace, **kw)
            ms = marks(S, n0)
            ax = sorted(set(m.axes for m in ms if m.axes is not None), key=lambda a: (len(str(a)), str(a)))
            for j, c in enumerate(cols):
                if limit and j >= limit:
                    R.true("parameter %d: nothing beyond the first %d" % (j, limit), not any(m.axes in (2 * j + 1, 2 * j + 2) for m in ms))
                    continue
                if given:
                    dist, line = 2 * j + 1, 2 * j + 2
                else:
                    w = 1 if just else 2
                    key = [(limit or len(cols)) * 100 + w * 10 + j * w + 1 + q for q in range(w)]
                    dist, line = key[0], key[-1]
                col = [x(r[j]) for r in rows_]
                mean = sum(col[1:], col[0]) / len(col)
                best, bp = col[0], x(rows_[0][-1])
                if prob:
                    for r, v in list(zip(rows_, col))[1:]:
                        g = T.lt(tm(bp), tm(x(r[-1])))
                        best, bp = ite(g, v, best), ite(g, x(r[-1]), bp)
                if not just:
                    got = [m for m in ms if m.axes == line and m.name == "plot"]
                    if not got:
                        R.violate("%s / parameter %d: sampled values" % (R.group_name, j), "no series is drawn in the axes of %r" % (c,), S)
                    else:
                        R.eq("parameter %d: sampled values" % j, Obj(S, got[-1].args[-1]), col[::skip or 1])
                for axes, how in ((dist, "axvline"), (line, "axhline")):
                    if just and how == "axhline":
                        continue
                    got = [m for m in ms if m.axes == axes and m.name == how]
                    if not mm:
                        R.true("parameter %d: no reference lines" % j, not got)
                        continue
                    R.true("parameter %d: two reference lines" % j, len(got) == 2, detail="%d %s" % (len(got), how))
                    col_ = {m.kw.get("color"): m for m in got}
                    if len(got) == 2 and set(col_) == {"r", "k"}:
                        R.eq("parameter %d: most probable value" % j, Obj(S, col_["r"].args[0]), best)
                        R.eq("parameter %d: mean" % j, Obj(S, col_["k"].args[0]), mean)
            if prob:
                k = len(cols)
                R.true("the probability is no parameter", not any(m.axes in ((2 * k + 1, 2 * k + 2) if given else ()) for m in ms))
        return go
    for label, kw in (("two parameters", dict(cols=("tilt_deg", "roll_deg"))), ("three parameters, every other sample", dict(cols=("c", "a", "b"), skip=2)),
                      ("first samples dropped", dict(cols=("a", "b"), drop=2)), ("first samples dropped, without probability", dict(cols=("a", "b"), drop=2, prob=False)), ("without probability", dict(cols=("a", "b"), prob=False)), ("without reference lines", dict(cols=("a",), mm=False)),
                      ("distributions only", dict(cols=("a", "b"), just=True)), ("own axes", dict(cols=("a", "b", "c"), given=False)),
                      ("own axes, distributions only", dict(cols=("a", "b"), given=False, just=True)),
                      ("first parameters only", dict(cols=("a", "b", "c"), limit=2))):
        R.group("trace plot, " + label, trace(**kw), allowed=("LinAlgError",))

    # ------------------------------------------------------------------------------------------- printTraceSummary
    def printed(S):
        U = S.code(USER)
        p, o = P(S), O(S)
        cam = mk(S, RECT, "none", p, o, {})
        tables = [[[12.25, 130.0, 0.0131], [12.75, 170.0, 0.0123], [13.0, 90.0, 0.0125], [12.5, 120.0, 0.0128]],
                  [[-5.0, 1.0e5, 3.0], [-4.0, 3.0e5, 3.5], [-7.5, 2.5e5, 9.0]]]
        for rows_ in tables:
            n = len(rows_)
            tr = S.call(U.frame, S.un([S.un(r + [-1.0 - i]) for i, r in enumerate(rows_)]), S.un(["tilt_deg", "elevation_m", "k1", "probability"]))
            S.call(cam.set_trace, tr)
            n0 = len(S.I.events)
            S.call(cam.printTraceSummary)
            out = [e[1] for e in S.I.events[n0:] if e[0] == "print"]
            out = [" ".join(map(str, a)) if all(isinstance(q, (str, int)) for q in a) else None for a in out]
            if None in out:
                R.record("%s / printed lines" % R.group_name, "undecided", "a printed text is not known")
                continue
            for j, c in enumerate(("tilt_deg", "elevation_m", "k1")):
                col = [r[j] for r in rows_]
                mean = sum(col) / n
                std = math.sqrt(sum((v - mean) ** 2 for v in col) / n)
                want = summary(mean, std)
                got = [l for l in out if l.startswith(c)]
                R.true("a line for %s" % c, len(got) == 1 and want in got[0], detail="printed %r, expected %s" % (got, want))
            R.true("no line for the probability", not any("probability" in l for l in out))
    R.group("trace summary", printed, allowed=("LinAlgError",))

    def constant(S):
        """a parameter that never moved (its range is one point) has a mean and no spread"""
        U = S.code(USER)
        p, o = P(S), O(S)
        cam = mk(S, RECT, "none", p, o, {})
        rows_ = [[12.5, 90.0], [12.5, 120.0], [12.5, 135.0]]
        tr = S.call(U.frame, S.un([S.un(r + [-1.0 - i]) for i, r in enumerate(rows_)]), S.un(["tilt_deg", "elevation_m", "probability"]))
        S.call(cam.set_trace, tr)
        n0 = len(S.I.events)
        S.call(cam.printTraceSummary)
        out = {}
        for e in S.I.events[n0:]:
            if e[0] == "print" and all(isinstance(q, str) or hasattr(q, "t") for q in e[1]):
                ls = [l for q in e[1] for l in lines(q)]
                out[(" ".join(l[0] for l in ls).split() or [""])[0]] = [q[1] for l in ls for q in l[1]]
        for c, mean, sd in (("tilt_deg", 12.5, 0.0), ("elevation_m", 120.0, 19.0)):
            R.true("a line for %s" % c, c in out, detail="printed %s" % sorted(map(str, out)))
            if c in out:
                nums = out[c]
                R.true("mean and spread of %s" % c, len(nums) == 2, detail="printed %r" % (out[c],))
                if len(nums) == 2:
                    R.eq("mean of %s" % c, Obj(S, nums[0]), mean)
                    R.eq("spread of %s" % c, 1 + x(Obj(S, nums[1])), 1 + sd)
    R.group("trace summary of a parameter that did not vary", constant, allowed=("LinAlgError",))

    # ------------------------------------------------------------------------------------------- epipolar lines
    def epi(images):
        def go(S):
            p1, p2, o1, o2 = P(S, "1"), P(S, "2"), O(S, "1"), O(S, "2")
            C = [mk(S, RECT, "none", p, o, {}) for p, o in ((p1, o1), (p2, o2))]
            g = S.ct("CameraGroup")([S.get(c, "projection") for c in C], [S.get(c, "orientation") for c in C])
            k = 1
            a = [[pixel(S, "a%d" % i) for i in range(k)], [pixel(S, "b%d" % i) for i in range(k)]]
            ims = []
            if images:
                ims = [img(S, "ima", 3, 2, 3), img(S, "imb", 2, 3, 3)]
            n0 = len(S.I.events)
            S.call(g.plotMyEpiploarLines, S.arr(a[0]), S.arr(a[1]), *ims)
            ms = marks(S, n0)
            for side in (0, 1):
                mine = [m for m in ms if m.axes == 121 + side]
                A_, B_ = S.call(S.get(g, "__getitem__"), side), S.call(S.get(g, "__getitem__"), 1 - side)
                name = ("first", "second")[side]
                for i in range(k):
                    own, other = a[side][i], a[1 - side][i]
                    org, ry = [vec(S, v) for v in unpack2(S, S.call(B_.getRay, S.arr(other)))]
                    q = [vec(S, S.call(A_.imageFromSpace, S.arr([u + v * s for u, v in zip(org, ry)]), hide_backpoints=False)) for s in (1, 2)]
                    d = [x(q[1][0]) - q[0][0], x(q[1][1]) - q[0][1]]
                    S.assume.append(dot(d, d) > 1e-6)
                    t = ((x(own[0]) - q[0][0]) * d[0] + (x(own[1]) - q[0][1]) * d[1]) / dot(d, d)
                    foot = [x(q[0][0]) + t * d[0], x(q[0][1]) + t * d[1]]
                    drawn(R, S, "%s image: observed point" % name, mine, [tuple(own)])
                    drawn(R, S, "%s image: closest point of the line" % name, mine, [tuple(foot)], rel=1e-5)
                    drawn(R, S, "%s image: distance drawn" % name, mine, [tuple(own), tuple(foot)], rel=1e-5)
                    drawn_ = [(m, xy(S, m)) for m in mine if m.name == "plot"]
                    long = [s for m, s in drawn_ if s is not None and len(s) > 2]
                    R.true("%s image: a line is drawn" % name, len(long) >= 1, detail="%s" % [len(s or ()) for m, s in drawn_])
                    for s in long[:1]:
                        h = len(s) // 2
                        for j in (0, h // 2, h + 3, len(s) - 1):
                            u = [x(s[j][0]) - q[0][0], x(s[j][1]) - q[0][1]]
                            R.eq("%s image: sample on the epipolar line" % name, 1 + (u[0] * d[1] - u[1] * d[0]) / sqrt(dot(d, d) * (1 + dot(u, u))), 1, assume=[dot(u, u) < 1e14], rel=1e-5)
                    tx = [m for m in mine if m.name == "text"]
                    R.true("%s image: the distance is written" % name, len(tx) == 1)
                    if len(tx) == 1:
                        R.eq("%s image: place of the text" % name, S.arr([Obj(S, tx[0].args[0]), Obj(S, tx[0].args[1])]), list(own))
                        ln = lines(tx[0].args[2]) if len(tx[0].args) > 2 and (isinstance(tx[0].args[2], str) or hasattr(tx[0].args[2], "t")) else []
                        nums = [q for l, n_ in ln for q in n_]
                        R.true("%s image: one number in the text" % name, len(nums) == 1, detail="%d numbers" % len(nums))
                        if len(nums) == 1:
                            e = [x(own[0]) - foot[0], x(own[1]) - foot[1]]
                            R.eq("%s image: distance in the text" % name, 1 + x(Obj(S, nums[0][1])) , 1 + sqrt(dot(e, e)), rel=1e-5)
                shown = [m for m in mine if m.name == "imshow"]
                if images:
                    R.true("%s image: shown in its axes" % name, len(shown) == 1)
                    if len(shown) == 1:
                        R.eq("%s image: shown" % name, Obj(S, shown[0].args[0]), ims[side])
                else:
                    R.true("%s image: no image" % name, not shown)
        return go
    R.group("epipolar lines", epi(False), allowed=("LinAlgError",))
    R.group("epipolar lines over images", epi(True), allowed=("LinAlgError",))

    # ------------------------------------------------------------------------------------------- epipolar lines of an estimated matrix
    def plain(S):
        """lines from cv2 (its contract: a x + b y + c = 0 for the partner of each point), cut at the border of the image"""
        sizes = ((64, 48), (70, 41))
        p1, p2, o1, o2 = P(S, "1"), P(S, "2"), O(S, "1"), O(S, "2")
        C = []
        for p, o, (w, h) in ((p1, o1, sizes[0]), (p2, o2, sizes[1])):
            c = mk(S, RECT, "none", p, o, {})
            S.set(c, "image_width_px", w)
            S.set(c, "image_height_px", h)
            C.append(c)
        g = S.ct("CameraGroup")([S.get(c, "projection") for c in C], [S.get(c, "orientation") for c in C])
        F = [[0.0, -0.01, 0.3], [0.015, 0.0, -1.1], [-0.2, 1.0, 4.0]]
        a = [[10.5, 20.25], [40.0, 7.5], [33.0, 41.0], [5.0, 47.0], [1.0, 2.0], [30.0, 37.5]]
        b = [[12.5, 21.25], [43.0, 9.5], [50.0, 2.0], [60.0, 30.0], [70.0, 41.0], [54.0, 20.0]]
        S.I.cv_F = ([T.const(v) for r in a for v in r], [T.const(v) for r in b for v in r], [[T.const(v) for v in r] for r in F])
        ims = [img(S, "ima", 3, 2, 3), img(S, "imb", 2, 3, 3)]
        n0 = len(S.I.events)
        S.call(g.plotEpilines, S.arr(a), S.arr(b), *ims)
        ms = marks(S, n0)
        for side in (0, 1):
            mine = [m for m in ms if m.axes == 121 + side]
            name = ("first", "second")[side]
            M = F if side else [list(r) for r in zip(*F)]
            A_, B_ = S.call(S.get(g, "__getitem__"), side), S.call(S.get(g, "__getitem__"), 1 - side)
            want, (w, h) = [], sizes[side]
            for q in (a if side else b):
                l = [r[0] * q[0] + r[1] * q[1] + r[2] for r in M]
                ends = [(u, -(l[0] * u + l[2]) / l[1]) for u in (0, w)] + [(-(l[1] * v + l[2]) / l[0], v) for v in (0, h)]
                ends = sorted((u, v) for u, v in ends if 0 <= u <= w and 0 <= v <= h)
                want.append(ends)
            series = [q for q in (xy(S, m) for m in mine if m.name == "plot") if q is not None]
            segments = []
            for q in series:
                if len(q) > 1 and len(q) < 9:
                    v = [[T.cval(tm(c)) for c in e] for e in q]
                    if any(c is None for e in v for c in e):
                        raise Undecided("a line is not known")
                    segments.append(sorted([float(c) for c in e] for e in v))
            if len(series) != len([m for m in mine if m.name == "plot"]):
                raise Undecided("a series is not known")
            for i, ends in enumerate(want):
                if ends:
                    R.true("%s image: line %d between its ends at the border" % (name, i),
                           any(len(q) == len(ends) and all(abs(u - v) < 1e-6 for e, f in zip(q, ends) for u, v in zip(e, f)) for q in segments), detail="%s drawn, expected %s" % (segments, ends))
            R.true("%s image: no line that misses the image" % name, len(segments) == len([e for e in want if e]), detail="%d lines" % len(segments))
            for q in (b if side else a):
                drawn(R, S, "%s image: observed point" % name, mine, [tuple(q)])
            pole = vec(S, S.call(A_.imageFromSpace, S.call(B_.getPos)))
            drawn(R, S, "%s image: epipole" % name, mine, [tuple(pole[:2])])
            border = [vec(S, q) for q in rows(S, S.call(A_.getImageBorder))]
            got = [q for q in series if len(q) == len(border)]
            R.true("%s image: border" % name, len(got) == 1)
            for q in got[:1]:
                for k in (0, 7, len(q) // 2, len(q) - 3):
                    R.eq("%s image: border point %d" % (name, k), S.arr(list(q[k])), border[k])
            shown = [m for m in mine if m.name == "imshow"]
            R.true("%s image: shown in its axes" % name, len(shown) == 1)
            if len(shown) == 1:
                R.eq("%s image: shown" % name, Obj(S, shown[0].args[0]), ims[side])
    R.group("epipolar lines of an estimated matrix", plain, allowed=("LinAlgError",))
