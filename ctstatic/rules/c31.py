"""Printed descriptions: __str__ of the camera and its parts is interpreted abstractly; the resulting symbolic text is taken apart into lines,
labels and numbers. Each number must be the term of the quantity it is labelled with."""
import re
from .common import *
from ..values import StrT
from .c10 import mk, coef, CLS, INTR, EXTR, NAME

RECT = "RectilinearProjection"
SPEC = re.compile(r"%[-+ 0#]*\d*(?:\.\d+)?[sdfgeFGE]")


def pieces(t):
    """flat list of text and (format, term)"""
    if t.op == "strcat":
        return [q for a in t.args for q in pieces(a)]
    if t.op == "str":
        return [t.args[0]]
    if t.op == "fmt":
        out, a, rest = [], t.args[0], list(t.args[1:])
        pos = 0
        for m in SPEC.finditer(a.replace("%%", "\0\0")):
            out.append(a[pos:m.start()])
            v = rest.pop(0)
            out += pieces(v) if v.op in ("str", "fmt", "strcat") else [(m.group(0), v)]
            pos = m.end()
        out.append(a[pos:])
        return [q.replace("%%", "%") if isinstance(q, str) else q for q in out]
    return [("%s", t)]


def lines(v):
    """-> list of (text of the line with numbers cut out, [(digits, term)])"""
    ps = [v] if isinstance(v, str) else pieces(v.t)
    text, nums = "", []
    for p in ps:
        if isinstance(p, str):
            # numbers printed from constants
            for i, q in enumerate(re.split(r"((?<![A-Za-z_0-9])-?\d+(?:\.\d+)?(?:e[-+]\d+)?|\bnan\b)", p)):
                if i % 2:
                    nums.append((len(q.split(".")[1]) if "." in q else 0, const(float(q))))
                    text += "\0"
                else:
                    text += q
        else:
            nums.append((int(p[0].split(".")[1][:-1]) if "." in p[0] else 0 if p[0][-1] == "d" else 6 if p[0][-1] == "f" else None, p[1]))
            text += "\0"
    out = []
    for l in text.split("\n"):
        n = l.count("\0")
        out.append((l, nums[:n]))
        nums = nums[n:]
    return out


def const(v):
    return T.const(v)


def run(R):
    def text(S, what, o):
        v = S.call(S.get(o, "__str__"))
        v = S.un(v)
        if isinstance(v, Phi):
            v = S.I.clean(v)
        if not isinstance(v, (str, StrT)):
            R.record(R.group_name + " / " + what, "undecided", "text lost: %r" % (v,))
            return None
        return lines(v)

    def stated(S, what, ls, label, want, digits=None, nth=0):
        """the line with this label states the wanted values (as rounded by the number of digits printed)"""
        full = "%s: %s" % (what, label)
        hit = [(l, n) for l, n in ls if re.match(r"\s*%s" % label, l)]
        hit = hit[nth:nth + 1]
        if not hit:
            R.true(full + " is stated", False)
            return
        l, n = hit[0]
        if len(n) != len(want):
            R.true(full + ": number of values", False)
            return
        for i, ((d, t), w) in enumerate(zip(n, want)):
            w = tm(w)
            if t.op == "const" and w.op == "const":
                R.true("%s %d" % (full, i), abs(float(t.args[0]) - float(w.args[0])) <= 0.5000001 * 10.0 ** -(d or 0))
            else:
                # %d cuts off, the others round
                R.eq("%s %d" % (full, i), Obj(S, Sc(t, "float")), X(w))
            if digits is not None and d is not None:
                R.true("%s %d: digits" % (full, i), d >= digits)

    def proj_(S, what, ls, kind, p, sensor):
        R.true(what + ": kind of projection named", any(kind in l for l, n in ls))
        stated(S, what, ls, "f:", [p.fx], 1)
        stated(S, what, ls, "sensor:", sensor, 2)
        stated(S, what, ls, "image:", [p.w, p.h], 0)

    def pose(S, what, ls, o):
        stated(S, what, ls, "x:", [o.x], 2)
        stated(S, what, ls, "y:", [o.y], 2)
        stated(S, what, ls, "h:", [o.el], 2)
        stated(S, what, ls, "tilt:", [o.tilt], 2)
        stated(S, what, ls, "roll:", [o.roll], 2)
        stated(S, what, ls, "heading:", [o.head], 2)

    for kind in PROJ:
        def intr(S):
            p = P(S)
            s = [S.f("sw", 4, 40), S.f("sh", 4, 40)]
            c = S.ct(kind)(**dict(p.kw(), sensor_width_mm=s[0], sensor_height_mm=s[1]))
            before = S.terms(S.arr([tm(S.get(c, NAME[n]).v.t) for n in INTR]))
            ls = text(S, "projection", c)
            if ls:
                proj_(S, "projection", ls, kind, p, s)
            R.eq("printing changes nothing", S.arr([S.get(c, NAME[n]).v.t for n in INTR]), S.arr(before[1]))
            q = P(S, "B")
            for n in INTR:
                S.set(c, NAME[n], getattr(q, n))
            ls = text(S, "projection, changed", c)
            if ls:
                proj_(S, "projection, changed", ls, kind, q, s)
        R.group("projection, " + SHORT[kind], intr)

    def pos(S):
        o = O(S)
        c = S.ct("SpatialOrientation")(**o.kw())
        ls = text(S, "orientation", c)
        if ls:
            pose(S, "orientation", ls, o)
        o2 = O(S, "B")
        for n in EXTR:
            S.set(c, NAME[n], getattr(o2, n))
        ls = text(S, "orientation, changed", c)
        if ls:
            pose(S, "orientation, changed", ls, o2)
        # defaults
        c = S.ct("SpatialOrientation")()
        ls = text(S, "default orientation", c)
        if ls:
            for label, n in (("x:", "x"), ("y:", "y"), ("h:", "el"), ("tilt:", "tilt"), ("roll:", "roll"), ("heading:", "head")):
                stated(S, "default orientation", ls, label, [x(S.get(c, NAME[n]).v)])
        c = S.call(S.sub("spatial", "SpatialOrientationYawPitchRoll"),
                   **dict(elevation_m=o.el, pos_x_m=o.x, pos_y_m=o.y, yaw_deg=o.head, pitch_deg=o.tilt, roll_deg=o.roll))
        ls = text(S, "yaw, pitch, roll", c)
        if ls:
            for label, n in (("x:", "x"), ("y:", "y"), ("h:", "el"), ("yaw:", "head"), ("pitch:", "tilt"), ("roll:", "roll")):
                stated(S, "yaw, pitch, roll", ls, label, [getattr(o, n)], 2)
    R.group("orientation", pos)

    for lens in [l for l in CLS if l != "none"]:
        def dist(S):
            k = coef(S, lens)
            c = S.ct(CLS[lens])(**k)
            for what in ("lens", "lens, changed"):
                if what != "lens":
                    k = coef(S, lens, "B")
                    for n in k:
                        S.set(c, n, k[n])
                ls = text(S, what, c)
                if ls:
                    R.true(what + ": kind of lens named", any(CLS[lens] in l for l, n in ls))
                    for n in k:
                        stated(S, what, ls, n + ":", [k[n]], 3)
        R.group("lens " + lens, dist)

    def cam(S):
        for kind, lens in [(PROJ[0], "Brown"), (PROJ[1], "ABC"), (PROJ[2], "none")]:
            p, o, k = P(S), O(S), coef(S, lens)
            c = mk(S, kind, lens, p, o, k)
            for rnd in range(2):
                what = "camera %s %s%s" % (SHORT[kind], lens, ", changed" if rnd else "")
                if rnd:
                    p, o, k = P(S, "B"), O(S, "B"), coef(S, lens, "B")
                    for n in INTR:
                        S.set(c, NAME[n], getattr(p, n))
                    for n in EXTR:
                        S.set(c, NAME[n], getattr(o, n))
                    for n in k:
                        S.set(c, n, k[n])
                ls = text(S, what, c)
                if ls:
                    pose(S, what, ls, o)
                    sensor = [x(S.get(c, "sensor_width_mm").v), x(S.get(c, "sensor_height_mm").v)]
                    proj_(S, what, ls, kind, p, sensor)
                    R.true(what + ": kind of lens named", any((CLS[lens] or "NoDistortion") in l for l, n in ls))
                    for n in k:
                        stated(S, what, ls, n + ":", [k[n]], 3)
    R.group("camera", cam)
