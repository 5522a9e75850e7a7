"""Fitting: fit, metropolis, sample and set_to_mean are interpreted abstractly with a symbolic user supplied log probability, a
symbolic optimiser (the cost is evaluated at a probe, an arbitrary position is returned) and symbolic random numbers. Decided are
the alignment of names, values, bounds and start, of trace rows and probabilities, and the camera's state afterwards."""
from .common import *
from .c10 import mk, coef, compare, NAME, INTR, EXTR

RECT = "RectilinearProjection"
USER = """
def term(cam, a, b, c):
    def f():
        return -(a * cam.elevation_m + b * cam.tilt_deg + c * cam.elevation_m * cam.tilt_deg)
    return f

def term3(cam, a, b, c, p):
    def f():
        return -(a * cam.elevation_m + b * cam.tilt_deg + c * cam.elevation_m * p.value)
    return f

def lens_term(cam, a, b, c):
    def f():
        return -(a * cam.k1 + b * cam.focallength_x_px + c * cam.roll_deg * cam.k1)
    return f

def group_term(g, a, b, c):
    def f():
        return -(a * g[0].pos_x_m + b * g[1].pos_x_m + c * g[1].tilt_deg * g[0].focallength_x_px)
    return f

class Draws:
    def __init__(self, values):
        self.values = values
        self.n = 0

    def rvs(self):
        self.n += 1
        return np.array(self.values[self.n - 1])

def limited(cam):
    def f():
        if cam.elevation_m < 50:
            return -np.inf
        return -cam.elevation_m
    return f

def never():
    return -np.inf

def undefined(cam):
    def f():
        if cam.elevation_m < 50:
            return np.nan
        return -cam.elevation_m
    return f

import numpy as np
"""


def par(S, name, **kw):
    return S.ct("FitParameter")(name, **kw)


def poly(a, b, c):
    return lambda p, q, r=None: -(x(a) * p + x(b) * q + x(c) * p * (q if r is None else r))


def minimised(R, S, n0, label):
    ev = [e for e in S.I.events[n0:] if e[0] == "minimize"]
    if len(ev) != 1 or ev[0][1] is None:
        R.record("%s / %s" % (R.group_name, label), "undecided", "no unique call of the optimiser")
        return None
    return ev[0]


def scalar(v):
    return v.t if isinstance(v, Sc) else T.const(v)


def bound(R, label, got, want):
    if want is None:
        R.true(label, got is None or isinstance(got, float) and got in (float("inf"), float("-inf")), detail="got %r" % (got,))
    elif got is None:
        R.true(label, False, detail="the bound is missing")
    else:
        R.eq(label, X(scalar(got)), want)


def argmax(rows, col):
    """row with the largest (first) value in a column, element by element"""
    best = rows[0]
    for r in rows[1:]:
        c = r[col] > best[col]
        best = [ite(c.t if isinstance(c, X) else c, u, v) for u, v in zip(r, best)]
    return best


def frame(S, tr):
    cols, rws = tr.v.data(S.I)
    return list(cols), [[X(scalar(v)) for v in r] for r in rws]


def run(R):
    # ------------------------------------------------------------------------------------------------ fit
    def fit(S, order=(0, 1), extra=()):
        p, o = P(S), O(S)
        cam = mk(S, RECT, "none", p, o, {})
        abc = [S.f("a", -3, 3), S.f("b", -3, 3), S.f("c", -1, 1)]
        ref = poly(*abc)
        S.call(cam.addCustomoLogProbability, S.call(S.code(USER).term, cam, *abc))
        v = [S.f("v0", 20, 30), S.f("v1", 40, 60)]
        lo, hi = [S.f("l0", 1, 5), S.f("l1", 10, 15)], [S.f("h0", 100, 120), S.f("h1", 150, 170)]
        names = ["elevation_m", "tilt_deg"]
        fp = [par(S, names[i], lower=lo[i], upper=hi[i], value=v[i]) for i in order]
        n0 = len(S.I.events)
        r = S.call(cam.fit, S.un(fp), **dict(extra))
        e = minimised(R, S, n0, "cost")
        if e is None:
            return
        probe, best, cost, bounds, start, kw = e[1:]
        at = {names[i]: X(probe[k]) for k, i in enumerate(order)}
        new = {names[i]: X(best[k]) for k, i in enumerate(order)}
        R.eq("cost is minus the log probability", Obj(S, cost), -ref(at["elevation_m"], at["tilt_deg"]))
        for k, i in enumerate(order):
            R.eq("start of " + names[i], X(start[k]), v[i])
            if bounds is None:
                R.true("bounds of " + names[i], False, detail="no bounds given to the optimiser")
            else:
                bound(R, "lower bound of " + names[i], bounds[k][0], lo[i])
                bound(R, "upper bound of " + names[i], bounds[k][1], hi[i])
            R.eq("result of " + names[i], S.get(cam, names[i]), new[names[i]])
        o.el, o.tilt = new["elevation_m"], new["tilt_deg"]
        for nm in EXTR:
            R.eq("value of %s afterwards" % NAME[nm], S.get(cam, NAME[nm]), getattr(o, nm))
        for nm in INTR:
            R.eq("value of %s afterwards" % NAME[nm], S.get(cam, NAME[nm]), getattr(p, nm))
        R.eq("returned position", S.I.getitem(r.v, "x") and Obj(S, S.I.getitem(r.v, "x")), [X(b) for b in best])
        compare(R, S, "camera after the fit", cam, RECT, "none", p, o, {})
        R.eq("log probability afterwards", S.call(cam.getLogProbability), ref(x(o.el), x(o.tilt)))
        opts = kw.get("options")
        if "iterations" in dict(extra):
            d = None
            if isinstance(opts, Ref):
                d = S.I.st.cells[opts.id]
            R.true("iterations are passed on", d is not None and not isinstance(d, Top) and d.get("maxiter") == dict(extra)["iterations"], detail="options %r" % (d,))
        for k_ in dict(extra):
            if k_ != "iterations":
                R.true("%s is passed on" % k_, kw.get(k_) == dict(extra)[k_], detail="%r" % (kw.get(k_),))
    R.group("fit", fit, allowed=("LinAlgError",))
    R.group("fit, other order", lambda S: fit(S, (1, 0)), allowed=("LinAlgError",))
    R.group("fit, options", lambda S: fit(S, (1, 0), (("iterations", 77), ("method", "L-BFGS-B"), ("tol", 0.25))), allowed=("LinAlgError",))

    def lensfit(S):
        """parameters of all parts, a distribution without bounds"""
        p, o, k = P(S), O(S), coef(S, "Brown")
        cam = mk(S, RECT, "Brown", p, o, k)
        abc = [S.f("a", -3, 3), S.f("b", -3, 3), S.f("c", -1, 1)]
        S.call(cam.addCustomoLogProbability, S.call(S.code(USER).lens_term, cam, *abc))
        v = [S.f("v0", 0.01, 0.02), S.f("v1", 2000, 3000), S.f("v2", -5, 5)]
        fp = [par(S, "k1", lower=0.0, upper=0.1, value=v[0]), par(S, "focallength_x_px", mean=2500.0, std=100.0, value=v[1]), par(S, "roll_deg", lower=-20.0, upper=20.0, value=v[2])]
        n0 = len(S.I.events)
        S.call(cam.fit, S.un(fp))
        e = minimised(R, S, n0, "cost")
        if e is None:
            return
        probe, best, cost, bounds, start, kw = e[1:]
        q = [X(t) for t in probe]
        R.eq("cost is minus the log probability", Obj(S, cost), x(abc[0]) * q[0] + x(abc[1]) * q[1] + x(abc[2]) * q[2] * q[0])
        for i, (l, h) in enumerate(((0.0, 0.1), (None, None), (-20.0, 20.0))):
            R.eq("start %d" % i, X(start[i]), v[i])
            if bounds is not None:
                bound(R, "lower bound %d" % i, bounds[i][0], l)
                bound(R, "upper bound %d" % i, bounds[i][1], h)
        k["k1"], p.fx, o.roll = [X(t) for t in best]
        compare(R, S, "camera after the fit", cam, RECT, "Brown", p, o, k)
    R.group("fit of lens, projection and orientation", lensfit, allowed=("LinAlgError",))

    def groupfit(S):
        p, oa, ob = P(S), O(S, "a"), O(S, "b")
        g = S.ct("CameraGroup")(S.ct(RECT)(**p.kw()), S.un([S.ct("SpatialOrientation")(**q.kw()) for q in (oa, ob)]))
        abc = [S.f("a", -3, 3), S.f("b", -3, 3), S.f("c", -1, 1)]
        S.call(g.addCustomoLogProbability, S.call(S.code(USER).group_term, g, *abc))
        v = [S.f("v%d" % i, 20, 30) for i in range(4)]
        names = ["C1_tilt_deg", "C0_pos_x_m", "focallength_x_px", "C1_pos_x_m"]
        fp = [par(S, n, lower=1.0 + i, upper=1000.0 + i, value=u) for i, (n, u) in enumerate(zip(names, v))]
        n0 = len(S.I.events)
        S.call(g.fit, S.un(fp))
        e = minimised(R, S, n0, "cost")
        if e is None:
            return
        probe, best, cost, bounds, start, kw = e[1:]
        q = dict(zip(names, [X(t) for t in probe]))
        R.eq("cost is minus the log probability", Obj(S, cost), x(abc[0]) * q["C0_pos_x_m"] + x(abc[1]) * q["C1_pos_x_m"] + x(abc[2]) * q["C1_tilt_deg"] * q["focallength_x_px"])
        R.eq("start", [X(t) for t in start], v)
        b = dict(zip(names, [X(t) for t in best]))
        oa.x, ob.x, ob.tilt, p.fx = b["C0_pos_x_m"], b["C1_pos_x_m"], b["C1_tilt_deg"], b["focallength_x_px"]
        for i, q in enumerate((oa, ob)):
            compare(R, S, "camera %d after the fit" % i, g[i], RECT, "none", p, q, {})
    R.group("fit of a group", groupfit, allowed=("LinAlgError",))

    def restart(S):
        """a start without probability is replaced by draws until one has a probability"""
        p, o = P(S), O(S)
        U = S.code(USER)
        cam = mk(S, RECT, "none", p, o, {})
        S.call(cam.addCustomoLogProbability, S.call(U.limited, cam))
        mkp = lambda: par(S, "elevation_m", distribution=S.call(U.Draws, S.un([12.0, 33.0, 61.0, 99.0])), value=10.0)
        n0 = len(S.I.events)
        S.call(cam.fit, S.un([mkp()]))
        e = minimised(R, S, n0, "start")
        if e is not None:
            R.eq("start of the fit", X(e[5][0]), 61)
        cam4 = mk(S, RECT, "none", p, o, {})
        S.call(cam4.addCustomoLogProbability, S.call(U.undefined, cam4))
        n0 = len(S.I.events)
        S.call(cam4.fit, S.un([par(S, "elevation_m", lower=0.0, upper=100.0, value=60.0)]))
        e = minimised(R, S, n0, "cost")
        if e is not None:
            q = X(e[1][0])
            R.true("an undefined probability costs infinitely much", x(Obj(S, e[3]).v) >= ite(q < 50, 1e300, q))
        cam.elevation_m = 5.0
        tr = S.call(cam.metropolis, S.un([mkp()]), iterations=3, disable_bar=True, print_trace=False)
        cols, rws = frame(S, tr)
        for i, r in enumerate(rws):
            R.true("trace has a probability, row %d" % i, (r[0] >= 50))
        cam2 = mk(S, RECT, "none", p, o, {})
        S.call(cam2.addCustomoLogProbability, U.never)
        n = par(S, "elevation_m", distribution=S.call(U.Draws, S.un([float(i) for i in range(1200)])), value=10.0)
        R.expect_raise("no start with a probability: fit", S, lambda: S.call(cam2.fit, S.un([n])))
        n = par(S, "elevation_m", distribution=S.call(U.Draws, S.un([float(i) for i in range(1200)])), value=10.0)
        R.expect_raise("no start with a probability: metropolis", S, lambda: S.call(cam2.metropolis, S.un([n]), iterations=3, disable_bar=True, print_trace=False))
    R.group("start without probability", restart, allowed=("LinAlgError",))

    # ------------------------------------------------------------------------------------------------ metropolis
    def metro(S, order=(0, 1), additional=False, n=3, **kw):
        p, o = P(S), O(S)
        cam = mk(S, RECT, "none", p, o, {})
        abc = [S.f("a", -3, 3), S.f("b", -3, 3), S.f("c", -1, 1)]
        ref = poly(*abc)
        names = ["elevation_m", "tilt_deg"]
        if additional:
            ad = par(S, "extra", lower=-50.0, upper=50.0, value=S.f("v2", -5, 5), step=S.f("s2", 0.1, 3))
            S.call(cam.addCustomoLogProbability, S.call(S.code(USER).term3, cam, *(abc + [ad])), S.un([ad]))
        else:
            S.call(cam.addCustomoLogProbability, S.call(S.code(USER).term, cam, *abc))
        v = [S.f("v0", 20, 30), S.f("v1", 40, 60)]
        steps = [S.f("s0", 0.1, 3), S.f("s1", 0.1, 3)]
        rng = [(S.f("l0", 1, 15), S.f("h0", 35, 90)), (S.f("l1", 10, 35), S.f("h1", 65, 120))]
        fp = [par(S, names[i], lower=rng[i][0], upper=rng[i][1], value=v[i], step=steps[i]) for i in order]
        n0 = len(S.I.events)
        tr = S.call(cam.metropolis, S.un(fp), iterations=n, disable_bar=True, print_trace=False, **kw)
        cols, rws = frame(S, tr)
        want = [names[i] for i in order] + (["extra"] if additional else []) + ["probability"]
        R.true("columns of the trace", cols == want, detail="%r" % (cols,))
        if cols != want or not rws:
            R.true("the trace has rows", bool(rws))
            return
        ie, it, ip = cols.index("elevation_m"), cols.index("tilt_deg"), len(cols) - 1
        ia = cols.index("extra") if additional else it
        prob = lambda r: -(x(abc[0]) * r[ie] + x(abc[1]) * r[it] + x(abc[2]) * r[ie] * r[ia])
        for j, r in enumerate(rws):
            R.eq("row %d: probability of the row's values" % j, r[ip], prob(r))
            for i in order:
                c = cols.index(names[i])
                R.true("row %d: %s above the lower limit" % (j, names[i]), r[c] >= rng[i][0] - x(1e-9))
                R.true("row %d: %s below the upper limit" % (j, names[i]), r[c] <= rng[i][1] + x(1e-9))
        # the proposals use each parameter's own step
        scale = dict(zip([names[i] for i in order], [steps[i] for i in order]))
        if additional:
            scale["extra"] = S.get(ad, "step").v
        lim = dict(zip(names, rng))
        lim["extra"] = (-50.0, 50.0)
        ev = [e for e in S.I.events[n0:] if e[0] == "random" and e[1] == "truncnorm"]
        st_ = kw.get("step", 1)
        for e in ev[:1]:
            if len(e[4]) == len(cols) - 1:
                for c, (lo_, hi_, l_, s_) in zip(cols, e[4]):
                    R.eq("step of %s" % c, x(X(hi_)) - X(lo_), (x(lim[c][1]) - lim[c][0]) / (x(scale[c]) * st_))
        best = argmax(rws, ip)
        R.eq("camera has the most probable elevation", S.get(cam, "elevation_m"), best[ie])
        R.eq("camera has the most probable tilt", S.get(cam, "tilt_deg"), best[it])
        o.el, o.tilt = best[ie], best[it]
        compare(R, S, "camera afterwards", cam, RECT, "none", p, o, {})
        # drawing from the trace
        pr = S.call(cam.sample)
        el, ti = S.get(cam, "elevation_m").v, S.get(cam, "tilt_deg").v
        got = [X(el.t), X(ti.t)]
        if not additional:
            R.eq("sampled probability belongs to the sampled values", pr, -(x(abc[0]) * got[0] + x(abc[1]) * got[1] + x(abc[2]) * got[0] * got[1]))
        gap = None
        for r in rws:
            d = absx(got[0] - r[ie]) + absx(got[1] - r[it]) + absx(x(pr.v) - r[ip])
            gap = d if gap is None else ite(d < gap, d, gap)
        R.true("the sampled values are one row of the trace", gap < x(1e-6))
        o.el, o.tilt = got
        compare(R, S, "camera after sampling", cam, RECT, "none", p, o, {})
        S.call(cam.set_to_mean)
        R.eq("set_to_mean: most probable elevation", S.get(cam, "elevation_m"), best[ie])
        R.eq("set_to_mean: most probable tilt", S.get(cam, "tilt_deg"), best[it])
        o.el, o.tilt = best[ie], best[it]
        compare(R, S, "camera after set_to_mean", cam, RECT, "none", p, o, {})
    R.group("metropolis", lambda S: metro(S, n=4), allowed=("LinAlgError",))
    R.group("metropolis, other order", lambda S: metro(S, (1, 0)), allowed=("LinAlgError",))
    R.group("metropolis, additional parameter", lambda S: metro(S, (0, 1), True), allowed=("LinAlgError",))
    R.group("metropolis, additional parameter, other order", lambda S: metro(S, (1, 0), True), allowed=("LinAlgError",))
    R.group("metropolis, common factor of the steps", lambda S: metro(S, (0, 1), step=0.5), allowed=("LinAlgError",))

    def trace(S, drop=0):
        """a trace given by the user, also one with the first samples dropped"""
        p, o, k = P(S), O(S), coef(S, "Brown")
        cam = mk(S, RECT, "Brown", p, o, k)
        cols = ["elevation_m", "k1", "cols", "focallength_y_px", "probability"]
        rws = [[S.f("te%d" % i, 1, 9), S.f("tk%d" % i, 0, 0.1), S.f("tn%d" % i, 0, 9), S.f("tf%d" % i, 2000, 3000), S.f("tp%d" % i, -9, 0)] for i in range(3 + drop)]
        df = S.call(S.code("import pandas as pd\ndef make(rows, cols, drop):\n    df = pd.DataFrame(rows, columns=cols)\n    return df[drop:] if drop else df\n").make, S.un([S.un(r) for r in rws]), S.un(cols), drop)
        rws = rws[drop:]
        S.call(cam.set_trace, df)
        S.call(cam.set_to_mean)
        best = argmax([[x(v) for v in r] for r in rws], 4)
        o.el, k["k1"], p.fy = best[0], best[1], best[3]
        compare(R, S, "most probable row", cam, RECT, "Brown", p, o, k)
        pr = S.call(cam.sample)
        got = [S.get(cam, n).v for n in (cols[0], cols[1], cols[3])]
        member = T.FALSE
        for r in rws:
            c = T.eqn(x(pr.v).t, x(r[4]).t)
            for g, j in zip(got, (0, 1, 3)):
                c = T.land(c, T.eqn(g.t, x(r[j]).t))
            member = T.lor(member, c)
        R.true("the sampled values are one row of the trace", member)
        o.el, k["k1"], p.fy = got
        compare(R, S, "sampled row", cam, RECT, "Brown", p, o, k)
    R.group("given trace", trace, allowed=("LinAlgError",))
    R.group("given trace, first samples dropped", lambda S: trace(S, 2), allowed=("LinAlgError",))

    def fitpar(S):
        """fit parameters"""
        lo, hi, v, st = S.f("lo", -5, 0), S.f("hi", 1, 5), S.f("v", 0, 1), S.f("st", 0.1, 3)
        q = par(S, "abc", lower=lo, upper=hi, value=v, step=st)
        R.eq("value", S.get(q, "value"), v)
        R.eq("step", S.get(q, "step"), st)
        R.true("name", S.get(q, "__name__").v == "abc" if hasattr(S.get(q, "__name__"), "v") else S.get(q, "__name__") == "abc")
        r = S.call(q.random)
        R.true("draw above the lower limit", x(r.v) >= x(lo) - 1e-9)
        R.true("draw below the upper limit", x(r.v) <= x(hi) + 1e-9)
        w = S.f("w", 0, 1)
        S.call(q.set_value, w)
        R.eq("value after set_value", S.get(q, "value"), w)
        R.eq("density inside", S.call(q.logp), -log(x(hi) - lo))
        m, s = S.f("m", -5, 5), S.f("s", 0.1, 2)
        q = par(S, "abc", mean=m, std=s, value=v)
        R.eq("normal density", S.call(q.logp), -((x(v) - m) / s) ** 2 / 2 - log(s) - log(2 * pi()) / 2)
        R.expect_raise("no distribution", S, lambda: par(S, "abc", value=v))
        R.expect_raise("half a distribution", S, lambda: par(S, "abc", lower=0.0, value=v))
        R.expect_raise("half a normal distribution", S, lambda: par(S, "abc", mean=0.0, value=v))
    R.group("fit parameters", fitpar)
