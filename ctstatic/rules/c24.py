"""The Metropolis sampler: statistic.metropolis is interpreted abstractly with a recording log probability that returns symbolic
values and symbolic random numbers. Decided are the acceptance rule, the recorded rows, the centre, width and limits of the
proposals, the number of rows and that the proposal width is adapted in the right direction and only before rows are recorded."""
from .common import *
from fractions import Fraction

USER = """
import numpy as np
import pandas as pd

class LP:
    def __init__(self, probs):
        self.probs = probs
        self.seen = []

    def __call__(self, position):
        self.seen.append(list(position))
        return self.probs[len(self.seen) - 1]

class Const:
    def __init__(self, first, others):
        self.first = first
        self.others = others
        self.seen = []
        self.n = 0

    def __call__(self, position):
        self.n += 1
        self.seen.append(list(position))
        return self.first if self.n == 1 else self.others

class Share:
    # the first k of every 20 proposals have a probability
    def __init__(self, k, none):
        self.k = k
        self.none = none
        self.seen = []
        self.n = 0

    def __call__(self, position):
        self.seen.append(list(position))
        i = self.n
        self.n += 1
        if i == 0 or (i - 1) % 20 < self.k:
            return 0.0
        return self.none

class Turn:
    # from proposal 201 on the others have a probability
    def __init__(self, before, after):
        self.before = before
        self.after = after
        self.seen = []
        self.n = 0

    def __call__(self, position):
        self.seen.append(list(position))
        i = self.n
        self.n += 1
        if i == 0:
            return 0.0
        if i <= 201:
            return self.before
        return self.after

def frame(rows, cols, drop=0):
    df = pd.DataFrame(rows, columns=cols)
    return df[drop:] if drop else df
"""
INF = float("-inf")


def scalar(v):
    return v.t if isinstance(v, Sc) else T.const(v)


def uniforms(S, n0):
    return [X(t) for e in S.I.events[n0:] if e[0] == "random" and e[1] in ("rand", "uniform") for t in e[3]]


def table(S, v):
    return [[X(scalar(c)) for c in S.I.iterate(r)] for r in S.I.iterate(v)]


def as_list(S, v):
    return [[X(scalar(c)) for c in S.I.iterate(r)] for r in S.I.iterate(S.get(v, "seen").v)]


def run(R):
    def chain(S, n=4, burn=0, probs=None, limits=True, dim=2, prior=False, listed=False):
        f = S.sub("statistic", "metropolis")
        U = S.code(USER)
        ps = probs or [None] * (n + 1)
        ps = [S.f("logp%d" % i, -5, 0) if q is None else q for i, q in enumerate(ps)]
        lp = S.call(U.LP, S.un(ps))
        start = [S.f("start%d" % i, 20 + 20 * i, 30 + 20 * i) for i in range(dim)]
        step = [S.f("step%d" % i, 0.5, 3) for i in range(dim)]
        lim = [(S.f("lo%d" % i, 1, 15), S.f("hi%d" % i, 85, 120)) for i in range(dim)]
        kw = dict(step=S.un(step) if listed else S.arr(step), iterations=n, burn=burn, disable_bar=True)
        if limits == "open":
            lim = [(lim[0][0], None)] + [(None, l[1]) for l in lim[1:]]
        if limits:
            kw["ranges"] = S.un([S.un(list(l)) for l in lim])
        extra = []
        if prior:
            extra = [[S.f("pr%d%d" % (i, j), -9, 9) for j in range(3)] for i in range(5 if prior == "dropped" else 3)]
            drop = 2 if prior == "dropped" else 0
            kw["prior_trace"] = S.call(U.frame, S.un([S.un(r) for r in extra]), S.un(["u", "v", "probability"]), drop)
            extra = extra[drop:]
        n0 = len(S.I.events)
        s0 = S.un(start) if listed else S.arr(start)
        tr = table(S, S.call(f, lp, s0, **kw).v)
        R.eq("the start is left alone", Obj(S, s0.v if isinstance(s0, Obj) else s0), start)
        seen = as_list(S, lp)
        R.true("one evaluation for the start and one per iteration", len(seen) == n + 1, detail="%d evaluations" % len(seen))
        us = uniforms(S, n0)
        if len(seen) != n + 1:
            return
        R.eq("the start is evaluated first", seen[0][:dim], start)
        # the chain
        if len(us) != n:
            R.record("%s / acceptance" % R.group_name, "undecided", "%d random numbers in %d iterations" % (len(us), n))
            return
        cur, p = seen[0][:dim], ps[0]
        chain_, probs_ = [], []
        for i in range(n):
            nxt, q = seen[i + 1][:dim], ps[i + 1]
            if isinstance(q, float) and q == INF:
                acc = isinstance(p, float) and p == INF
            elif isinstance(p, float) and p == INF:
                acc = True
            else:
                acc = T.lor(x(q) >= p, us[i] < exp(x(q) - p))
            if acc is True:
                cur, p = nxt, q
            elif acc is not False:
                cur = [ite(acc, a, b) for a, b in zip(nxt, cur)]
                p = ite(acc, q, p)
            chain_.append(cur)
            probs_.append(p)
        k = len(tr)
        R.true("rows are recorded after the burn-in only", n - burn - 1 <= k <= n - burn, detail="%d rows for %d iterations and a burn-in of %d" % (k, n, burn))
        if not k:
            return
        for j in range(k):
            i = n - k + j
            R.eq("row %d: last accepted position" % j, tr[j][:dim], chain_[i])
            if isinstance(probs_[i], float) and probs_[i] == INF:
                R.true("row %d: probability of the last accepted position" % j, tr[j][-1] < -1e300)
            else:
                R.eq("row %d: probability of the last accepted position" % j, tr[j][-1], probs_[i])
            R.true("row %d: number of columns" % j, len(tr[j]) == dim + 1 + (2 if prior else 0))
        # the proposals
        for i in range(n):
            for d in range(dim):
                for k_, (lo, hi) in (("limits", lim[d]),) if limits else ():
                    if lo is not None:
                        R.true("proposal %d of parameter %d is above the lower limit" % (i, d), seen[i + 1][d] >= x(lo) - 1e-9)
                    if hi is not None:
                        R.true("proposal %d of parameter %d is below the upper limit" % (i, d), seen[i + 1][d] <= x(hi) + 1e-9)
        ev = [e for e in S.I.events[n0:] if e[0] == "random" and e[1] == "truncnorm"]
        if len(ev) == n and all(len(e[3]) == dim for e in ev):
            last = [seen[0][:dim]] + chain_
            for i, e in enumerate(ev):
                for d in range(dim):
                    a, b, l, s = e[4][d]
                    z = X(e[5][d])
                    R.eq("proposal %d of parameter %d: last position plus the step times a normal number" % (i, d), seen[i + 1][d] - last[i][d], x(step[d]) * z)
        if prior:
            for i, v in enumerate(seen):
                gap = None
                for r in extra:
                    g = absx(v[dim] - r[0]) + absx(v[dim + 1] - r[1])
                    gap = g if gap is None else ite(g < gap, g, gap)
                R.true("evaluation %d: the prior's values are one row of the prior trace" % i, len(v) == dim + 2 and gap < 1e-6)
            for j in range(k):
                R.eq("row %d: the prior's values" % j, tr[j][dim:dim + 2], seen[n - k + j + 1][dim:dim + 2])

    G = lambda name, **kw: R.group(name, lambda S: chain(S, **kw))
    G("chain", n=5 if R.thorough else 4)
    G("chain without limits", n=3, limits=False)
    G("chain with open limits", n=3, limits="open")
    G("chain with burn-in", n=5, burn=2, limits=False)
    G("chain with a fraction as burn-in", n=4, burn=0)
    G("chain of three parameters", n=2, dim=3)
    G("chain of one parameter", n=3, dim=1)
    G("positions without probability", n=6, probs=[INF, INF, None, INF, None, INF, None])
    G("a chain that never finds a probability", n=3, probs=[INF] * 4, limits=False)
    G("prior trace", n=3, prior=True)
    G("prior trace, first samples dropped", n=3, prior="dropped")
    G("start and steps as lists", n=2, dim=2, listed=True)

    def fraction(S):
        f = S.sub("statistic", "metropolis")
        U = S.code(USER)
        for burn, want in ((0.5, 10), (0.1, 18), (5, 15), (0.25, 15)):
            tr = table(S, S.call(f, S.call(U.Const, 0.0, 0.0), S.arr([1.0]), iterations=20, burn=burn, disable_bar=True).v)
            R.true("burn-in of %r" % burn, want - 1 <= len(tr) <= want, detail="%d rows" % len(tr))
    R.group("length of the burn-in", fraction)

    def adapt(S):
        """the width of the proposals follows the acceptance rate, but only before rows are recorded"""
        f = S.sub("statistic", "metropolis")
        U = S.code(USER)
        n, burn = (660, 510) if R.thorough else (360, 210)

        lo, hi = S.f("lo", 1, 15), S.f("hi", 85, 120)

        def widths(lp, accepted):
            """proposal minus last position, as multiples of the normal number drawn"""
            n0 = len(S.I.events)
            S.call(f, lp, S.arr([50.0]), step=S.arr([0.5]), iterations=n, burn=burn, disable_bar=True, **({} if accepted else {"ranges": S.un([S.un([lo, hi])])}))
            ev = [e for e in S.I.events[n0:] if e[0] == "random" and e[1] == "truncnorm"]
            if len(ev) != n or any(len(e[5]) != 1 for e in ev):
                raise Undecided("the proposals are not drawn from one normal number each")
            seen = [r[0].t for r in as_list(S, lp)]
            if not accepted:
                # the draws are limited such that the proposals are within the limits, for every width
                for i in (0, n // 2, n - 1):
                    c = width(seen[i + 1], seen[0], ev[i][5][0])
                    a, b, l, s = ev[i][4][0]
                    R.eq("lower limit of proposal %d" % i, X(a), (x(lo) - 50) / c)
                    R.eq("upper limit of proposal %d" % i, X(b), (x(hi) - 50) / c)
            return [width(seen[i + 1], seen[i if accepted else 0], ev[i][5][0]) for i in range(n)]

        def width(p, last, z):
            """c where the proposal p is last + c z (numbers and draws are left as they are by the interpreter)"""
            if p.op == "add" and any(a is last for a in p.args):
                rest = p.args[1] if p.args[0] is last else p.args[0]
            elif T.cval(last) is not None and p.op == "add" and T.cval(p.args[0]) == T.cval(last):
                rest = p.args[1]
            else:
                raise Undecided("a proposal is not the last position plus a draw")
            c, todo = Fraction(1), [rest]
            while todo:
                t = todo.pop()
                if t is z:
                    continue
                if t.op == "mul":
                    todo += t.args
                elif t.op == "neg":
                    c, todo = -c, todo + list(t.args)
                elif T.cval(t) is not None:
                    c *= T.cval(t)
                else:
                    raise Undecided("a proposal is not the last position plus a multiple of a draw")
            return float(c)

        for name, lp, sign in (("all proposals accepted", lambda: S.call(U.Const, 0.0, 0.0), -1), ("all proposals rejected", lambda: S.call(U.Const, 0.0, INF), 1)):
            w = widths(lp(), sign < 0)
            R.eq("%s: the first proposal has the given width" % name, w[0], 0.5)
            for i in (burn + 2, burn + 40, n - 1):
                R.eq("%s: width of proposal %d after the burn-in" % (name, i), w[i], w[burn + 1])
            if sign < 0:
                R.true("%s: the width has grown" % name, w[burn + 1] > w[0])
            else:
                R.true("%s: the width has shrunk" % name, w[burn + 1] < w[0])
            for i in range(100, burn + 1, 100):
                c = w[i + 1] >= w[i - 1] if sign < 0 else w[i + 1] <= w[i - 1]
                R.true("%s: adaptation at %d" % (name, i), c)

        # shares of accepted proposals between the extremes: the more is accepted, the wider; nothing changes for a share of about a third
        factor = []
        for k in (0, 1, 2, 7, 12, 17, 20):
            lp = S.call(U.Share, k, INF)
            n0 = len(S.I.events)
            S.call(f, lp, S.arr([50.0]), step=S.arr([0.5]), iterations=230, burn=215, disable_bar=True)
            ev = [e for e in S.I.events[n0:] if e[0] == "random" and e[1] == "truncnorm"]
            if len(ev) != 230 or any(len(e[5]) != 1 for e in ev):
                raise Undecided("the proposals are not drawn from one normal number each")
            seen = [r[0].t for r in as_list(S, lp)]
            last = 0
            for i in range(229):
                if i % 20 < k:
                    last = i + 1
            factor.append((k, width(seen[230], seen[last], ev[229][5][0]) / 0.5))
        for (k, a), (l, b) in zip(factor, factor[1:]):
            R.true("%d of 20 accepted: not narrower than for %d of 20" % (l, k), b >= a, detail="factors %g, %g" % (a, b))
        for k, a in factor:
            if k in (1, 2):
                R.true("%d of 20 accepted: the width has shrunk" % k, a < 1, detail="factor %g" % a)
            elif k == 7:
                R.true("7 of 20 accepted: the width is kept", a == 1, detail="factor %g" % a)
            elif k in (12, 17):
                R.true("%d of 20 accepted: the width has grown" % k, a > 1, detail="factor %g" % a)
        # each adaptation follows the proposals since the one before
        for name, a, b in (("all accepted after none was", INF, 0.0), ("none accepted after all were", 0.0, INF)):
            lp = S.call(U.Turn, a, b)
            n0 = len(S.I.events)
            S.call(f, lp, S.arr([50.0]), step=S.arr([0.5]), iterations=330, burn=325, disable_bar=True)
            ev = [e for e in S.I.events[n0:] if e[0] == "random" and e[1] == "truncnorm"]
            if len(ev) != 330 or any(len(e[5]) != 1 for e in ev):
                raise Undecided("the proposals are not drawn from one normal number each")
            seen = [r[0].t for r in as_list(S, lp)]
            if a == INF:
                w = [width(seen[251], seen[250], ev[250][5][0]), width(seen[330], seen[329], ev[329][5][0])]
            else:
                w = [width(seen[251], seen[201], ev[250][5][0]), width(seen[330], seen[201], ev[329][5][0])]
            R.true("%s: the width has %s" % (name, "grown" if a == INF else "shrunk"), w[1] > w[0] if a == INF else w[1] < w[0], detail="%g after %g" % (w[1], w[0]))
        f_ = dict(factor)
        R.true("17 of 20 accepted: more than for 12 of 20", f_[17] > f_[12], detail="factors %g, %g" % (f_[17], f_[12]))
        R.true("20 of 20 accepted: more than for 17 of 20", f_[20] > f_[17], detail="factors %g, %g" % (f_[20], f_[17]))
        R.true("none accepted: less than for 1 of 20", f_[0] < f_[1], detail="factors %g, %g" % (f_[0], f_[1]))
    R.group("adaptation of the step size", adapt)

    def default(S):
        """without a step the proposals are one normal number away"""
        f = S.sub("statistic", "metropolis")
        U = S.code(USER)
        lp = S.call(U.LP, S.un([S.f("logp%d" % i, -5, 0) for i in range(2)]))
        start = [S.f("start%d" % i, 20, 40) for i in range(2)]
        n0 = len(S.I.events)
        S.call(f, lp, S.arr(start), iterations=1, burn=0, disable_bar=True)
        ev = [e for e in S.I.events[n0:] if e[0] == "random" and e[1] == "truncnorm"]
        seen = as_list(S, lp)
        if len(ev) != 1 or len(ev[0][5]) != 2 or len(seen) != 2:
            raise Undecided("the proposal is not drawn from normal numbers")
        for d in range(2):
            R.eq("parameter %d" % d, seen[1][d] - start[d], X(ev[0][5][d]))
    R.group("width without a step given", default)
