"""GPS texts: formatGPS is interpreted abstractly for symbolic positions - the resulting symbolic text must equal the documented
degree/minute/second decomposition with rounding carries; gpsFromString is interpreted on texts built from symbolic numerals, its
regular expressions being matched on the text with placeholder numerals - the result must be the documented value; and reading
back a formatted position must give it up to the precision of the format."""
from .common import *
from ..values import StrT


def text(S, fmt, *args):
    return Obj(S, StrT(T._mk("fmt", fmt, *[tm(a) if not isinstance(a, str) else T._mk("str", a) for a in args])))


def string_eq(R, S, label, got, want):
    """two symbolic texts agree"""
    def term_(v):
        v = S.un(v)
        if isinstance(v, Phi):
            v = S.I.clean(v)
        if isinstance(v, str):
            return T._mk("str", v)
        if isinstance(v, StrT):
            return v.t
        if isinstance(v, Phi):
            q = None
            for g, a in reversed(v.alts):
                t = term_(a)
                if t is None:
                    return None
                q = t if q is None else T.ite(g, t, q)
            return q
        return None
    a, b = term_(got), term_(want)
    full = R.group_name + " / " + label
    if a is None or b is None:
        R.record(full, "undecided", "text lost: %r" % (S.un(got),))
        return
    v = R.eqt(full, a, b, (), 1e-8, S, None, 60, None)
    if v != "refuted":
        R.record(full, v, where=S.last)


def pair(S, r):
    return [Obj(S, v) for v in S.I.unpack(S.un(r), 2)]


def ref_text(S, v, fmt, letters):
    """documented text: |v| split into degrees, minutes, seconds; the last number is rounded to its format, carrying upwards"""
    import re
    a = absx(x(v))
    specs = re.findall(r"%[.\d]*[sdf]", fmt)
    nums = [s for s in specs if s[-1] != "s"]
    neg = x(v) < 0
    D = T.fn("floor", a.t)
    M = T.fn("floor", ((a - X(D)) * 60).t)
    if len(nums) == 3:
        s = ((a - X(D)) * 60 - X(M)) * 60
        lim = 60 - 0.5 * 10.0 ** -dec(nums[2]) if nums[2][-1] == "f" else None
        c = (s >= lim) if lim is not None else T.FALSE
        M1 = ite(c, X(M) + 1, X(M))
        s1 = ite(c, 0, s)
        c2 = M1 >= 60
        vals = [ite(c2, X(D) + 1, X(D)), ite(c2, 0, M1), s1]
    elif len(nums) == 2:
        m = (a - X(D)) * 60
        c = (m >= 60 - 0.5 * 10.0 ** -dec(nums[1])) if nums[1][-1] == "f" else T.FALSE
        vals = [ite(c, X(D) + 1, X(D)), ite(c, 0, m)]
    else:
        vals = [a]
    sign = not any(s[-1] == "s" for s in specs)
    if sign:
        neg_first = nums[0]
        if neg_first[-1] == "d":
            w = re.match(r"%(\d*)d", neg_first).group(1)
            # -0 needs its sign as well
            f0 = ite2(neg, ite2(X(vals[0].t) < 1, T._mk("str", "-0".rjust(int(w or 0))), T._mk("fmt", neg_first, (-vals[0]).t)), T._mk("fmt", neg_first, vals[0].t))
            rest = []
            args = [f0]
            fmt = fmt.replace(neg_first, "%s", 1)
            return T._mk("fmt", fmt, *(args + [q.t for q in vals[1:]]))
        vals[0] = ite(neg, -vals[0], vals[0])
    args = []
    k = 0
    for s in specs:
        if s[-1] == "s":
            args.append(ite2(neg, T._mk("str", letters[1]), T._mk("str", letters[0])))
        else:
            args.append(vals[k].t)
            k += 1
    return T._mk("fmt", fmt, *args)


def ite2(c, a, b):
    return T.ite(c, a, b)


def dec(spec):
    import re
    m = re.search(r"\.(\d+)f", spec)
    return int(m.group(1)) if m else 6


FORMATS = [("%2d\u00b0 %2d' %6.3f\" %s", 0.001 / 3600), ("%2d\u00b0 %2.3f %s", 0.001 / 60), ("%2.3f\u00b0", 0.001), ("%2d\u00b0 %2.3f'", 0.001 / 60),
           ("%d\u00b0 %d' %.5f\"", 1e-5 / 3600), ("%3d\u00b0 %2d' %5.1f\" %s", 0.1 / 3600), ("%.6f\u00b0", 1e-6), ("%.4f\u00b0 %s", 1e-4),
           ("%2d\u00b0 %2.1f' %s", 0.1 / 60)]


def inputs(S):
    """any position; positions just below a full degree, minute or second; between -1 and 0"""
    i, e = S.i("deg_i", -170, 170), S.f("eps", 6e-8, 1.3e-7)
    return [("any", S.f("la", -89.9, 89.9), S.f("lo", -179.9, 179.9)),
            ("small", S.f("sl", -1.2, 1.2), S.f("sm", -0.02, 0.02)),
            ("just below a degree", x(S.i("di", 1, 80)) - e, -(x(S.i("dj", 1, 170)) - e)),
            ("just below a minute", x(S.i("di", 1, 80)) + x(S.i("mi", 1, 59)) / 60 - e, -(x(S.i("dj", 1, 170)) + x(S.i("mj", 1, 59)) / 60 - e)),
            ("full degrees", S.i("di", 1, 80), -x(S.i("dj", 1, 170)))]


def run(R):
    def fmts(S):
        for fmt, prec in FORMATS:
            for lab, la, lo in inputs(S):
                if lab == "full degrees" and fmt != FORMATS[2][0]:
                    continue
                r = pair(S, S.call(S.ct("formatGPS"), la, lo, fmt))
                string_eq(R, S, "%s, %s, latitude" % (fmt, lab), r[0], Obj(S, StrT(ref_text(S, la, fmt, "NS"))))
                string_eq(R, S, "%s, %s, longitude" % (fmt, lab), r[1], Obj(S, StrT(ref_text(S, lo, fmt, "EW"))))
        la, lo = S.f("la", -89.9, 89.9), S.f("lo", -179.9, 179.9)
        a, b = pair(S, S.call(S.ct("formatGPS"), la, lo)), pair(S, S.call(S.ct("formatGPS"), la, lo, format=FORMATS[0][0]))
        for i in range(2):
            string_eq(R, S, "the default format", a[i], b[i])
        for bad in ("", "no numbers", "%2d %2d %2d %2d"):
            R.expect_raise("format %r" % bad, S, lambda: S.call(S.ct("formatGPS"), la, lo, bad))
    R.group("formatGPS", fmts)

    def value(deg_, m=None, s=None, neg=False):
        v = x(deg_)
        if m is not None:
            v = v + x(m) / 60
        if s is not None:
            v = v + x(s) / 3600
        return -v if neg else v

    def near(label, S, got, want, tol):
        """numbers up to the precision of the text"""
        try:
            sh, g = S.terms(got)
            sw, w = S.terms(want)
        except NotNumeric as e:
            R.violate(R.group_name + " / " + label, "result is not numeric: %r" % (e.v,), S)
            return
        if sh != sw:
            R.violate(R.group_name + " / " + label, "shape %s, expected %s" % (sh, sw), S)
            return
        for k, (a, b) in enumerate(zip(g, w)):
            if not R.true("%s [%d]" % (label, k), absx(X(a) - X(b)) < tol):
                return

    DMS = [("'", '"'), ("'", "''"), ("\u2032", "\u2033"), ("\u00b4", "\u00b4\u00b4"), ("\u2019", '"')]

    def parse(S):
        D, E = S.i("D", 0, 89), S.i("E", 0, 179)
        m, k = S.i("M", 0, 59), S.i("K", 0, 59)
        s, t = S.f("sec", 0.1, 59.9), S.f("tec", 0.1, 59.9)
        g = S.ct("gpsFromString")
        h = S.f("height", -10, 500)
        for q, qq in DMS:
            for sep in ("", " "):
                for l1, l2, n1, n2 in (("N", "E", False, False), ("S", "W", True, True), ("N", "W", False, True), ("S", "E", True, False), ("", "", False, False)):
                    for mid in (" ", ", ", "  "):
                        if (mid != " " or sep) and (q != "'" or l1 != "S"):
                            continue
                        f = ("%d\u00b0" + sep + "%d" + q + sep + "%.3f" + qq + sep)
                        tx = text(S, f + l1 + mid + f + l2, D, m, s, E, k, t)
                        near("degrees, minutes, seconds %r %r %r %r" % (q, qq, l1 + l2, sep + "|" + mid), S, S.call(g, tx),
                             [value(D, m, s, n1), value(E, k, t, n2)], 2e-7)
        for l1, l2, n1, n2 in (("N", "E", False, False), ("S", "W", True, True), ("", "", False, False)):
            for q in ("'", "", "\u2032", "\u2019"):
                f = "%d\u00b0 %.4f" + q + " "
                near("degrees, minutes %r %r" % (q, l1 + l2), S, S.call(g, text(S, f + l1 + " " + f + l2, D, s, E, t)), [value(D, s, None, n1), value(E, t, None, n2)], 2e-6)
            dd, de = S.f("dd", 0.01, 89), S.f("de", 0.01, 179)
            near("degrees %r" % (l1 + l2), S, S.call(g, text(S, "%.6f\u00b0 " + l1 + " %.6f\u00b0 " + l2, dd, de)), [value(dd, neg=n1), value(de, neg=n2)], 1e-6)
        near("negative degrees", S, S.call(g, text(S, "-%.6f\u00b0 -%.6f\u00b0", dd, de)), [value(dd, neg=True), value(de, neg=True)], 1e-6)
        near("first negative", S, S.call(g, text(S, "-%.6f\u00b0, %.6f\u00b0", dd, de)), [value(dd, neg=True), value(de)], 1e-6)
        near("second negative", S, S.call(g, text(S, "%.6f\u00b0 -%.6f\u00b0", dd, de)), [value(dd), value(de, neg=True)], 1e-6)
        near("explicit plus", S, S.call(g, text(S, "+%.6f\u00b0 +%.6f\u00b0", dd, de)), [value(dd), value(de)], 1e-6)
        f = "%d\u00b0 %d' %.3f\""
        near("negative degrees with minutes", S, S.call(g, text(S, "-" + f + " -" + f, D, m, s, E, k, t)), [value(D, m, s, True), value(E, k, t, True)], 2e-7)
        near("negative degrees with decimal minutes", S, S.call(g, text(S, "-%d\u00b0 %.4f' %d\u00b0 %.4f'", D, s, E, t)), [value(D, s, None, True), value(E, t)], 2e-6)
        near("minus zero degrees", S, S.call(g, text(S, "-0\u00b0 %.4f' -0\u00b0 %.4f'", s, t)), [value(0, s, None, True), value(0, t, None, True)], 2e-6)
        # one coordinate
        for l, n in (("N", False), ("S", True), ("E", False), ("W", True), ("", False)):
            near("one coordinate %r" % l, S, S.call(g, text(S, f + " " + l, D, m, s)), value(D, m, s, n), 2e-7)
            near("one coordinate, minutes %r" % l, S, S.call(g, text(S, "%d\u00b0 %.4f' " + l, D, s)), value(D, s, None, n), 2e-6)
            near("one coordinate, degrees %r" % l, S, S.call(g, text(S, "%.6f\u00b0" + l, dd)), value(dd, neg=n), 1e-6)
        # heights and lists
        A, B = f + " S", f + " E"
        want = [value(D, m, s, True), value(E, k, t)]
        two = text(S, A + " " + B, D, m, s, E, k, t)
        a, b = text(S, A, D, m, s), text(S, B, E, k, t)
        near("with height", S, S.call(g, two, h), want + [x(h)], 2e-7)
        near("two texts", S, S.call(g, S.un([a, b])), want, 2e-7)
        near("two texts as tuple", S, S.call(g, (a, b)), want, 2e-7)
        near("two texts with height", S, S.call(g, S.un([a, b]), h), want + [x(h)], 2e-7)
        near("text and height", S, S.call(g, (two, 12.5)), want + [12.5], 2e-7)
        other = text(S, A + " " + B, k, k, t, m, k, s)
        want2 = [value(k, k, t, True), value(m, k, s)]
        near("list of texts", S, S.call(g, S.un([two, other])), [want, want2], 2e-7)
        near("list of texts and heights", S, S.call(g, S.un([[two, 12.5], [other, 3]])), [want + [12.5], want2 + [3]], 2e-7)
        near("list of texts with a height", S, S.call(g, S.un([two, other]), h), [want + [x(h)], want2 + [x(h)]], 2e-7)
        h2 = S.f("height2", -10, 500)
        near("list of texts with a list of heights", S, S.call(g, S.un([two, other]), S.un([h, h2])), [want + [x(h)], want2 + [x(h2)]], 2e-7)
        near("list of three texts with a height", S, S.call(g, S.un([two, other, two]), h), [want + [x(h)], want2 + [x(h)], want + [x(h)]], 2e-7)
        near("list of pairs with a height", S, S.call(g, S.un([[a, b], [a, b]]), h), [want + [x(h)], want + [x(h)]], 2e-7)
        near("list of pairs", S, S.call(g, S.un([[a, b], [a, b]])), [want, want], 2e-7)
    R.group("gpsFromString", parse)

    def trip(S):
        for fmt, prec in FORMATS:
            for lab, la, lo in inputs(S)[:4]:
                r = S.call(S.ct("formatGPS"), la, lo, fmt)
                p = pair(S, r)
                tol = prec * 0.51 + 1e-9
                near("%s, %s, as two texts" % (fmt, lab), S, S.call(S.ct("gpsFromString"), r), [la, lo], tol)
                if all(isinstance(q.v, (str, StrT)) for q in p):
                    joined = Obj(S, StrT(T._mk("strcat", p[0].v.t, T._mk("str", " "), p[1].v.t)))
                    near("%s, %s, as one text" % (fmt, lab), S, S.call(S.ct("gpsFromString"), joined), [la, lo], tol)
    R.group("round trip", trip)
