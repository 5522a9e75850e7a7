"""Hash-consed value-number terms: the abstract domain of the analyser.

Every scalar the analysed program can compute is represented by one node of a
shared, immutable DAG (a *value number*).  Joins of control flow produce gated
phi nodes (``ite``), never one state per path.  Two questions can be asked about
a pair of value numbers:

* are they provably the same function of the inputs?  (``nf.prove``; algebra)
* are they certainly different?  An identity test on the *terms* (Schwartz-
  Zippel style) with a running error bound; a difference is only accepted when
  it exceeds the bound, so rounding can not refute a true equality.
"""
import math
import struct
import random
import sys
from fractions import Fraction

sys.setrecursionlimit(200000)


class Term:
    __slots__ = ("op", "args", "id", "mn", "ncond", "sm", "__weakref__")

    def __repr__(self):
        return show(self)


_table = {}
_count = [0]
BOOL_OPS = {"true", "false", "lt", "le", "eqn", "isnan", "isinf", "and", "or", "not", "bsym", "ufb", "streq"}


_bits = {}


def symbit(name):
    """bit of a symbol in the symbol mask of terms"""
    b = _bits.get(name)
    if b is None:
        b = _bits[name] = 1 << len(_bits)
    return b


def _mk(op, *args):
    key = (op,) + tuple(a.id if isinstance(a, Term) else ("c", type(a).__name__, a) for a in args)
    t = _table.get(key)
    if t is not None:
        return t
    t = Term()
    t.op = op
    t.args = args
    _count[0] += 1
    t.id = _count[0]
    mn = op in ("nan", "inf", "ninf")
    nc = 1 if op == "ite" else 0
    sm = symbit(args[0]) if op in ("sym", "bsym") else 0
    for a in args:
        if isinstance(a, Term):
            mn = mn or a.mn
            nc += a.ncond
            sm |= a.sm
    t.sm = sm
    if op in BOOL_OPS:
        mn = False
    if op in ("maynan",):
        mn = True
    t.mn = mn
    t.ncond = nc
    _table[key] = t
    return t


TRUE = _mk("true")
FALSE = _mk("false")
NAN = _mk("nan")
INF = _mk("inf")
NINF = _mk("ninf")
PI = _mk("pi")

SYMS = {}        # name -> dict(lo, hi, integer, specials, gen)


def const(v):
    """numeric constant -> Term"""
    if isinstance(v, Term):
        return v
    if isinstance(v, bool):
        return _mk("const", Fraction(int(v)))
    if isinstance(v, int):
        return _mk("const", Fraction(v))
    if isinstance(v, Fraction):
        return _mk("const", v)
    if isinstance(v, float):
        if v != v:
            return NAN
        if v == math.inf:
            return INF
        if v == -math.inf:
            return NINF
        if v == math.pi:
            return PI
        if v == math.pi / 180:
            return div(PI, const(180))
        if v == 180 / math.pi:
            return div(const(180), PI)
        if v == 2 * math.pi:
            return mul(const(2), PI)
        if v == math.pi / 2:
            return div(PI, const(2))
        # a decimal literal means the decimal number
        return _mk("const", Fraction(repr(v)))
    raise TypeError(v)


def sym(name, lo=-10.0, hi=10.0, integer=False, specials=(), gen=None):
    if name not in SYMS:
        SYMS[name] = dict(lo=lo, hi=hi, integer=integer, specials=tuple(specials), gen=gen)
    return _mk("sym", name)


_fresh = [0]


def fresh(prefix, lo=-10.0, hi=10.0, integer=False, specials=()):
    _fresh[0] += 1
    return sym("%s#%d" % (prefix, _fresh[0]), lo, hi, integer, specials)


def named(name, value):
    """a constant that keeps its identity (elements of a sampling grid)"""
    return _mk("named", name, float(value))


def bsym(name):
    if name not in SYMS:
        SYMS[name] = dict(bool=True)
    return _mk("bsym", name)


def freshbool(prefix):
    _fresh[0] += 1
    return bsym("%s#%d" % (prefix, _fresh[0]))


def isbool(t):
    return t.op in BOOL_OPS or (t.op == "ite" and isbool(t.args[1]))


def cval(t):
    """Fraction value of a constant term or None"""
    return t.args[0] if t.op == "const" else None


ZERO = const(0)
ONE = const(1)
TWO = const(2)
MONE = const(-1)


def num(t):
    """coerce a bool term to a number term"""
    if t.op == "true":
        return ONE
    if t.op == "false":
        return ZERO
    if isbool(t):
        return ite(t, ONE, ZERO)
    return t


def add(a, b):
    if isbool(a):
        a = num(a)
    if isbool(b):
        b = num(b)
    if a.op == "nan" or b.op == "nan":
        return NAN
    ca, cb = cval(a), cval(b)
    if ca is not None and cb is not None:
        return const(ca + cb)
    if ca == 0:
        return b
    if cb == 0:
        return a
    if a.op in ("inf", "ninf") and cb is not None:
        return a
    if b.op in ("inf", "ninf") and ca is not None:
        return b
    if a.op == b.op and a.op in ("inf", "ninf"):
        return a
    if a is neg(b) and not a.mn:
        return ZERO
    sa, sb = _square(a), _square(b)
    if sa is not None and sb is not None and not a.mn and {sa.op, sb.op} == {"sin", "cos"} and sa.args[0] is sb.args[0]:
        return ONE
    if a.id > b.id:
        a, b = b, a
    return _mk("add", a, b)


def _square(t):
    if t.op == "mul" and t.args[0] is t.args[1] and t.args[0].op in ("sin", "cos"):
        return t.args[0]
    if t.op == "powi" and t.args[1] == 2 and t.args[0].op in ("sin", "cos"):
        return t.args[0]
    return None


def neg(a):
    if isbool(a):
        a = num(a)
    if a.op == "const":
        return const(-a.args[0])
    if a.op == "neg":
        return a.args[0]
    if a.op == "nan":
        return NAN
    if a.op == "inf":
        return NINF
    if a.op == "ninf":
        return INF
    return _mk("neg", a)


def sub(a, b):
    if isbool(a):
        a = num(a)
    if isbool(b):
        b = num(b)
    if a is b and not a.mn:
        return ZERO
    return add(a, neg(b))


def mul(a, b):
    if isbool(a):
        a = num(a)
    if isbool(b):
        b = num(b)
    if a.op == "nan" or b.op == "nan":
        return NAN
    ca, cb = cval(a), cval(b)
    if ca is not None and cb is not None:
        return const(ca * cb)
    if ca is None and cb is not None:
        a, b, ca, cb = b, a, cb, ca
    if ca is not None:
        if ca == 0 and not b.mn:
            return ZERO
        if ca == 1:
            return b
        if ca == -1:
            return neg(b)
        if b.op in ("inf", "ninf"):
            if ca == 0:
                return NAN
            return b if ca > 0 else neg(b)
        if b.op == "neg":
            return mul(const(-ca), b.args[0])
    if a.op == "neg" and b.op == "neg":
        return mul(a.args[0], b.args[0])
    if a.op == "neg":
        return neg(mul(a.args[0], b))
    if b.op == "neg":
        return neg(mul(a, b.args[0]))
    if a.id > b.id and ca is None:
        a, b = b, a
    return _mk("mul", a, b)


def div(a, b):
    if isbool(a):
        a = num(a)
    if isbool(b):
        b = num(b)
    if a.op == "nan" or b.op == "nan":
        return NAN
    ca, cb = cval(a), cval(b)
    if cb is not None and cb != 0:
        if ca is not None:
            return const(ca / cb)
        return mul(const(1 / cb), a)
    if cb == 0:
        if ca is not None:
            return NAN if ca == 0 else (INF if ca > 0 else NINF)
        return _mk("div", a, b)
    if b.op in ("inf", "ninf") and ca is not None:
        return ZERO
    if ca == 0 and b.op == "sym" and (SYMS[b.args[0]]["lo"] > 0 or SYMS[b.args[0]]["hi"] < 0):
        return ZERO
    if a is b and b.op == "pi":
        return ONE
    if a.op == "sqrt" and b.op == "sqrt":
        ca, cb = cval(a.args[0]), cval(b.args[0])
        if ca is not None and cb is not None and ca > 0 and cb > 0:
            r = _fr_sqrt(ca / cb)
            if r is not None:
                return const(r)
    if a.op == "neg":
        return neg(div(a.args[0], b))
    if b.op == "neg":
        return neg(div(a, b.args[0]))
    return _mk("div", a, b)


def powi(a, n):
    """integer power"""
    if isbool(a):
        a = num(a)
    ca = cval(a)
    if n == 0:
        return ONE
    if n == 1:
        return a
    if ca is not None and (ca != 0 or n > 0) and abs(n) < 64:
        return const(ca ** n)
    if a.op == "nan":
        return NAN
    if n < 0:
        return div(ONE, powi(a, -n))
    if a.op == "neg" and n % 2 == 0:
        a = a.args[0]
    return _mk("powi", a, n)


def _fr_sqrt(c):
    if c < 0:
        return None
    n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if n * n == c.numerator and d * d == c.denominator:
        return Fraction(n, d)
    return None


_EXACT0 = {"sin": ZERO, "tan": ZERO, "asin": ZERO, "atan": ZERO, "sinh": ZERO, "cos": ONE, "exp": ONE, "cosh": ONE}


def fn(op, *args):
    """named elementary function"""
    args = tuple(num(a) if isbool(a) else a for a in args)
    if any(a.op == "nan" for a in args) and op not in ("ufn",):
        return NAN
    a = args[0]
    c = cval(a)
    if op == "sqrt":
        if c is not None:
            r = _fr_sqrt(c)
            if r is not None:
                return const(r)
            if c < 0:
                return NAN
        if a.op == "inf":
            return INF
    elif op == "abs":
        if c is not None:
            return const(abs(c))
        if a.op in ("inf", "ninf"):
            return INF
        if a.op in ("abs", "sqrt"):
            return a
        if a.op == "neg":
            return fn("abs", a.args[0])
    elif op in _EXACT0 and c == 0:
        return _EXACT0[op]
    elif op == "exp" and a.op in ("inf", "ninf"):
        return INF if a.op == "inf" else ZERO
    elif op == "log" and c == 1:
        return ZERO
    elif op in ("floor", "ceil", "trunc", "round"):
        if c is not None:
            f = {"floor": math.floor, "ceil": math.ceil, "trunc": math.trunc, "round": round}[op]
            return const(f(c))
        if isint(a):
            return a
    elif op == "sign":
        if c is not None:
            return const((c > 0) - (c < 0))
    elif op == "atan2":
        cb = cval(args[1])
        if c == 0 and cb is not None and cb > 0:
            return ZERO
        if c == 0 and cb is not None and cb < 0:
            return PI
    elif op == "mod":
        cb = cval(args[1])
        if c is not None and cb:
            return const(c - cb * math.floor(c / cb))
    if op in ("sin", "tan", "asin", "atan") and a.op == "neg":
        return neg(fn(op, a.args[0]))
    if op == "cos" and a.op == "neg":
        return fn("cos", a.args[0])
    if op in ("sin", "cos"):
        # exact multiples of pi/2
        k = _pi_multiple(a)
        if k is not None and (k * 2).denominator == 1:
            q = int(k * 2) % 4
            return const({"sin": (0, 1, 0, -1), "cos": (1, 0, -1, 0)}[op][q])
    return _mk(op, *args)


def _pi_multiple(a):
    if a.op == "pi":
        return Fraction(1)
    if a.op == "const" and a.args[0] == 0:
        return Fraction(0)
    if a.op == "mul" and a.args[0].op == "const" and a.args[1].op == "pi":
        return a.args[0].args[0]
    if a.op == "mul" and a.args[1].op == "const" and a.args[0].op == "pi":
        return a.args[1].args[0]
    if a.op == "neg":
        k = _pi_multiple(a.args[0])
        return None if k is None else -k
    return None


def isint(t):
    if t.op == "const":
        return t.args[0].denominator == 1
    if t.op == "sym":
        return SYMS[t.args[0]]["integer"]
    if t.op in ("add", "mul", "neg", "abs"):
        return all(isint(a) for a in t.args)
    if t.op in ("floor", "ceil", "trunc", "round", "sign"):
        return True
    if t.op == "ite":
        return isint(t.args[1]) and isint(t.args[2])
    if t.op == "powi":
        return isint(t.args[0])
    if t.op == "mod":
        return isint(t.args[0]) and isint(t.args[1])
    return False


# ---------------------------------------------------------------- booleans
def land(a, b):
    if a.op == "false" or b.op == "false":
        return FALSE
    if a.op == "true":
        return b
    if b.op == "true":
        return a
    if a is b:
        return a
    if a is lnot(b):
        return FALSE
    if a.id > b.id:
        a, b = b, a
    return _mk("and", a, b)


def lor(a, b):
    return lnot(land(lnot(a), lnot(b)))


def lnot(a):
    if a.op == "true":
        return FALSE
    if a.op == "false":
        return TRUE
    if a.op == "not":
        return a.args[0]
    return _mk("not", a)


def lt(a, b):
    """a < b (false when either is nan)"""
    a, b = num(a), num(b)
    if a.op == "nan" or b.op == "nan":
        return FALSE
    ca, cb = cval(a), cval(b)
    if ca is not None and cb is not None:
        return TRUE if ca < cb else FALSE
    if a is b:
        return FALSE
    r = _inf_cmp(a, b)
    if r is not None:
        return TRUE if r < 0 else FALSE
    if cb is not None and cb <= 0 and a.op in ("abs", "sqrt"):
        return FALSE
    return _mk("lt", a, b)


def _pconst(t):
    return t.op in ("const", "pi", "named")


def _inf_cmp(a, b):
    """comparison outcome when infinities are against finite constants or symbols"""
    fin = lambda t: t.op in ("const", "pi", "sym", "named")
    if a.op == "inf" and (fin(b) or b.op == "ninf"):
        return 1
    if a.op == "ninf" and (fin(b) or b.op == "inf"):
        return -1
    if b.op == "inf" and fin(a):
        return -1
    if b.op == "ninf" and fin(a):
        return 1
    return None


def le(a, b):
    a, b = num(a), num(b)
    if a.op == "nan" or b.op == "nan":
        return FALSE
    ca, cb = cval(a), cval(b)
    if ca is not None and cb is not None:
        return TRUE if ca <= cb else FALSE
    if a is b and not a.mn:
        return TRUE
    r = _inf_cmp(a, b)
    if r is not None:
        return TRUE if r < 0 else FALSE
    if _total(a) and _total(b):
        return lnot(lt(b, a))
    return _mk("le", a, b)


def eqn(a, b):
    a, b = num(a), num(b)
    if a.op == "nan" or b.op == "nan":
        return FALSE
    ca, cb = cval(a), cval(b)
    if ca is not None and cb is not None:
        return TRUE if ca == cb else FALSE
    if a is b and not a.mn:
        return TRUE
    if _inf_cmp(a, b) is not None:
        return FALSE
    if a.id > b.id:
        a, b = b, a
    return _mk("eqn", a, b)


def isnan(a):
    a = num(a)
    if a.op == "nan":
        return TRUE
    if a.op in ("const", "sym", "pi", "inf", "ninf", "named"):
        return FALSE
    if a.op == "ite":
        return ite(a.args[0], isnan(a.args[1]), isnan(a.args[2]))
    if a.op == "neg":
        return isnan(a.args[0])
    if _total(a):
        return FALSE
    return _mk("isnan", a)


_tot = {}


def _total(a):
    """can the term be nan for finite inputs?"""
    r = _tot.get(a.id)
    if r is not None:
        return r
    if a.op in ("const", "sym", "pi", "named"):
        r = True
    elif a.op in ("add", "mul", "neg", "abs", "sin", "cos", "atan", "atan2", "floor", "powi", "ufn", "exp", "min2", "max2",
                  "ceil", "trunc", "round", "sign"):
        r = all(_total(x) for x in a.args if isinstance(x, Term))
    elif a.op == "div":
        r = _total(a.args[0]) and (_pconst(a.args[1]) and cval(a.args[1]) != 0)
    elif a.op == "ite":
        r = _total(a.args[1]) and _total(a.args[2])
    else:
        r = False
    _tot[a.id] = r
    return r


def isinf(a):
    a = num(a)
    if a.op in ("inf", "ninf"):
        return TRUE
    if a.op in ("const", "sym", "pi", "nan", "named"):
        return FALSE
    if a.op == "ite":
        return ite(a.args[0], isinf(a.args[1]), isinf(a.args[2]))
    if a.op == "neg":
        return isinf(a.args[0])
    if _total(a):
        return FALSE
    return _mk("isinf", a)


def ite(c, a, b):
    if c.op == "true":
        return a
    if c.op == "false":
        return b
    if a is b:
        return a
    ba, bb = isbool(a), isbool(b)
    if ba and bb:
        # boolean phi
        return lor(land(c, a), land(lnot(c), b))
    if ba:
        a = num(a)
    if bb:
        b = num(b)
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return _mk("ite", c, a, b)


def ufn(name, *args):
    """uninterpreted function of the arguments"""
    return _mk("ufn", name, *args)


def ufb(name, *args):
    return _mk("ufb", name, *args)


def inv(body, bound, r):
    """the inverse of the function  bound -> body  applied to r"""
    return _mk("inv", body, bound, r)


def substitute(t, mapping, memo=None):
    """replace sub-terms (dict Term->Term)"""
    if memo is None:
        memo = {}
    def go(t):
        r = memo.get(t.id)
        if r is not None:
            return r
        if t in mapping:
            r = mapping[t]
        elif not any(isinstance(a, Term) for a in t.args):
            r = t
        else:
            args = [go(a) if isinstance(a, Term) else a for a in t.args]
            r = rebuild(t.op, args)
        memo[t.id] = r
        return r
    return go(t)


def rebuild(op, args):
    if op == "add":
        return add(*args)
    if op == "mul":
        return mul(*args)
    if op == "div":
        return div(*args)
    if op == "neg":
        return neg(*args)
    if op == "powi":
        return powi(*args)
    if op == "ite":
        return ite(*args)
    if op == "lt":
        return lt(*args)
    if op == "le":
        return le(*args)
    if op == "eqn":
        return eqn(*args)
    if op == "and":
        return land(*args)
    if op == "not":
        return lnot(*args)
    if op == "isnan":
        return isnan(*args)
    if op == "isinf":
        return isinf(*args)
    if op in ("ufn", "ufb", "inv", "fmt", "streq", "strcat", "str"):
        return _mk(op, *args)
    if op in ("const", "sym", "bsym", "named", "pi", "nan", "inf", "ninf", "true", "false"):
        return _mk(op, *args)
    return fn(op, *args)


_names = []


def symbols(t):
    if len(_names) != len(_bits):
        _names[:] = list(_bits)
    out, m = set(), t.sm
    while m:
        low = m & -m
        out.add(_names[low.bit_length() - 1])
        m ^= low
    return out


def subterms(ts):
    seen, out = set(), []
    stack = list(ts)
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        out.append(x)
        for a in x.args:
            if isinstance(a, Term):
                stack.append(a)
    return out


def size(t):
    return len(subterms([t]))


def show(t, depth=6):
    if depth == 0:
        return "…"
    o = t.op
    if o == "const":
        f = t.args[0]
        return str(f) if f.denominator == 1 or len(str(f)) < 9 else "%g" % float(f)
    if o in ("sym", "bsym", "named"):
        return str(t.args[0])
    if not t.args:
        return o
    a = [show(x, depth - 1) if isinstance(x, Term) else str(x) for x in t.args]
    if o == "add":
        return "(%s + %s)" % tuple(a)
    if o == "mul":
        return "%s*%s" % tuple(a)
    if o == "div":
        return "%s/(%s)" % tuple(a)
    if o == "neg":
        return "-%s" % a[0]
    if o == "powi":
        return "%s**%s" % tuple(a)
    if o == "lt":
        return "(%s < %s)" % tuple(a)
    if o == "le":
        return "(%s <= %s)" % tuple(a)
    if o == "eqn":
        return "(%s == %s)" % tuple(a)
    if o == "ite":
        return "if(%s; %s; %s)" % tuple(a)
    return "%s(%s)" % (o, ", ".join(a))


# ------------------------------------------------------------------ evaluation
class Ambiguous(Exception):
    pass


U = 2.3e-16
_NAN = (math.nan, 0.0)


def _ulp(v):
    return abs(v) * U + 5e-324


def _add(x, y):
    a, ea = x
    b, eb = y
    s = a + b
    if not math.isfinite(s):
        return (s, 0.0)
    bb = s - a
    err = (a - (s - bb)) + (b - bb)
    return (s, ea + eb + abs(err))


def _mul(x, y):
    a, ea = x
    b, eb = y
    p = a * b
    if not math.isfinite(p):
        return (p, 0.0)
    e = abs(a) * eb + abs(b) * ea + ea * eb
    if a not in (0.0, 1.0, -1.0, 2.0, 0.5) and b not in (0.0, 1.0, -1.0, 2.0, 0.5):
        e += _ulp(p)
    return (p, e)


def _div(x, y):
    a, ea = x
    b, eb = y
    if math.isnan(a) or math.isnan(b):
        return _NAN
    if b == 0.0:
        if eb > 0:
            raise Ambiguous()
        if a == 0.0:
            if ea > 0:
                raise Ambiguous()
            return _NAN
        return (math.copysign(math.inf, a) * math.copysign(1.0, b), 0.0)
    if eb >= abs(b) * 1e-3:
        raise Ambiguous()
    try:
        q = a / b
    except OverflowError:
        raise Ambiguous()
    if not math.isfinite(q):
        return (q, 0.0)
    e = (ea + abs(q) * eb) / (abs(b) - eb)
    return (q, e + _ulp(q))


_fv = {}


def _fval(c):
    r = _fv.get(c)
    if r is None:
        r = _fv[c] = _fval_(c)
    return r


def _fval_(c):
    try:
        f = float(c)
    except OverflowError:
        raise Ambiguous()
    return (f, 0.0 if Fraction(f) == c else _ulp(f))


def ufval(name, vals):
    rng = random.Random("uf:" + name + ":%d" % len(vals))
    s, e = rng.uniform(-1, 1), 0.0
    for v, ev in vals:
        c1, d1, c2 = rng.uniform(0.2, 0.9), rng.uniform(0, 6), rng.uniform(0.3, 0.8)
        if not math.isfinite(v):
            return _NAN
        w = math.atan(v * 0.1) * 10  # bounded and smooth
        s += math.sin(c1 * w + d1) * 1.3 + c2 * 0.4 * w
        e += (1.3 * c1 + c2 * 0.4) * (ev + _ulp(v)) + U * 8
    # couple arguments
    if len(vals) > 1:
        p = 0.0
        for i, (v, ev) in enumerate(vals):
            p += math.atan(v * 0.1) * (i + 1) * rng.uniform(0.5, 1.5)
            e += ev * (i + 1) * 0.2
        s += math.sin(p)
        e += U * 16
    return (s, e)


class Point:
    """one assignment of the symbols (lazily completed), with memoised evaluation"""

    def __init__(self, seed, overrides=None, base=None, special=0.0):
        self.seed = seed
        self.over = dict(overrides or {})
        self.base = base
        self.memo = {}
        self.special = special
        self.flip = next(iter(self.over.items())) if len(self.over) == 1 else None
        self.mask = 0
        for n in self.over:
            self.mask |= symbit(n)

    def value(self, name):
        if name in self.over:
            return self.over[name]
        if self.base is not None:
            v = self.base.value(name)
            self.over[name] = v
            return v
        info = SYMS[name]
        rng = random.Random("%s|%s" % (self.seed, name))
        if info.get("bool"):
            v = rng.random() < 0.5
        elif info["gen"] is not None:
            v = info["gen"](rng)
        elif info["specials"] and rng.random() < self.special:
            v = rng.choice(info["specials"])
        elif info["integer"]:
            v = float(rng.randint(int(info["lo"]), int(info["hi"])))
        else:
            lo, hi = info["lo"], info["hi"]
            v = rng.uniform(lo, hi)
            # short binary expansions keep sums and products nearly exact
            if abs(hi - lo) > 1e-6:
                q = 2.0 ** -20
                v = round(v / q) * q
        self.over[name] = v
        return v

    def ev(self, t):
        if self.base is not None and not (t.sm & self.mask):
            return self.base.ev(t)
        r = self.memo.get(t.id)
        if r is None:
            try:
                r = self._ev(t)
            except Ambiguous:
                r = Ambiguous
            except (OverflowError, ZeroDivisionError, ValueError):
                r = Ambiguous
            self.memo[t.id] = r
        if r is Ambiguous:
            raise Ambiguous()
        return r

    def _ev(self, t):
        o = t.op
        ar = t.args
        if o == "const":
            return _fval(ar[0])
        if o == "sym" or o == "bsym":
            v = self.value(ar[0])
            return (v, 0.0) if o == "sym" else v
        if o == "named":
            return (ar[1], 0.0)
        if o == "add":
            return _add(self.ev(ar[0]), self.ev(ar[1]))
        if o == "mul":
            return _mul(self.ev(ar[0]), self.ev(ar[1]))
        if o == "neg":
            v, e = self.ev(ar[0])
            return (-v, e)
        if o == "div":
            return _div(self.ev(ar[0]), self.ev(ar[1]))
        if o == "ite":
            c = self.evb(ar[0])
            return self.ev(ar[1]) if c else self.ev(ar[2])
        if o in BOOL_OPS:
            return self.evb(t)
        if o == "nan":
            return _NAN
        if o == "inf":
            return (math.inf, 0.0)
        if o == "ninf":
            return (-math.inf, 0.0)
        if o == "pi":
            return (math.pi, U * 4)
        if o == "powi":
            v, e = self.ev(ar[0])
            n = ar[1]
            if math.isnan(v):
                return _NAN
            r = v ** n
            if not math.isfinite(r):
                return (r, 0.0)
            ex = 0.0 if v in (0.0, 1.0, -1.0) else _ulp(r) * n
            return (r, e * n * (abs(v) + e) ** (n - 1) + ex)
        if o == "ufn":
            return ufval(ar[0], [self.ev(a) if not isbool(a) else (float(self.evb(a)), 0.0) for a in ar[1:]])
        if o == "inv":
            return self._inv(ar[0], ar[1], self.ev(ar[2]))
        if o == "str":
            return ar[0]
        if o == "fmt":
            vals = []
            for a in ar[1:]:
                if isinstance(a, Term) and isstring(a):
                    vals.append(self.ev(a))
                elif isinstance(a, Term):
                    v, e = self.ev(a)
                    # formatted output must not hinge on rounding
                    spec = [s for s in _specs(ar[0])]
                    s = spec[len(vals)] if len(vals) < len(spec) else "%s"
                    if s.endswith("d"):
                        if not math.isfinite(v) or e > 0 and int(v - 3 * e) != int(v + 3 * e):
                            raise Ambiguous()
                        v = int(v)
                    elif e > 0:
                        if s % (v + 3 * e) != s % (v - 3 * e):
                            raise Ambiguous()
                    vals.append(v)
                else:
                    vals.append(a)
            return ar[0] % tuple(vals)
        if o == "strcat":
            return "".join(self.ev(a) for a in ar)
        # elementary functions
        vals = [self.ev(a) for a in ar if isinstance(a, Term)]
        if any(math.isnan(v) for v, e in vals):
            return _NAN
        v, e = vals[0]
        if o == "sqrt":
            if v < 0:
                if v >= -4 * e - 0.0 and e > 0:
                    return (0.0, math.sqrt(4 * e))
                return _NAN
            if math.isinf(v):
                return (v, 0.0)
            r = math.sqrt(v)
            d = e / r if r > 0 and e < v * 0.5 else math.sqrt(e)
            ex = 0.0 if r * r == v and r == int(r) else _ulp(r)
            return (r, d + ex)
        if o == "abs":
            return (abs(v), e)
        if o == "f32":
            if not math.isfinite(v):
                return (v, 0.0)
            r = struct.unpack("f", struct.pack("f", v))[0]
            return (r, e + abs(r - v) * 0 + (abs(v) * 1.2e-7 if e > 0 else 0.0))
        if o in ("sin", "cos"):
            if math.isinf(v):
                return _NAN
            r = math.sin(v) if o == "sin" else math.cos(v)
            if v == 0 and e == 0:
                return (r, 0.0)
            return (r, e + U * 2 + abs(v) * 0)
        if o == "tan":
            if math.isinf(v):
                return _NAN
            r = math.tan(v)
            d = (1 + r * r) * e
            if d > 1e-3 * (1 + abs(r)):
                raise Ambiguous()
            return (r, 2 * d + 2 * _ulp(r))
        if o == "atan":
            r = math.atan(v)
            return (r, e / (1 + v * v) * 2 + 2 * _ulp(r)) if math.isfinite(v) else (r, U)
        if o == "atan2":
            w, ew = vals[1]
            r = math.atan2(v, w)
            h = math.hypot(v, w)
            if h == 0:
                if e > 0 or ew > 0:
                    raise Ambiguous()
                return (0.0, 0.0)
            if math.isinf(h):
                return (r, U * 4)
            if e + ew > 0.01 * h:
                raise Ambiguous()
            if w < 0 and abs(v) <= 4 * e and e > 0:
                raise Ambiguous()      # on the branch cut
            if w < 0 and v == 0:
                r = math.pi
            return (r, 2 * (e + ew) / h + 2 * _ulp(r) + (0 if r == 0 else U))
        if o in ("asin", "acos"):
            if abs(v) > 1:
                if abs(v) > 1 + 8 * e or e == 0:
                    return _NAN
                raise Ambiguous()
            r = math.asin(v) if o == "asin" else math.acos(v)
            s = math.sqrt(max(0.0, 1 - v * v))
            d = e / s if s > 0 and e < s * s * 0.1 else math.sqrt(2 * e)
            return (r, 2 * d + 2 * _ulp(r) + U)
        if o == "exp":
            r = math.exp(v) if v > -745 else 0.0
            return (r, r * e * 2 + _ulp(r))
        if o == "log":
            if v < 0:
                return _NAN
            if v == 0:
                if e:
                    raise Ambiguous()
                return (-math.inf, 0.0)
            if e > v * 0.1:
                raise Ambiguous()
            r = math.log(v) if math.isfinite(v) else v
            return (r, 2 * e / v + _ulp(r) + U)
        if o in ("floor", "ceil", "trunc", "round"):
            f = {"floor": math.floor, "ceil": math.ceil, "trunc": math.trunc, "round": round}[o]
            if not math.isfinite(v):
                return (v, 0.0)
            if f(v - 3 * e) != f(v + 3 * e):
                raise Ambiguous()
            return (float(f(v)), 0.0)
        if o == "sign":
            if e > 0 and abs(v) <= 3 * e:
                raise Ambiguous()
            return (float((v > 0) - (v < 0)), 0.0)
        if o == "mod":
            w, ew = vals[1]
            if w == 0 or math.isinf(v):
                return _NAN
            q = v / w
            if e > 0 and math.floor((v - 3 * e) / w) != math.floor((v + 3 * e) / w):
                raise Ambiguous()
            r = v - math.floor(q) * w if abs(q) < 2 ** 50 else math.fmod(v, w)
            r2 = v % w
            if abs(r - r2) > 1e-6 * abs(w):
                raise Ambiguous()
            return (r2, e + abs(math.floor(q)) * ew + _ulp(v))
        if o == "pow":
            w, ew = vals[1]
            if v < 0 and w != int(w):
                return _NAN
            if v == 0 and w < 0:
                return (math.inf, 0.0)
            r = v ** w
            if isinstance(r, complex):
                return _NAN
            if not math.isfinite(r):
                return (r, 0.0)
            rel = (abs(w) * e / abs(v) if v else 0.0) + (abs(math.log(abs(v))) * ew if v else 0.0)
            return (r, abs(r) * rel * 2 + 2 * _ulp(r))
        if o in ("min2", "max2"):
            w, ew = vals[1]
            r = min(v, w) if o == "min2" else max(v, w)
            return (r, e if r == v else ew)
        if o == "tsample":
            # a truncated-normal draw: u in (0,1), bounds a, b
            u = v
            (a, ea), (b, eb) = vals[1], vals[2]
            z = math.tan((u - 0.5) * 3.0)
            if a > b:
                return _NAN
            if z < a:
                z = a + (min(b, a + 1) - a) * u * 0.5
            elif z > b:
                z = b - (b - max(a, b - 1)) * u * 0.5
            return (z, ea + eb + 4 * _ulp(z))
        raise NotImplementedError(o)

    def _inv(self, body, bound, r):
        """solve body(s) = r on [0, 2] for an increasing function"""
        v, e = r
        if math.isnan(v):
            return _NAN
        def f(s):
            p = Point(self.seed, {bound.args[0]: s}, base=self)
            return p.ev(body)
        lo, hi = 0.0, 2.0
        flo, fhi = f(lo)[0], f(hi)[0]
        if not (flo <= v <= fhi):
            raise Ambiguous()
        # monotonicity (otherwise the inverse is not a function)
        prev = flo
        for i in range(1, 21):
            cur = f(i * 0.1)[0]
            if cur <= prev:
                raise Ambiguous()
            prev = cur
        if v == flo:
            return (lo, 0.0)
        ga, gb = flo - v, fhi - v
        side = 0
        for _ in range(100):
            if hi - lo < 1e-15 * max(1.0, hi):
                break
            mid = hi - gb * (hi - lo) / (gb - ga)
            if not (lo < mid < hi):
                mid = 0.5 * (lo + hi)
            g = f(mid)[0] - v
            if g == 0:
                lo = hi = mid
                break
            if g < 0:
                lo, ga = mid, g
                if side == -1:
                    gb *= 0.5
                side = -1
            else:
                hi, gb = mid, g
                if side == 1:
                    ga *= 0.5
                side = 1
            if abs(g) < 1e-17:
                lo = hi = mid
                break
        s = 0.5 * (lo + hi)
        h = 1e-6
        slope = (f(min(2.0, s + h))[0] - f(max(0.0, s - h))[0]) / (2 * h)
        if slope < 0.05:
            raise Ambiguous()
        fs = f(s)
        return (s, (e + fs[1] + abs(fs[0] - v)) / slope * 4 + 1e-15)

    def evb(self, t):
        if self.base is not None and not (t.sm & self.mask):
            return self.base.evb(t)
        r = self.memo.get(t.id)
        if r is Ambiguous:
            raise Ambiguous()
        if r is not None:
            return r
        try:
            r = self._evb(t)
        except Ambiguous:
            self.memo[t.id] = Ambiguous
            raise
        self.memo[t.id] = r
        return r

    def _evb(self, t):
        o = t.op
        if o == "true":
            return True
        if o == "false":
            return False
        if o == "bsym":
            return self.value(t.args[0])
        if o == "not":
            return not self.evb(t.args[0])
        if o == "and":
            amb = False
            for a in t.args:
                try:
                    if not self.evb(a):
                        return False
                except Ambiguous:
                    amb = True
            if amb:
                raise Ambiguous()
            return True
        if o == "ite":
            return self.evb(t.args[1] if self.evb(t.args[0]) else t.args[2])
        if o == "streq":
            return self.ev(t.args[0]) == self.ev(t.args[1])
        if o == "isnan":
            return math.isnan(self.ev(t.args[0])[0])
        if o == "isinf":
            return math.isinf(self.ev(t.args[0])[0])
        if o == "ufb":
            v, e = ufval(t.args[0], [self.ev(a) for a in t.args[1:]])
            if abs(v) < 1e-3:
                raise Ambiguous()
            return v > 0
        a, ea = self.ev(t.args[0])
        b, eb = self.ev(t.args[1])
        if math.isnan(a) or math.isnan(b):
            return False
        if a == b and (math.isinf(a)):
            return o != "lt"
        d = a - b
        tol = 3 * (ea + eb)
        if tol > 0 and abs(d) <= tol:
            raise Ambiguous()
        if o == "lt":
            return d < 0
        if o == "le":
            return d <= 0
        if o == "eqn":
            return d == 0
        raise NotImplementedError(o)


def isstring(t):
    return t.op in ("str", "fmt", "strcat") or t.op == "ite" and isstring(t.args[1])


def _specs(fmt):
    import re
    return re.findall(r"%[-+ 0-9.]*[sdfgeri]", fmt)


_pool = []
_seed = ""


def seed(n):
    """choose the family of evaluation points"""
    global _seed
    _seed = "" if n == 1 else "s%s." % n
    del _pool[:]
    _solved.clear()
    _solved_pts.clear()


def pool(n):
    while len(_pool) < n:
        i = len(_pool)
        _pool.append(Point("%sp%d" % (_seed, i), special=0.0 if i % 3 else 0.35))
    return _pool[:n]


def differs(p, a, b, rel=1e-8):
    """True (certified different) / False / raises Ambiguous"""
    if isbool(a) and isbool(b):
        return p.evb(a) != p.evb(b)
    a, b = (num(a) if isbool(a) else a), (num(b) if isbool(b) else b)
    va, vb = p.ev(a), p.ev(b)
    if isinstance(va, str) or isinstance(vb, str):
        return va != vb
    x, ex = va
    y, ey = vb
    if math.isnan(x) or math.isnan(y):
        return math.isnan(x) != math.isnan(y)
    if math.isinf(x) or math.isinf(y):
        return x != y
    return abs(x - y) > 8 * (ex + ey) + rel * max(abs(x), abs(y)) + 1e-11


def _atomic_conds(ts):
    out = []
    for s in subterms(ts):
        if s.op in ("lt", "le", "eqn", "isnan", "isinf", "bsym", "ufb", "streq"):
            out.append(s)
        elif s.op in ("abs", "sign"):
            out.append(lt(s.args[0], ZERO))
    return [c for c in out if c.op not in ("true", "false")]


def guard_points(ts, assume, npool=24, limit=60):
    """points that flip comparisons which the random pool leaves one-sided"""
    pts = []
    conds = _atomic_conds(ts)
    if not conds:
        return pts
    base_pts = [p for p in pool(npool) if holds(p, assume)]
    if not base_pts:
        return pts
    need = []
    for c in conds[:limit]:
        seen = set()
        for p in base_pts:
            try:
                seen.add(p.evb(c))
            except Ambiguous:
                pass
        for want in (True, False):
            if want not in seen:
                need.append((c, want))
    for c, want in need:
        if len(subterms([c])) > 5000:       # too large to search
            continue
        for p in base_pts[:4]:
            q = _solve_cond(p, c, want)
            if q is not None and holds(q, assume):
                pts.append(q)
                break
    return pts


def holds(p, assume):
    for a in assume:
        try:
            if not p.evb(a):
                return False
        except Ambiguous:
            return False
    return True


_solved = {}
_solved_pts = {}


def _solve_cond(p, c, want):
    """_solve_cond_ with memory: many obligations share their comparisons"""
    k = (p.seed, c.id, want)
    if p.base is not None or p not in _pool:
        return _solve_cond_(p, c, want)
    if k in _solved:
        o = _solved[k]
        if o is None:
            return None
        q = _solved_pts.get(k)
        if q is None:
            q = _solved_pts[k] = Point(p.seed, dict([o]), base=p)
        return q
    q = _solve_cond_(p, c, want)
    _solved[k] = None if q is None else q.flip
    if q is not None:
        if len(_solved_pts) > 400:
            _solved_pts.clear()
        _solved_pts[k] = q
    return q


def _solve_cond_(p, c, want):
    """change one symbol of point p so that condition c takes value want"""
    names = sorted(n for n in symbols(c))
    if c.op == "bsym":
        return Point(p.seed, {c.args[0]: want}, base=p)
    # a symbol compared with a constant directly
    rng = random.Random(c.id)
    most = max(4, 600000 // (20 * len(subterms([c]))))
    if len(names) > most:               # large comparisons: not every symbol is tried
        names = sorted(rng.sample(names, most))
    for n in names:
        info = SYMS[n]
        if info.get("bool"):
            for v in (True, False):
                q = Point(p.seed, {n: v}, base=p)
                try:
                    if q.evb(c) == want:
                        return q
                except Ambiguous:
                    pass
            continue
        if info["gen"] is not None:
            cand = [info["gen"](rng) for _ in range(12)]
        else:
            lo, hi = info["lo"], info["hi"]
            if info["integer"]:
                span = int(hi) - int(lo)
                cand = [float(int(lo) + i) for i in range(span + 1)] if span <= 60 else \
                    [float(rng.randint(int(lo), int(hi))) for _ in range(40)]
            else:
                cand = [lo + (hi - lo) * (i + 0.5) / 16 for i in range(16)] + [lo, hi]
            cand += list(info["specials"])
        vals = []
        for v in cand:
            q = Point(p.seed, {n: v}, base=p)
            try:
                if q.evb(c) == want:
                    return q
            except Ambiguous:
                pass
            if c.op in ("lt", "le", "eqn"):
                try:
                    d = q.ev(c.args[0])[0] - q.ev(c.args[1])[0]
                    vals.append((v, d))
                except Ambiguous:
                    pass
        if c.op == "eqn" and want and not info["integer"]:
            # secant to the zero of the difference
            vals.sort()
            for (v0, d0), (v1, d1) in zip(vals, vals[1:]):
                if math.isfinite(d0) and math.isfinite(d1) and d0 * d1 < 0:
                    z = _bisect(p, n, c, v0, v1)
                    if z is not None:
                        q = Point(p.seed, {n: z}, base=p)
                        try:
                            if q.evb(c):
                                return q
                        except Ambiguous:
                            pass
        elif c.op in ("lt", "le") and vals and info["gen"] is None and not info["integer"]:
            # narrow windows: descend on |difference|
            best = min(vals, key=lambda x: abs(x[1]))
            step = (info["hi"] - info["lo"]) / 32
            v = best[0]
            for _ in range(60):
                improved = False
                for w in (v - step, v + step):
                    if not (info["lo"] <= w <= info["hi"]):
                        continue
                    q = Point(p.seed, {n: w}, base=p)
                    try:
                        if q.evb(c) == want:
                            return q
                        d = q.ev(c.args[0])[0] - q.ev(c.args[1])[0]
                    except Ambiguous:
                        continue
                    if abs(d) < abs(best[1]):
                        best = (w, d)
                        v = w
                        improved = True
                        break
                if not improved:
                    step /= 2
                    if step < 1e-14:
                        break
    return None


def _bisect(p, n, c, lo, hi):
    def f(v):
        q = Point(p.seed, {n: v}, base=p)
        return q.ev(c.args[0])[0] - q.ev(c.args[1])[0]
    try:
        flo = f(lo)
        for _ in range(100):
            mid = 0.5 * (lo + hi)
            fm = f(mid)
            if fm == 0:
                return mid
            if (fm < 0) == (flo < 0):
                lo = mid
            else:
                hi = mid
    except Ambiguous:
        return None
    r = round(lo, 9)
    try:
        if f(r) == 0:
            return r
    except Ambiguous:
        pass
    return lo


def refute(a, b, assume=(), npoints=24, directed=True, rel=1e-8):
    """returns a Point at which a and b certainly differ, or None; second value: number of usable points"""
    if a is b:
        return None, 0
    used = 0
    tried = 0
    for p in pool(npoints * 6):
        if used >= npoints:
            break
        tried += 1
        if assume and not holds(p, assume):
            continue
        try:
            if differs(p, a, b, rel):
                return p, used
            used += 1
        except Ambiguous:
            pass
    if directed:
        for p in guard_points([a, b], assume):
            try:
                if differs(p, a, b, rel):
                    return p, used
                used += 1
            except Ambiguous:
                pass
    return None, used


def witness(p, terms):
    """printable assignment restricted to the symbols of the terms"""
    names = set()
    for t in terms:
        names |= symbols(t)
    out = {}
    for n in sorted(names):
        if n in p.over or p.base is not None or True:
            v = p.value(n)
            out[n] = v if isinstance(v, bool) else round(v, 9)
    return out
