"""Abstract semantics of the numeric library operations the package builds on."""
import math

from . import terms as T
from .terms import Term, TRUE, FALSE, NAN, INF, const
from .values import *
from .values import UNBOUND

PI = T.PI


def _core():
    from . import interp
    return interp


CONSTANTS = {
    "numpy.pi": Sc(T.PI, "float"), "math.pi": Sc(T.PI, "float"), "numpy.nan": math.nan, "numpy.NaN": math.nan,
    "numpy.inf": math.inf, "numpy.Inf": math.inf, "math.inf": math.inf, "math.nan": math.nan, "numpy.newaxis": None,
    "numpy.e": math.e, "math.e": math.e, "math.tau": Sc(T.mul(T.TWO, T.PI), "float"), "numpy.NAN": math.nan,
    "numpy.NINF": -math.inf, "numpy.PINF": math.inf, "sys.maxsize": 2 ** 63 - 1,
}

ORDER = ["bool", "uint8", "int", "float32", "float", "object"]


def promote(a, b):
    return ORDER[max(ORDER.index(a), ORDER.index(b))]


def sctype(dt):
    return {"float": "npfloat", "float32": "npfloat", "int": "npint", "uint8": "npint", "bool": "npbool"}[dt]


def dt_of_ty(ty):
    ty = ty.replace("np", "")
    return ty if ty in ("float", "int", "bool") else "float"


def size(shape):
    n = 1
    for s in shape:
        n *= s
    return n


def elems(I, a):
    c = I.st.cells[a.buf]
    if isinstance(c, Top):
        u = _core().unkterm
        return [u("array") if a.dtype != "bool" else _core().unkbool("array") for _ in a.idx]
    return [c[i] for i in a.idx]


def new(I, es, shape, dtype):
    return Arr(I.alloc(tuple(es)), tuple(range(len(es))), tuple(shape), dtype)


def wrap(I, es, shape, dtype):
    """ufunc result: 0-d becomes a scalar"""
    if tuple(shape) == ():
        if dtype == "object":
            return es[0]
        return Sc(es[0], sctype(dtype))
    return new(I, es, shape, dtype)


def cast_term(t, dt):
    if dt == "bool":
        return t if T.isbool(t) else T.lnot(T.eqn(t, T.ZERO))
    if T.isbool(t):
        t = T.num(t)
    if dt in ("int", "uint8"):
        return T.fn("trunc", t)
    if dt == "float32":
        return t if T.isint(t) else T.fn("f32", t)
    return t


def parse_dtype(d):
    if d is None:
        return None
    if isinstance(d, Ext):
        p = d.path.split(".")[-1]
    elif isinstance(d, str):
        p = d
    elif isinstance(d, DType):
        return d.dt
    else:
        raise Unsupported("dtype %r" % (d,))
    if p in ("float", "float64", "double", "float_", "f8", "longdouble", "d"):
        return "float"
    if p in ("float32", "single", "f4", "float16", "half", "f"):
        return "float32"
    if p in ("int", "int64", "int32", "int_", "intp", "i8", "i4", "int16", "integer", "long"):
        return "int"
    if p in ("uint8", "uint16", "uint32", "uint64", "int8", "uint", "u1"):
        return "uint8"
    if p in ("bool", "bool_"):
        return "bool"
    if p in ("object", "object_", "O"):
        return "object"
    raise Unsupported("dtype %s" % p)


class DType(Model):
    def __init__(self, dt):
        self.dt = dt

    def getattr(self, I, name):
        if name == "kind":
            return {"float": "f", "float32": "f", "int": "i", "uint8": "u", "bool": "b", "object": "O"}[self.dt]
        if name == "name":
            return {"float": "float64", "int": "int64"}.get(self.dt, self.dt)
        if name == "type":
            return Ext("numpy." + {"float": "float64", "int": "int64"}.get(self.dt, self.dt))
        if name == "itemsize":
            return {"float": 8, "int": 8, "float32": 4, "uint8": 1, "bool": 1, "object": 8}[self.dt]
        return Top("dtype." + name)

    def compare(self, I, name, o):
        try:
            r = parse_dtype(o) == self.dt
        except Unsupported:
            return Top("dtype compare")
        return r if name == "Eq" else not r


# ---------------------------------------------------------------- conversion
def asarr(I, v, dtype=None, copy=False):
    """Arr or Top"""
    C = _core()
    v = I.clean(v)
    if isinstance(v, Phi):
        v = I.flat(v)
    if isinstance(v, Arr):
        if dtype is not None and dtype != v.dtype:
            return astype(I, v, dtype)
        if copy:
            return new(I, elems(I, v), v.shape, v.dtype)
        return v
    if isinstance(v, (Top, Phi, MaskSel)):
        return Top("array of %s" % type(v).__name__)
    if C.isnum(v):
        dt = dt_of_ty(C.tyof(v))
        t = C.term(v)
        if dtype is not None and dtype != "object":
            return new(I, [cast_term(t, dtype)], (), dtype)
        if dtype == "object":
            return new(I, [v], (), "object")
        return new(I, [t], (), dt)
    if v is None:
        if dtype == "float":
            return new(I, [NAN], (), "float")
        return new(I, [None], (), "object")
    if isinstance(v, (tuple, C.Iter, C.KeysView)) or isinstance(v, Ref) and v.kind in ("list",):
        if isinstance(v, C.Iter) or isinstance(v, C.KeysView):
            return new(I, [v], (), "object")
        items = v if isinstance(v, tuple) else I.st.cells[v.id]
        if isinstance(items, Top):
            return items
        items = [I.clean(x) for x in items]
        if dtype == "object":
            return obj_array(I, items)
        if len(items) == 0:
            return new(I, [], (0,), dtype or "float")
        subs = []
        for x in items:
            if isinstance(x, (str, StrT)) and dtype is None:
                return new(I, items, (len(items),), "object")
            s = asarr(I, x)
            if isinstance(s, Top):
                return s
            subs.append(s)
        sh = subs[0].shape
        for s in subs:
            if s.shape != sh:
                I.raise_("ValueError", "setting an array element with a sequence: inhomogeneous shape")
        dt = subs[0].dtype
        for s in subs[1:]:
            dt = promote(dt, s.dtype)
        es = []
        if dtype is not None and dt == "object":
            for s in subs:
                for e in elems(I, s):
                    if isinstance(e, Term):
                        es.append(cast_term(e, dtype))
                    elif e is None:
                        if dtype == "float":
                            es.append(NAN)
                        else:
                            I.raise_("TypeError", "int() argument must be a number, not NoneType")
                    elif C.isnum(e):
                        es.append(cast_term(C.term(e), dtype))
                    else:
                        return Top("array of objects")
            return new(I, es, (len(subs),) + sh, dtype)
        tgt = dtype or dt
        for s in subs:
            for e in elems(I, s):
                if tgt == "object":
                    es.append(e)
                elif s.dtype != tgt:
                    es.append(cast_term(e, tgt))
                else:
                    es.append(e)
        return new(I, es, (len(subs),) + sh, tgt)
    if isinstance(v, Ref) and v.kind == "obj":
        m = I.class_lookup(v.cls, "__array__")
        if m is not None:
            return asarr(I, I.call(Bound(m, v), [], {}), dtype)
        ln = I.class_lookup(v.cls, "__len__")
        if ln is not None:
            return asarr(I, tuple(I.iterate(v)), dtype)
        return new(I, [v], (), "object")
    if isinstance(v, (str, StrT)):
        if dtype == "float" and isinstance(v, str):
            try:
                return new(I, [const(float(v))], (), "float")
            except ValueError as e:
                I.raise_("ValueError", str(e))
        return new(I, [v], (), "object")
    if isinstance(v, Model) and hasattr(v, "asarray"):
        return asarr(I, v.asarray(I), dtype)
    if isinstance(v, range):
        return asarr(I, tuple(v), dtype)
    return Top("array of %s" % type(v).__name__)


def obj_array(I, items):
    C = _core()
    shapes = []
    for x in items:
        if isinstance(x, Arr) and x.shape != ():
            shapes.append(x.shape)
        elif isinstance(x, (tuple,)) or isinstance(x, Ref) and x.kind == "list":
            a = asarr(I, x)
            shapes.append(a.shape if isinstance(a, Arr) else None)
        else:
            shapes.append(())
    if len(set(shapes)) == 1 and shapes[0] not in ((), None):
        es = []
        for x in items:
            a = asarr(I, x)
            es += [e if a.dtype == "object" else C.mkscalar(e, dt_of_ty(sctype(a.dtype))) for e in elems(I, a)]
        return new(I, es, (len(items),) + shapes[0], "object")
    es = []
    for x in items:
        if isinstance(x, Arr) and x.shape == () and x.dtype != "object":
            x = C.mkscalar(elems(I, x)[0], dt_of_ty(sctype(x.dtype)))
        es.append(x)
    return new(I, es, (len(items),), "object")


def astype(I, a, dt):
    C = _core()
    if a.dtype == dt:
        return new(I, elems(I, a), a.shape, dt)
    if dt == "object":
        return new(I, [C.mkscalar(e, dt_of_ty(sctype(a.dtype))) for e in elems(I, a)], a.shape, dt)
    es = []
    for e in elems(I, a):
        if not isinstance(e, Term):
            if e is None and dt == "float":
                es.append(NAN)
                continue
            if not C.isnum(e):
                return Top("astype of objects")
            e = C.term(e)
        es.append(cast_term(e, dt))
    return new(I, es, a.shape, dt)


# ---------------------------------------------------------------- broadcasting
def bshape(I, *shapes):
    n = max(len(s) for s in shapes)
    out = []
    for k in range(n):
        d = 1
        for s in shapes:
            j = k - (n - len(s))
            if j < 0:
                continue
            if s[j] != 1:
                if d != 1 and d != s[j]:
                    I.raise_("ValueError", "operands could not be broadcast together with shapes %s" %
                             " ".join(str(x) for x in shapes))
                d = s[j]
        out.append(d)
    return tuple(out)


def bidx(shape, out):
    """flat indices of an array of given shape broadcast to out"""
    if shape == out:
        return list(range(size(shape)))
    strides = []
    acc = 1
    for s in reversed(shape):
        strides.append(acc)
        acc *= s
    strides.reverse()
    pad = len(out) - len(shape)
    st = [0] * pad + [strides[k] if shape[k] != 1 else 0 for k in range(len(shape))]
    idx = [0]
    for d, s in zip(out, st):
        idx = [i + k * s for i in idx for k in range(d)]
    return idx


def bcast(I, arrs):
    sh = bshape(I, *[a.shape for a in arrs])
    res = []
    for a in arrs:
        e = elems(I, a)
        res.append([e[i] for i in bidx(a.shape, sh)])
    return res, sh


# ---------------------------------------------------------------- scalar operations
def scalar_op(name, a, b):
    if name == "Add":
        return T.add(a, b)
    if name == "Sub":
        return T.sub(a, b)
    if name == "Mult":
        return T.mul(a, b)
    if name == "Div":
        return T.div(a, b)
    if name == "FloorDiv":
        return T.fn("floor", T.div(a, b))
    if name == "Mod":
        return T.fn("mod", a, b)
    if name == "Pow":
        return power(a, b)
    return None


def power(a, b):
    c = T.cval(b)
    if c is not None:
        if c.denominator == 1 and abs(c) <= 64:
            return T.powi(a, int(c))
        if c == const(0.5).args[0]:
            return T.fn("sqrt", a)
        if c == -const(0.5).args[0]:
            return T.div(T.ONE, T.fn("sqrt", a))
    return T.fn("pow", a, b)


def cmp_terms(name, a, b):
    if T.isbool(a) and T.isbool(b):
        if name == "Eq":
            return T.lor(T.land(a, b), T.land(T.lnot(a), T.lnot(b)))
        if name == "NotEq":
            return T.lnot(T.lor(T.land(a, b), T.land(T.lnot(a), T.lnot(b))))
    if name == "Eq":
        return T.eqn(a, b)
    if name == "NotEq":
        return T.lnot(T.eqn(a, b))
    if name == "Lt":
        return T.lt(a, b)
    if name == "Gt":
        return T.lt(b, a)
    if name == "LtE":
        return T.le(a, b)
    return T.le(b, a)


def result_dtype(I, a, b, va, vb):
    """NEP 50: python scalars are weak"""
    C = _core()
    weak = lambda v: C.isnum(v) and not (isinstance(v, Sc) and v.ty.startswith("np"))
    kind = {"bool": 0, "uint8": 1, "int": 1, "float32": 2, "float": 2, "object": 3}
    if weak(va) and not weak(vb):
        return b.dtype if kind[a.dtype] <= kind[b.dtype] else promote(a.dtype, b.dtype)
    if weak(vb) and not weak(va):
        return a.dtype if kind[b.dtype] <= kind[a.dtype] else promote(a.dtype, b.dtype)
    return promote(a.dtype, b.dtype)


def binary(I, name, a, b):
    C = _core()
    if isinstance(a, MaskSel) or isinstance(b, MaskSel):
        return mask_binary(I, name, a, b, lambda x, y: scalar_op(name, x, y))
    if isinstance(a, (str, StrT)) or isinstance(b, (str, StrT)):
        I.raise_("TypeError", "ufunc did not contain a loop with signature matching types")
    x, y = asarr(I, a), asarr(I, b)
    if isinstance(x, Top) or isinstance(y, Top):
        return x if isinstance(x, Top) else y
    if name == "MatMult":
        return matmul(I, x, y)
    (ea, eb), sh = bcast(I, [x, y])
    if x.dtype == "object" or y.dtype == "object":
        out = []
        for p, q in zip(ea, eb):
            p = C.mkscalar(p, sctype(x.dtype)) if isinstance(p, Term) else p
            q = C.mkscalar(q, sctype(y.dtype)) if isinstance(q, Term) else q
            out.append(I._binop(_op(name), p, q))
        return wrap(I, out, sh, "object")
    dt = result_dtype(I, x, y, a, b)
    if name in ("BitAnd", "BitOr", "BitXor"):
        if x.dtype == "bool" and y.dtype == "bool":
            f = {"BitAnd": T.land, "BitOr": T.lor}.get(name, xor)
            return wrap(I, [f(p, q) for p, q in zip(ea, eb)], sh, "bool")
        if "float" in (x.dtype, y.dtype):
            I.raise_("TypeError", "ufunc 'bitwise' not supported for the input types")
        return Top("bit operation")
    if x.dtype == "bool" and y.dtype == "bool":
        if name == "Add":
            return wrap(I, [T.lor(p, q) for p, q in zip(ea, eb)], sh, "bool")
        if name == "Mult":
            return wrap(I, [T.land(p, q) for p, q in zip(ea, eb)], sh, "bool")
        if name == "Sub":
            I.raise_("TypeError", "numpy boolean subtract is not supported")
        dt = "int"
    if name == "Div" and dt in ("int", "bool", "uint8"):
        dt = "float"
    out = []
    for p, q in zip(ea, eb):
        r = scalar_op(name, T.num(p), T.num(q))
        if r is None:
            return Top("operator " + name)
        out.append(r)
    if name == "Pow" and dt in ("int", "uint8"):
        for q in eb:
            if q.op == "const" and q.args[0] < 0:
                I.raise_("ValueError", "Integers to negative integer powers are not allowed.")
    return wrap(I, out, sh, dt)


def xor(a, b):
    return T.lor(T.land(a, T.lnot(b)), T.land(T.lnot(a), b))


def _op(name):
    import ast
    return getattr(ast, name)()


def compare(I, name, a, b):
    C = _core()
    if isinstance(a, MaskSel) or isinstance(b, MaskSel):
        return mask_binary(I, name, a, b, lambda x, y: cmp_terms(name, x, y), "bool")
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        arr = a if isinstance(a, Arr) else b
        if arr.dtype != "object":
            r = FALSE if name == "Eq" else TRUE
            if name not in ("Eq", "NotEq"):
                I.raise_("TypeError", "ordering comparison with None")
            return wrap(I, [r] * len(arr.idx), arr.shape, "bool")
    x, y = asarr(I, a), asarr(I, b)
    if isinstance(x, Top) or isinstance(y, Top):
        return x if isinstance(x, Top) else y
    if name in ("Eq", "NotEq"):
        # shapes that do not broadcast: elementwise comparison fails
        pass
    (ea, eb), sh = bcast(I, [x, y])
    if x.dtype == "object" or y.dtype == "object":
        out = []
        for p, q in zip(ea, eb):
            p = C.mkscalar(p, sctype(x.dtype)) if isinstance(p, Term) else p
            q = C.mkscalar(q, sctype(y.dtype)) if isinstance(q, Term) else q
            r = I._compare(name, p, q)
            if isinstance(r, Top):
                return r
            out.append(I.truth(r))
        return wrap(I, out, sh, "bool")
    return wrap(I, [I.decide(cmp_terms(name, p, q)) for p, q in zip(ea, eb)], sh, "bool")


def mask_binary(I, name, a, b, f, dt=None):
    C = _core()
    m = a if isinstance(a, MaskSel) else b
    def side(v):
        if isinstance(v, MaskSel):
            if v.mask != m.mask or v.shape != m.shape or v.rest != m.rest:
                return None, None
            return v.elems, v.dtype
        if C.isnum(v):
            return [C.term(v)] * len(m.elems), dt_of_ty(C.tyof(v))
        x = asarr(I, v)
        if isinstance(x, Arr) and x.dtype != "object":
            k = len(m.rest)
            if len(x.shape) <= k and bshape(I, x.shape, m.rest) == m.rest:
                e = elems(I, x)
                e = [e[i] for i in bidx(x.shape, m.rest)]
                return e * len(m.mask), x.dtype
        return None, None
    ea, da = side(a)
    eb, db = side(b)
    if ea is None or eb is None:
        return Top("operation on selections")
    d = dt or promote(da, db)
    if name == "Div" and d in ("int", "bool"):
        d = "float"
    out = [f(p, q) for p, q in zip(ea, eb)]
    if any(o is None for o in out):
        return Top("operation on selections")
    return MaskSel(out, m.mask, m.shape, d, m.rest)


def unary(I, op, a):
    if isinstance(a, MaskSel):
        if op == "USub":
            return MaskSel([T.neg(e) for e in a.elems], a.mask, a.shape, a.dtype, a.rest)
        if op == "Invert" and a.dtype == "bool":
            return MaskSel([T.lnot(e) for e in a.elems], a.mask, a.shape, a.dtype, a.rest)
        return a
    es = elems(I, a)
    if a.dtype == "object":
        return Top("unary on objects")
    if op == "USub":
        if a.dtype == "bool":
            I.raise_("TypeError", "The numpy boolean negative is not supported")
        return wrap(I, [T.neg(e) for e in es], a.shape, a.dtype)
    if op == "UAdd":
        return wrap(I, es, a.shape, a.dtype)
    if op == "Invert":
        if a.dtype == "bool":
            return wrap(I, [T.lnot(e) for e in es], a.shape, "bool")
        if a.dtype.startswith("float"):
            I.raise_("TypeError", "ufunc 'invert' not supported for the input types")
    return Top("unary")


def write(I, a, vals):
    """store element terms through a view"""
    c = I.st.cells[a.buf]
    if isinstance(c, Top):
        return
    c = list(c)
    for i, v in zip(a.idx, vals):
        c[i] = v
    I.st.cells[a.buf] = tuple(c)


def inplace(I, opname, a, v):
    C = _core()
    if isinstance(v, Top):
        write(I, a, [C.unkterm("inplace") if a.dtype not in ("bool", "object") else (C.unkbool("x") if a.dtype == "bool" else Top("x")) for _ in a.idx])
        return a
    if isinstance(v, MaskSel):
        return Top("inplace selection")
    r = binary(I, opname, a, v)
    if isinstance(r, Top):
        return inplace(I, opname, a, r)
    r = asarr(I, r)
    if r.shape != a.shape:
        I.raise_("ValueError", "non-broadcastable output operand with shape %s doesn't match the broadcast shape %s" % (a.shape, r.shape))
    if r.dtype != a.dtype and a.dtype != "object":
        if promote(r.dtype, a.dtype) != a.dtype and not (r.dtype == "float" and a.dtype == "float32"):
            I.raise_("UFuncTypeError", "Cannot cast ufunc output from dtype %s to dtype %s with casting rule 'same_kind'" % (r.dtype, a.dtype))
    es = elems(I, r)
    if a.dtype == "object" and r.dtype != "object":
        es = [C.mkscalar(e, sctype(r.dtype)) for e in es]
    elif r.dtype != a.dtype:
        es = [cast_term(e, a.dtype) for e in es]
    write(I, a, es)
    return a


# ---------------------------------------------------------------- ufuncs
def d2r(t):
    return T.mul(T.div(PI, const(180)), t)


def r2d(t):
    return T.mul(T.div(const(180), PI), t)


def _log10(t):
    return T.div(T.fn("log", t), T.fn("log", const(10)))


UN = {
    "sin": lambda t: T.fn("sin", t), "cos": lambda t: T.fn("cos", t), "tan": lambda t: T.fn("tan", t),
    "arcsin": lambda t: T.fn("asin", t), "arccos": lambda t: T.fn("acos", t), "arctan": lambda t: T.fn("atan", t),
    "asin": lambda t: T.fn("asin", t), "acos": lambda t: T.fn("acos", t), "atan": lambda t: T.fn("atan", t),
    "sqrt": lambda t: T.fn("sqrt", t), "exp": lambda t: T.fn("exp", t), "log": lambda t: T.fn("log", t),
    "log10": _log10, "log2": lambda t: T.div(T.fn("log", t), T.fn("log", const(2))),
    "log1p": lambda t: T.fn("log", T.add(T.ONE, t)), "expm1": lambda t: T.sub(T.fn("exp", t), T.ONE),
    "deg2rad": d2r, "radians": d2r, "rad2deg": r2d, "degrees": r2d,
    "cbrt": lambda t: T.mul(T.fn("sign", t), T.fn("pow", T.fn("abs", t), const(const(1).args[0] / 3))),
    "sinh": lambda t: T.mul(const(0.5), T.sub(T.fn("exp", t), T.fn("exp", T.neg(t)))),
    "cosh": lambda t: T.mul(const(0.5), T.add(T.fn("exp", t), T.fn("exp", T.neg(t)))),
}
UN["tanh"] = lambda t: T.div(UN["sinh"](t), UN["cosh"](t))
UN["arcsinh"] = lambda t: T.fn("log", T.add(t, T.fn("sqrt", T.add(T.powi(t, 2), T.ONE))))
UN["atan2"] = None
UN_KEEP = {
    "abs": lambda t: T.fn("abs", t), "absolute": lambda t: T.fn("abs", t), "fabs": lambda t: T.fn("abs", t),
    "negative": T.neg, "positive": lambda t: t, "square": lambda t: T.powi(t, 2), "sign": lambda t: T.fn("sign", t),
    "floor": lambda t: T.fn("floor", t), "ceil": lambda t: T.fn("ceil", t), "trunc": lambda t: T.fn("trunc", t),
    "rint": lambda t: T.fn("round", t), "fix": lambda t: T.fn("trunc", t), "conj": lambda t: t, "conjugate": lambda t: t,
    "real": lambda t: t,
}
UN_BOOL = {
    "isnan": T.isnan, "isinf": T.isinf, "isfinite": lambda t: T.land(T.lnot(T.isnan(t)), T.lnot(T.isinf(t))),
    "logical_not": lambda t: T.lnot(t if T.isbool(t) else T.lnot(T.eqn(t, T.ZERO))), "signbit": lambda t: T.lt(t, T.ZERO),
}


def _max2(a, b):
    """numpy maximum: nan wins"""
    return T.ite(T.isnan(a), a, T.ite(T.isnan(b), b, T.ite(T.lt(a, b), b, a)))


def _min2(a, b):
    return T.ite(T.isnan(a), a, T.ite(T.isnan(b), b, T.ite(T.lt(b, a), b, a)))


def _fmax(a, b):
    return T.ite(T.isnan(a), b, T.ite(T.isnan(b), a, T.ite(T.lt(a, b), b, a)))


def _fmin(a, b):
    return T.ite(T.isnan(a), b, T.ite(T.isnan(b), a, T.ite(T.lt(b, a), b, a)))


def hypot(a, b):
    return T.fn("sqrt", T.add(T.powi(a, 2), T.powi(b, 2)))


BIN = {
    "add": "Add", "subtract": "Sub", "multiply": "Mult", "divide": "Div", "true_divide": "Div", "floor_divide": "FloorDiv",
    "power": "Pow", "float_power": "Pow", "mod": "Mod", "remainder": "Mod", "matmul": "MatMult", "bitwise_and": "BitAnd",
    "bitwise_or": "BitOr", "bitwise_xor": "BitXor", "pow": "Pow",
}
BINF = {
    "arctan2": lambda a, b: T.fn("atan2", a, b), "atan2": lambda a, b: T.fn("atan2", a, b), "hypot": hypot,
    "maximum": _max2, "minimum": _min2, "fmax": _fmax, "fmin": _fmin,
    "copysign": lambda a, b: T.ite(T.lt(b, T.ZERO), T.neg(T.fn("abs", a)), T.fn("abs", a)),
    "heaviside": lambda a, b: T.ite(T.lt(a, T.ZERO), T.ZERO, T.ite(T.lt(T.ZERO, a), T.ONE, b)),
    "fmod": lambda a, b: T.sub(a, T.mul(b, T.fn("trunc", T.div(a, b)))),
}
BINB = {"equal": "Eq", "not_equal": "NotEq", "less": "Lt", "less_equal": "LtE", "greater": "Gt", "greater_equal": "GtE"}


def _b(t):
    return t if T.isbool(t) else T.lnot(T.eqn(t, T.ZERO))


BINL = {"logical_and": lambda a, b: T.land(_b(a), _b(b)), "logical_or": lambda a, b: T.lor(_b(a), _b(b)),
        "logical_xor": lambda a, b: xor(_b(a), _b(b))}


def map1(I, v, f, dt=None):
    """elementwise function; dt None: float result, 'keep': keep dtype"""
    C = _core()
    if isinstance(v, Top):
        return v
    if isinstance(v, MaskSel):
        d = v.dtype if dt == "keep" else (dt or "float")
        return MaskSel([f(e) for e in v.elems], v.mask, v.shape, d, v.rest)
    a = asarr(I, v)
    if isinstance(a, Top):
        return a
    if a.dtype == "object":
        es = []
        for e in elems(I, a):
            if not C.isnum(e):
                I.raise_("TypeError", "loop of ufunc does not support argument of type %s" % C.tname(e))
            es.append(C.term(e))
        a = new(I, es, a.shape, "float")
    d = a.dtype if dt == "keep" else (dt or ("float32" if a.dtype == "float32" else "float"))
    es = [f(e if dt == "bool" else T.num(e)) for e in elems(I, a)]
    if dt == "bool":
        es = [I.decide(e) for e in es]
    return wrap(I, es, a.shape, d)


def map2(I, a, b, f, dt=None):
    if isinstance(a, Top) or isinstance(b, Top):
        return a if isinstance(a, Top) else b
    if isinstance(a, MaskSel) or isinstance(b, MaskSel):
        return mask_binary(I, "", a, b, f, dt)
    x, y = asarr(I, a), asarr(I, b)
    if isinstance(x, Top) or isinstance(y, Top):
        return x if isinstance(x, Top) else y
    if x.dtype == "object" or y.dtype == "object":
        return Top("ufunc on objects")
    (ea, eb), sh = bcast(I, [x, y])
    d = dt or promote(x.dtype, y.dtype)
    if dt is None and d in ("bool", "int", "uint8") and f in (BINF["arctan2"], BINF["hypot"], BINF["atan2"]):
        d = "float"
    return wrap(I, [f(p, q) if dt == "bool" else f(T.num(p), T.num(q)) for p, q in zip(ea, eb)], sh, d)


# ---------------------------------------------------------------- reductions
def balanced(f, ts, empty=None):
    ts = list(ts)
    if not ts:
        return empty
    while len(ts) > 1:
        nxt = []
        for i in range(0, len(ts) - 1, 2):
            nxt.append(f(ts[i], ts[i + 1]))
        if len(ts) % 2:
            nxt.append(ts[-1])
        ts = nxt
    return ts[0]


def norm_axes(I, axis, nd):
    C = _core()
    if axis is None:
        return tuple(range(nd))
    ax = axis if isinstance(axis, tuple) else (axis,)
    out = []
    for x in ax:
        x = I.index_int(x)
        if not isinstance(x, int):
            raise Unsupported("symbolic axis")
        if x < -nd or x >= nd:
            I.raise_("AxisError", "axis %d is out of bounds for array of dimension %d" % (x, nd))
        out.append(x % nd)
    return tuple(out)


def groups(shape, axes):
    """(output shape without axes, list of lists of flat indices)"""
    nd = len(shape)
    keep = [k for k in range(nd) if k not in axes]
    strides = [0] * nd
    acc = 1
    for k in range(nd - 1, -1, -1):
        strides[k] = acc
        acc *= shape[k]
    outer = [0]
    for k in keep:
        outer = [o + i * strides[k] for o in outer for i in range(shape[k])]
    inner = [0]
    for k in axes:
        inner = [o + i * strides[k] for o in inner for i in range(shape[k])]
    return tuple(shape[k] for k in keep), [[o + i for i in inner] for o in outer]


def reduce_(I, v, f, axis=None, keepdims=False, dt=None, empty=None, pre=None):
    if isinstance(v, Top):
        return v
    a = asarr(I, v)
    if isinstance(a, Top):
        return a
    if a.dtype == "object":
        return Top("reduction over objects")
    axes = norm_axes(I, axis, len(a.shape))
    sh, gs = groups(a.shape, axes)
    es = elems(I, a)
    out = []
    for g in gs:
        xs = [es[i] for i in g]
        r = f(xs)
        out.append(r)
    if keepdims:
        sh = tuple(1 if k in axes else a.shape[k] for k in range(len(a.shape)))
    d = dt(a.dtype) if callable(dt) else (dt or a.dtype)
    return wrap(I, out, sh, d)


def rsum(xs):
    return balanced(T.add, [T.num(x) for x in xs], T.ZERO)


def rprod(xs):
    return balanced(T.mul, [T.num(x) for x in xs], T.ONE)


def rmin(xs):
    return balanced(_min2, [T.num(x) for x in xs])


def rmax(xs):
    return balanced(_max2, [T.num(x) for x in xs])


def rany(xs):
    return balanced(T.lor, [_b(x) for x in xs], FALSE)


def rall(xs):
    return balanced(T.land, [_b(x) for x in xs], TRUE)


def rmean(xs):
    return T.div(rsum(xs), const(len(xs))) if xs else NAN


def _nanrep(x, r):
    return T.ite(T.isnan(x), r, x)


def rnansum(xs):
    return rsum([_nanrep(T.num(x), T.ZERO) for x in xs])


def rnanmean(xs):
    n = rsum([T.ite(T.isnan(T.num(x)), T.ZERO, T.ONE) for x in xs])
    return T.div(rnansum(xs), n)


def rnanmin(xs):
    return balanced(_fmin, [T.num(x) for x in xs])


def rnanmax(xs):
    return balanced(_fmax, [T.num(x) for x in xs])


def rvar(xs, ddof=0):
    m = rmean(xs)
    return T.div(rsum([T.powi(T.sub(T.num(x), m), 2) for x in xs]), const(len(xs) - ddof))


def argbest(I, xs, less):
    """index of the first extreme element; nan wins (numpy argmin/argmax)"""
    bi, bv = const(0), T.num(xs[0])
    for k, x in enumerate(xs[1:], 1):
        x = T.num(x)
        better = T.land(T.lnot(T.isnan(bv)), T.lor(T.isnan(x), less(x, bv)))
        better = I.decide(better)
        bi = T.ite(better, const(k), bi)
        bv = T.ite(better, x, bv)
    return bi


def argreduce(I, v, axis, less, nan=False, name="argmin"):
    if isinstance(v, Top):
        return v
    if isinstance(v, MaskSel):
        return Top(name)
    a = asarr(I, v)
    if isinstance(a, Top) or a.dtype == "object":
        return Top(name)
    if size(a.shape) == 0:
        I.raise_("ValueError", "attempt to get %s of an empty sequence" % name)
    axes = norm_axes(I, axis, len(a.shape))
    sh, gs = groups(a.shape, axes)
    es = elems(I, a)
    out = []
    for g in gs:
        xs = [es[i] for i in g]
        if nan:
            alln = rall([T.isnan(x) for x in xs])
            I.cond_raise(alln, "ValueError", "All-NaN slice encountered")
            rep = INF if "min" in name else T.NINF
            # among non-nan entries; an inf entry never beats another
            bi, bv, have = const(0), rep, FALSE
            for k, x in enumerate(xs):
                x = T.num(x)
                nn = T.lnot(T.isnan(x))
                better = T.land(nn, T.lor(T.lnot(have), less(x, bv)))
                better = I.decide(better)
                bi = T.ite(better, const(k), bi)
                bv = T.ite(better, x, bv)
                have = T.lor(have, nn)
            out.append(bi)
        else:
            out.append(argbest(I, xs, less))
    return wrap(I, out, sh, "int")


# ---------------------------------------------------------------- linear algebra
def dot(I, a, b):
    x, y = asarr(I, a), asarr(I, b)
    if isinstance(x, Top) or isinstance(y, Top):
        return x if isinstance(x, Top) else y
    if x.dtype == "object" or y.dtype == "object":
        return Top("dot of objects")
    dt = promote(x.dtype, y.dtype)
    ea, eb = elems(I, x), elems(I, y)
    if x.shape == () or y.shape == ():
        return binary(I, "Mult", x, y)
    k = x.shape[-1]
    if len(y.shape) == 1:
        if y.shape[0] != k:
            I.raise_("ValueError", "shapes %s and %s not aligned" % (x.shape, y.shape))
        n = size(x.shape) // max(k, 1)
        out = [rsum([T.mul(T.num(ea[i * k + j]), T.num(eb[j])) for j in range(k)]) for i in range(n)]
        return wrap(I, out, x.shape[:-1], dt)
    if y.shape[-2] != k:
        I.raise_("ValueError", "shapes %s and %s not aligned" % (x.shape, y.shape))
    n = size(x.shape) // max(k, 1)
    m = y.shape[-1]
    outer = size(y.shape[:-2])
    out = []
    for i in range(n):
        for o in range(outer):
            for c in range(m):
                out.append(rsum([T.mul(T.num(ea[i * k + j]), T.num(eb[(o * k + j) * m + c])) for j in range(k)]))
    return wrap(I, out, x.shape[:-1] + y.shape[:-2] + (m,), dt)


def matmul(I, a, b):
    x, y = asarr(I, a), asarr(I, b)
    if isinstance(x, Top) or isinstance(y, Top):
        return x if isinstance(x, Top) else y
    if x.shape == () or y.shape == ():
        I.raise_("ValueError", "matmul: Input operand does not have enough dimensions")
    if x.dtype == "object" or y.dtype == "object":
        return Top("matmul of objects")
    v1, v2 = len(x.shape) == 1, len(y.shape) == 1
    sx = (1,) + x.shape if v1 else x.shape
    sy = y.shape + (1,) if v2 else y.shape
    if sx[-1] != sy[-2]:
        I.raise_("ValueError", "matmul: Input operand 1 has a mismatch in its core dimension")
    bs = bshape(I, sx[:-2], sy[:-2])
    ix, iy = bidx(sx[:-2], bs), bidx(sy[:-2], bs)
    n, k, m = sx[-2], sx[-1], sy[-1]
    ea, eb = elems(I, x), elems(I, y)
    out = []
    for p, q in zip(ix, iy):
        for i in range(n):
            for c in range(m):
                out.append(rsum([T.mul(T.num(ea[(p * n + i) * k + j]), T.num(eb[(q * k + j) * m + c])) for j in range(k)]))
    sh = bs + ((n,) if not v1 else ()) + ((m,) if not v2 else ())
    return wrap(I, out, sh, promote(x.dtype, y.dtype))


def inner(I, a, b):
    x, y = asarr(I, a), asarr(I, b)
    if isinstance(x, Top) or isinstance(y, Top):
        return x if isinstance(x, Top) else y
    if x.shape == () or y.shape == ():
        return binary(I, "Mult", x, y)
    if x.shape[-1] != y.shape[-1]:
        I.raise_("ValueError", "shapes %s and %s not aligned" % (x.shape, y.shape))
    k = x.shape[-1]
    ea, eb = elems(I, x), elems(I, y)
    out = []
    for i in range(size(x.shape) // k):
        for j in range(size(y.shape) // k):
            out.append(rsum([T.mul(T.num(ea[i * k + c]), T.num(eb[j * k + c])) for c in range(k)]))
    return wrap(I, out, x.shape[:-1] + y.shape[:-1], promote(x.dtype, y.dtype))


def einsum(I, args):
    spec = args[0]
    if not isinstance(spec, str):
        return Top("einsum")
    ops = [asarr(I, a) for a in args[1:]]
    for o in ops:
        if isinstance(o, Top):
            return o
        if o.dtype == "object":
            return Top("einsum of objects")
    spec = spec.replace(" ", "")
    if "->" in spec:
        ins, out = spec.split("->")
    else:
        ins, out = spec, None
    ins = ins.split(",")
    if len(ins) != len(ops):
        I.raise_("ValueError", "einsum: wrong number of operands")
    ell = 0
    for s, o in zip(ins, ops):
        if "..." in s:
            n = len(o.shape) - (len(s) - 3)
            if n < 0:
                I.raise_("ValueError", "einstein sum subscripts string contains too many subscripts for operand")
            ell = max(ell, n)
        elif len(s) != len(o.shape):
            I.raise_("ValueError", "einsum: operand has a different number of dimensions than subscripts")
    def expand(s, nd=None):
        if "..." in s:
            n = (nd - (len(s) - 3)) if nd is not None else ell
            l, r = s.split("...")
            return list(l) + ["." + str(k) for k in range(ell - n, ell)] + list(r)
        return list(s)
    labs = [expand(s, len(o.shape)) for s, o in zip(ins, ops)]
    if out is None:
        cnt = {}
        for l in labs:
            for c in l:
                cnt[c] = cnt.get(c, 0) + 1
        outl = ["." + str(k) for k in range(ell)] + sorted(c for c, n in cnt.items() if n == 1 and not c.startswith("."))
    else:
        outl = expand(out)
    dims = {}
    for l, o in zip(labs, ops):
        for c, d in zip(l, o.shape):
            if c in dims and dims[c] != d:
                if dims[c] == 1:
                    dims[c] = d
                elif d != 1:
                    I.raise_("ValueError", "operands could not be broadcast together (einsum)")
            else:
                dims.setdefault(c, d)
    summed = [c for c in dims if c not in outl]
    es = [elems(I, o) for o in ops]
    strides = []
    for l, o in zip(labs, ops):
        st = {}
        acc = 1
        for c, d in zip(reversed(l), reversed(o.shape)):
            st[c] = st.get(c, 0) + (acc if d != 1 else 0)
            acc *= d
        strides.append(st)
    def offs(labels):
        res = [[0] * len(ops)]
        for c in labels:
            nxt = []
            for r in res:
                for i in range(dims[c]):
                    nxt.append([x + i * strides[k].get(c, 0) for k, x in enumerate(r)])
            res = nxt
        return res
    so = offs(summed)
    outv = []
    for o in offs(outl):
        ts = []
        for s in so:
            p = None
            for k in range(len(ops)):
                e = T.num(es[k][o[k] + s[k]])
                p = e if p is None else T.mul(p, e)
            ts.append(p)
        outv.append(rsum(ts))
    dt = ops[0].dtype
    for o in ops[1:]:
        dt = promote(dt, o.dtype)
    return wrap(I, outv, tuple(dims[c] for c in outl), dt)


def det_terms(m):
    n = len(m)
    if n == 1:
        return m[0][0]
    if n == 2:
        return T.sub(T.mul(m[0][0], m[1][1]), T.mul(m[0][1], m[1][0]))
    r = T.ZERO
    for j in range(n):
        if m[0][j] is T.ZERO:
            continue
        sub_ = [row[:j] + row[j + 1:] for row in m[1:]]
        d = T.mul(m[0][j], det_terms(sub_))
        r = T.add(r, d) if j % 2 == 0 else T.sub(r, d)
    return r


def inv_terms(m):
    n = len(m)
    d = det_terms(m)
    if n == 1:
        return [[T.div(T.ONE, m[0][0])]], d
    out = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            minor = [r[:j] + r[j + 1:] for k, r in enumerate(m) if k != i]
            c = det_terms(minor)
            out[j][i] = T.div(c if (i + j) % 2 == 0 else T.neg(c), d)
    return out, d


def mats(I, a):
    n, m = a.shape[-2:]
    es = [T.num(e) for e in elems(I, a)]
    return [[[es[(p * n + i) * m + j] for j in range(m)] for i in range(n)] for p in range(size(a.shape[:-2]))]


def singular(I, d):
    """condition under which the factorisation reports a singular matrix"""
    return T.eqn(d, T.ZERO)


def linalg_inv(I, v):
    a = asarr(I, v)
    if isinstance(a, Top):
        return a
    if len(a.shape) < 2 or a.shape[-1] != a.shape[-2]:
        I.raise_("LinAlgError", "Last 2 dimensions of the array must be square")
    if a.shape[-1] > 4:
        return Top("inverse of a large matrix")
    out = []
    for m in mats(I, a):
        r, d = inv_terms(m)
        I.cond_raise(singular(I, d), "LinAlgError", "Singular matrix")
        out += [x for row in r for x in row]
    return wrap(I, out, a.shape, "float")


def linalg_solve(I, A, B):
    a, b = asarr(I, A), asarr(I, B)
    if isinstance(a, Top) or isinstance(b, Top):
        return a if isinstance(a, Top) else b
    if len(a.shape) < 2 or a.shape[-1] != a.shape[-2]:
        I.raise_("LinAlgError", "Last 2 dimensions of the array must be square")
    n = a.shape[-1]
    if n > 4:
        return Top("large solve")
    vec = len(b.shape) == 1
    if vec:
        sb = (n, 1)
        if b.shape[0] != n:
            I.raise_("ValueError", "solve: Input operand 1 has a mismatch in its core dimension")
    else:
        sb = b.shape
        if sb[-2] != n:
            I.raise_("ValueError", "solve: Input operand 1 has a mismatch in its core dimension")
    m = sb[-1]
    bs = bshape(I, a.shape[:-2], sb[:-2])
    ms = mats(I, a)
    eb = [T.num(e) for e in elems(I, b)]
    res = []
    conds = FALSE
    for p, q in zip(bidx(a.shape[:-2], bs), bidx(sb[:-2], bs)):
        M = ms[p]
        d = det_terms(M)
        conds = T.lor(conds, singular(I, d))
        block = [[None] * m for _ in range(n)]
        for c in range(m):
            for k in range(n):
                Mk = [[eb[(q * n + i) * m + c] if j == k else M[i][j] for j in range(n)] for i in range(n)]
                block[k][c] = T.div(det_terms(Mk), d)
        res += [x for row in block for x in row]
    I.cond_raise(conds, "LinAlgError", "Singular matrix")
    return wrap(I, res, bs + ((n,) if vec else (n, m)), "float")


def norm(I, x, ord_=None, axis=None, keepdims=False):
    if isinstance(x, MaskSel):
        return Top("norm of selection")
    a = asarr(I, x)
    if isinstance(a, Top):
        return a
    if ord_ not in (None, 2, "fro"):
        if ord_ == 1 and (axis is not None or len(a.shape) == 1):
            return reduce_(I, a, lambda xs: rsum([T.fn("abs", T.num(e)) for e in xs]), axis, keepdims, "float")
        if ord_ == math.inf and (axis is not None or len(a.shape) == 1):
            return reduce_(I, a, lambda xs: rmax([T.fn("abs", T.num(e)) for e in xs]), axis, keepdims, "float")
        return Top("norm order")
    return reduce_(I, a, lambda xs: T.fn("sqrt", rsum([T.powi(T.num(e), 2) for e in xs])), axis, keepdims,
                   lambda d: "float32" if d == "float32" else "float")


def cross(I, a, b):
    x, y = asarr(I, a), asarr(I, b)
    if isinstance(x, Top) or isinstance(y, Top):
        return x if isinstance(x, Top) else y
    if not x.shape or not y.shape or x.shape[-1] != 3 or y.shape[-1] != 3:
        return Top("cross of 2-vectors")
    bs = bshape(I, x.shape[:-1], y.shape[:-1])
    ea, eb = [T.num(e) for e in elems(I, x)], [T.num(e) for e in elems(I, y)]
    out = []
    for p, q in zip(bidx(x.shape[:-1], bs), bidx(y.shape[:-1], bs)):
        u, v = ea[3 * p:3 * p + 3], eb[3 * q:3 * q + 3]
        out += [T.sub(T.mul(u[1], v[2]), T.mul(u[2], v[1])), T.sub(T.mul(u[2], v[0]), T.mul(u[0], v[2])),
                T.sub(T.mul(u[0], v[1]), T.mul(u[1], v[0]))]
    return wrap(I, out, bs + (3,), promote(x.dtype, y.dtype))


# ---------------------------------------------------------------- shape manipulation
def transpose(I, a, axes=None):
    nd = len(a.shape)
    if axes is None:
        axes = tuple(reversed(range(nd)))
    axes = [x % nd for x in axes]
    if len(axes) != nd or sorted(axes) != list(range(nd)):
        I.raise_("ValueError", "axes don't match array")
    strides = [0] * nd
    acc = 1
    for k in range(nd - 1, -1, -1):
        strides[k] = acc
        acc *= a.shape[k]
    idx = [0]
    for x in axes:
        idx = [i + k * strides[x] for i in idx for k in range(a.shape[x])]
    return Arr(a.buf, tuple(a.idx[i] for i in idx), tuple(a.shape[x] for x in axes), a.dtype)


def contiguous(a):
    """is the view C-contiguous (a reshape stays a view)"""
    ix = a.idx
    return all(ix[i + 1] - ix[i] == 1 for i in range(len(ix) - 1))


def reshape(I, a, shape):
    sh = []
    for s in shape:
        s = I.index_int(s)
        if not isinstance(s, int):
            raise Unsupported("symbolic shape")
        sh.append(s)
    n = len(a.idx)
    if sh.count(-1) > 1:
        I.raise_("ValueError", "can only specify one unknown dimension")
    if -1 in sh:
        k = sh.index(-1)
        rest = size([s for s in sh if s != -1])
        if rest == 0 or n % rest:
            I.raise_("ValueError", "cannot reshape array of size %d into shape %s" % (n, tuple(sh)))
        sh[k] = n // rest
    if size(sh) != n:
        I.raise_("ValueError", "cannot reshape array of size %d into shape %s" % (n, tuple(sh)))
    if contiguous(a):
        return Arr(a.buf, a.idx, tuple(sh), a.dtype)
    return new(I, elems(I, a), sh, a.dtype)


def concat(I, seq, axis=0):
    C = _core()
    items = [asarr(I, x) for x in I.iterate(seq)]
    for x in items:
        if isinstance(x, Top):
            return x
    if not items:
        I.raise_("ValueError", "need at least one array to concatenate")
    if axis is None:
        items = [reshape(I, x, (-1,)) for x in items]
        axis = 0
    nd = len(items[0].shape)
    if nd == 0:
        I.raise_("ValueError", "zero-dimensional arrays cannot be concatenated")
    for x in items:
        if len(x.shape) != nd:
            I.raise_("ValueError", "all the input array dimensions must match (concatenate): %s" % [y.shape for y in items])
    ax = norm_axes(I, axis, nd)[0]
    for x in items:
        if any(x.shape[k] != items[0].shape[k] for k in range(nd) if k != ax):
            I.raise_("ValueError", "all the input array dimensions except for the concatenation axis must match exactly")
    dt = items[0].dtype
    for x in items[1:]:
        dt = promote(dt, x.dtype)
    pre = size(items[0].shape[:ax])
    es = [elems(I, astype(I, x, dt) if x.dtype != dt else x) for x in items]
    blk = [size(x.shape[ax:]) for x in items]
    out = []
    for p in range(pre):
        for e, b in zip(es, blk):
            out += e[p * b:(p + 1) * b]
    sh = list(items[0].shape)
    sh[ax] = sum(x.shape[ax] for x in items)
    return new(I, out, sh, dt)


def stack(I, seq, axis=0):
    items = [asarr(I, x) for x in I.iterate(seq)]
    for x in items:
        if isinstance(x, Top):
            return x
    if not items:
        I.raise_("ValueError", "need at least one array to stack")
    if len({x.shape for x in items}) != 1:
        I.raise_("ValueError", "all input arrays must have the same shape")
    nd = len(items[0].shape) + 1
    ax = norm_axes(I, axis, nd)[0]
    sh = items[0].shape
    return concat(I, tuple(reshape(I, x, sh[:ax] + (1,) + sh[ax:]) for x in items), ax)


def atleast(I, v, n):
    a = asarr(I, v)
    if isinstance(a, Top):
        return a
    sh = a.shape
    if n == 3 and len(sh) == 2:
        sh = sh + (1,)
    elif n == 3 and len(sh) == 1:
        sh = (1,) + sh + (1,)
    while len(sh) < n:
        sh = (1,) + sh
    return Arr(a.buf, a.idx, sh, a.dtype)


def broadcast_to(I, a, shape):
    if bshape(I, a.shape, shape) != tuple(shape):
        I.raise_("ValueError", "cannot broadcast a non-scalar to a scalar array")
    return Arr(a.buf, tuple(a.idx[i] for i in bidx(a.shape, tuple(shape))), tuple(shape), a.dtype)


# ---------------------------------------------------------------- indexing
def is_boolarr(k):
    return isinstance(k, Arr) and k.dtype == "bool"


def norm_key(I, k):
    C = _core()
    k = I.clean(k)
    if isinstance(k, Phi):
        k = I.flat(k)
    if isinstance(k, Ref) and k.kind == "list":
        return asarr(I, k)
    if isinstance(k, bool) or isinstance(k, Sc) and k.ty in ("bool", "npbool"):
        return new(I, [C.term(k)], (), "bool")
    if isinstance(k, Sc):
        if "int" in k.ty:
            v = I.index_int(k)
            return v
        I.raise_("IndexError", "only integers, slices (`:`), ellipsis, None and integer or boolean arrays are valid indices")
    if isinstance(k, float):
        I.raise_("IndexError", "only integers, slices are valid indices")
    if isinstance(k, tuple):
        return asarr(I, k)
    if isinstance(k, range):
        return asarr(I, tuple(k))
    return k


def prep(I, a, key):
    """expanded key list (one entry per axis or newaxis)"""
    ks = list(key) if isinstance(key, tuple) else [key]
    ks = [norm_key(I, k) for k in ks]
    for k in ks:
        if isinstance(k, Top) or isinstance(k, Phi):
            return None
        if isinstance(k, (str,)):
            I.raise_("IndexError", "only integers, slices, ellipsis are valid indices")
    used = 0
    for k in ks:
        if k is None or k is Ellipsis:
            continue
        used += len(k.shape) if is_boolarr(k) else 1
    nd = len(a.shape)
    if used > nd:
        I.raise_("IndexError", "too many indices for array: array is %d-dimensional, but %d were indexed" % (nd, used))
    if Ellipsis in [k for k in ks if not isinstance(k, (Arr, Sc))]:
        out = []
        done = False
        for k in ks:
            if k is Ellipsis and not done:
                out += [slice(None)] * (nd - used)
                done = True
            elif k is Ellipsis:
                I.raise_("IndexError", "an index can only have a single ellipsis")
            else:
                out.append(k)
        return out, True
    return ks + [slice(None)] * (nd - used), False


def choices(t, n):
    """possible constant values of an index term (None: any)"""
    out = set()
    st = [t]
    while st:
        x = st.pop()
        if x.op == "const":
            out.add(int(x.args[0]))
        elif x.op == "ite":
            st.append(x.args[1])
            st.append(x.args[2])
        else:
            return list(range(n))
        if len(out) > 64:
            return list(range(n))
    return sorted(out)


def getitem(I, a, key):
    C = _core()
    if isinstance(a, MaskSel):
        return mask_getitem(I, a, key)
    key = I.clean(key)
    if isinstance(key, Ref) and key.kind == "list":
        key = asarr(I, key)
    if isinstance(key, Phi):
        return I.lift(key, lambda k: getitem(I, a, k))
    if isinstance(key, Top):
        return key
    if isinstance(key, MaskSel):
        return Top("index by selection")
    p = prep(I, a, key)
    if p is None:
        return Top("unknown index")
    ks, ell = p
    if any(isinstance(k, Arr) for k in ks):
        return adv_get(I, a, ks)
    if any(isinstance(k, Sc) for k in ks):
        # symbolic integer: select with gated values
        ks = [new(I, [k.t], (), "int") if isinstance(k, Sc) else k for k in ks]
        return adv_get(I, a, ks)
    idx, shape = basic(I, a.shape, ks)
    if shape == () and not ell and all(isinstance(k, int) for k in ks) and (len(ks) == len(a.shape)) and not (len(ks) == 0):
        return elem_value(I, a, a.idx[idx[0]])
    if shape == () and not ell and ks == []:
        # a[()]
        return elem_value(I, a, a.idx[idx[0]])
    return Arr(a.buf, tuple(a.idx[i] for i in idx), shape, a.dtype)


def elem_value(I, a, i):
    C = _core()
    c = I.st.cells[a.buf]
    if isinstance(c, Top):
        return c
    e = c[i]
    if a.dtype == "object":
        return I.clean(e)
    return Sc(e, sctype(a.dtype))


def basic(I, shape, ks):
    strides = [0] * len(shape)
    acc = 1
    for k in range(len(shape) - 1, -1, -1):
        strides[k] = acc
        acc *= shape[k]
    idx = [0]
    out = []
    ax = 0
    for k in ks:
        if k is None:
            out.append(1)
            continue
        n = shape[ax]
        if isinstance(k, int):
            if k < -n or k >= n:
                I.raise_("IndexError", "index %d is out of bounds for axis %d with size %d" % (k, ax, n))
            idx = [i + (k % n) * strides[ax] for i in idx]
        elif isinstance(k, slice):
            for v in (k.start, k.stop, k.step):
                if v is not None and not isinstance(v, int):
                    if isinstance(v, (Sc, Phi, Top)):
                        raise Unsupported("symbolic slice")
                    I.raise_("TypeError", "slice indices must be integers or None")
            r = range(*k.indices(n))
            idx = [i + j * strides[ax] for i in idx for j in r]
            out.append(len(r))
        else:
            raise Unsupported("index %r" % (k,))
        ax += 1
    return idx, tuple(out)


def mask_concrete(m):
    return all(x.op in ("true", "false") for x in m)


def adv_get(I, a, ks):
    C = _core()
    bools = [k for k in ks if is_boolarr(k)]
    if bools:
        # boolean masks
        ms = [I.decide(x) for x in elems(I, bools[0])]
        if len(bools) == 1 and all(is_boolarr(k) or k == slice(None) for k in ks):
            pos = [i for i, k in enumerate(ks) if is_boolarr(k)][0]
            m = bools[0]
            if m.shape == ():
                # scalar boolean: adds an axis of length 0/1
                if ms[0].op == "true":
                    return new(I, elems(I, a), (1,) + a.shape, a.dtype)
                if ms[0].op == "false":
                    return new(I, [], (0,) + a.shape, a.dtype)
                return MaskSel(elems(I, a), ms, (1,), a.dtype, a.shape)
            if m.shape != a.shape[pos:pos + len(m.shape)]:
                I.raise_("IndexError", "boolean index did not match indexed array along axis %d" % pos)
            if pos == 0:
                rest = a.shape[len(m.shape):]
                r = size(rest)
                es = elems(I, a)
                if mask_concrete(ms):
                    out = []
                    for i, t in enumerate(ms):
                        if t.op == "true":
                            out += es[i * r:(i + 1) * r]
                    return new(I, out, (sum(t.op == "true" for t in ms),) + rest, a.dtype)
                if a.dtype == "object":
                    return Top("selection of objects")
                return MaskSel(es, ms, m.shape, a.dtype, rest)
        if mask_concrete([x for b in bools for x in elems(I, b)]):
            # replace by integer arrays
            out = []
            for k in ks:
                if is_boolarr(k) and len(k.shape) >= 1:
                    tr = [i for i, x in enumerate(elems(I, k)) if x.op == "true"]
                    for ax in range(len(k.shape)):
                        st = size(k.shape[ax + 1:])
                        out.append(new(I, [const((i // st) % k.shape[ax]) for i in tr], (len(tr),), "int"))
                else:
                    out.append(k)
            return adv_get(I, a, out)
        return Top("mixed boolean index")
    # integer arrays
    idxs = [k for k in ks if isinstance(k, Arr)]
    for k in idxs:
        if k.dtype not in ("int", "uint8") and len(k.idx):
            I.raise_("IndexError", "arrays used as indices must be of integer (or boolean) type")
    ks = [new(I, [const(k)], (), "int") if isinstance(k, int) else k for k in ks]
    axpos = []
    ax = 0
    advax = []
    for i, k in enumerate(ks):
        if k is None:
            continue
        if isinstance(k, Arr):
            advax.append((i, ax))
        ax += 1
    bsh = bshape(I, *[ks[i].shape for i, _ in advax])
    bel = {i: [elems(I, ks[i])[j] for j in bidx(ks[i].shape, bsh)] for i, _ in advax}
    contig = all(advax[j + 1][0] == advax[j][0] + 1 for j in range(len(advax) - 1))
    strides = [0] * len(a.shape)
    acc = 1
    for k in range(len(a.shape) - 1, -1, -1):
        strides[k] = acc
        acc *= a.shape[k]
    # basic part: list of (offset) per remaining axes in order, split at insertion position
    front, back = [0], [0]
    fsh, bsh2 = [], []
    ax = 0
    for i, k in enumerate(ks):
        infront = contig and i < advax[0][0]
        if k is None:
            (fsh if infront else bsh2).append(1)
            continue
        if isinstance(k, Arr):
            ax += 1
            continue
        n = a.shape[ax]
        r = range(*k.indices(n))
        if infront:
            front = [o + j * strides[ax] for o in front for j in r]
            fsh.append(len(r))
        else:
            back = [o + j * strides[ax] for o in back for j in r]
            bsh2.append(len(r))
        ax += 1
    es = elems(I, a)
    # combine advanced offsets: list of [(guard, offset)]
    combos = []
    for p in range(size(bsh)):
        alts = [(TRUE, 0)]
        for i, axn in advax:
            t = bel[i][p]
            n = a.shape[axn]
            if t.op == "const":
                v = int(t.args[0])
                if v < -n or v >= n:
                    I.raise_("IndexError", "index %d is out of bounds for axis %d with size %d" % (v, axn, n))
                alts = [(g, o + (v % n) * strides[axn]) for g, o in alts]
            else:
                ch = choices(t, n)
                nxt = []
                for v in ch:
                    if v < -n or v >= n:
                        I.cond_raise(T.eqn(t, const(v)), "IndexError", "index out of bounds")
                        continue
                    c = I.decide(T.eqn(t, const(v)))
                    for g, o in alts:
                        gg = T.land(g, c)
                        if gg.op != "false":
                            nxt.append((gg, o + (v % n) * strides[axn]))
                alts = nxt
        combos.append(alts)
    out = []
    for f in front:
        for alts in combos:
            for b in back:
                if not alts:
                    raise Dead()
                if a.dtype == "object" and len(alts) > 1:
                    out.append(Phi(tuple((g, es[f + o + b]) for g, o in alts)))
                    continue
                t = es[f + alts[-1][1] + b]
                for g, o in reversed(alts[:-1]):
                    t = T.ite(g, es[f + o + b], t)
                out.append(t)
    sh = tuple(fsh) + bsh + tuple(bsh2)
    return wrap(I, out, sh, a.dtype) if sh == () else new(I, out, sh, a.dtype)


def mask_getitem(I, m, key):
    if isinstance(key, tuple) and key and key[0] is Ellipsis and m.rest:
        key = (slice(None),) + key[1:] if len(key) - 1 == len(m.rest) else key
    if isinstance(key, tuple) and len(key) >= 1 and key[0] == slice(None) and len(m.shape) == 1:
        rest = key[1:]
        r = size(m.rest)
        tmp = []
        sh = None
        dt = m.dtype
        for i in range(len(m.mask)):
            sub = new(I, m.elems[i * r:(i + 1) * r], m.rest, m.dtype)
            v = getitem(I, sub, tuple(rest)) if rest else sub
            if isinstance(v, Top):
                return v
            v = asarr(I, v)
            sh = v.shape
            tmp += elems(I, v)
        return MaskSel(tmp, m.mask, m.shape, dt, sh)
    if isinstance(key, MaskSel) and key.mask == m.mask and key.dtype == "bool" and key.rest == () and len(m.shape) == 1:
        return MaskSel(m.elems, [T.land(a, b) for a, b in zip(m.mask, key.elems)], m.shape, m.dtype, m.rest)
    return Top("index of selection")


def setitem(I, a, key, v):
    C = _core()
    key = I.clean(key)
    if isinstance(key, Ref) and key.kind == "list":
        key = asarr(I, key)
    if isinstance(key, Top) or isinstance(key, MaskSel):
        havoc_arr(I, a)
        return
    if isinstance(v, Phi):
        v = I.flat(v)
        if isinstance(v, Phi):
            I.lift(v, lambda x: setitem(I, a, key, x))
            return
    p = prep(I, a, key)
    if p is None:
        havoc_arr(I, a)
        return
    ks, ell = p
    ks = [new(I, [k.t], (), "int") if isinstance(k, Sc) else k for k in ks]
    masks = [k for k in ks if is_boolarr(k)]
    if masks and not (len(masks) == 1 and all(is_boolarr(k) or k == slice(None) or isinstance(k, int) for k in ks)):
        if mask_concrete([x for b in masks for x in elems(I, b)]) and all(len(m.shape) for m in masks):
            pass
        else:
            havoc_arr(I, a)
            return
    if masks and len(masks) == 1 and not any(isinstance(k, Arr) and not is_boolarr(k) for k in ks):
        m = masks[0]
        pos = [i for i, k in enumerate(ks) if is_boolarr(k)][0]
        nm = len(m.shape)
        if m.shape != a.shape[pos:pos + nm]:
            I.raise_("IndexError", "boolean index did not match indexed array along dimension %d" % pos)
        # view of the array with the mask axes first
        pre = ks[:pos]
        post = ks[pos + 1:]
        view = getitem(I, a, tuple(pre + [slice(None)] * nm + post)) if (any(isinstance(k, int) for k in ks)) else a
        if any(isinstance(k, int) for k in ks):
            npre = sum(1 for k in pre if not isinstance(k, int))
        else:
            npre = len(pre)
        if npre:
            nd = len(view.shape)
            order = list(range(npre, npre + nm)) + list(range(npre)) + list(range(npre + nm, nd))
            view = transpose(I, view, order)
        ms = [I.decide(x) for x in elems(I, m)]
        rest = view.shape[nm:]
        r = size(rest)
        old = elems(I, view)
        if isinstance(v, MaskSel):
            if [x for x in v.mask] == ms and v.rest == rest:
                newv = v.elems
            else:
                havoc_arr(I, view)
                return
        else:
            if isinstance(v, Top):
                havoc_arr(I, view)
                return
            x = store_value(I, a, v)
            if x is None:
                havoc_arr(I, view)
                return
            if len(x.shape) <= len(rest):
                if bshape(I, x.shape, rest) != rest:
                    I.raise_("ValueError", "shape mismatch: value array could not be broadcast to indexing result")
                e = elems(I, x)
                e = [e[i] for i in bidx(x.shape, rest)]
                newv = e * len(ms)
            elif mask_concrete(ms):
                cnt = sum(t.op == "true" for t in ms)
                tgt = (cnt,) + rest
                if bshape(I, x.shape, tgt) != tgt:
                    I.raise_("ValueError", "NumPy boolean array indexing assignment cannot assign %d input values to the %d output values" % (size(x.shape), size(tgt)))
                e = elems(I, x)
                e = [e[i] for i in bidx(x.shape, tgt)]
                newv = list(old)
                k = 0
                for i, t in enumerate(ms):
                    if t.op == "true":
                        newv[i * r:(i + 1) * r] = e[k * r:(k + 1) * r]
                        k += 1
            elif len(x.shape) == len(rest) + 1 and x.shape[0] == 1:
                e = elems(I, x)
                e = [e[i] for i in bidx(x.shape[1:], rest)]
                newv = e * len(ms)
            else:
                havoc_arr(I, view)
                return
        out = []
        for i, t in enumerate(ms):
            for j in range(r):
                o, n = old[i * r + j], newv[i * r + j]
                if t.op == "true":
                    out.append(n)
                elif t.op == "false":
                    out.append(o)
                elif a.dtype == "object":
                    out.append(Phi(((t, n), (T.lnot(t), o))))
                else:
                    out.append(T.ite(t, n, o))
        write(I, view, out)
        return
    if isinstance(v, Top):
        if any(isinstance(k, Arr) for k in ks):
            havoc_arr(I, a)
        else:
            idx, sh = basic(I, a.shape, ks)
            havoc_arr(I, Arr(a.buf, tuple(a.idx[i] for i in idx), sh, a.dtype))
        return
    if isinstance(v, MaskSel):
        havoc_arr(I, a)
        return
    if any(isinstance(k, Arr) for k in ks):
        setadv(I, a, ks, v)
        return
    idx, sh = basic(I, a.shape, ks)
    view = Arr(a.buf, tuple(a.idx[i] for i in idx), sh, a.dtype)
    if a.dtype == "object" and sh == ():
        write(I, view, [v])
        return
    x = store_value(I, a, v)
    if x is None:
        havoc_arr(I, view)
        return
    xs = x.shape
    while len(xs) > len(sh) and xs[0] == 1:
        xs = xs[1:]
    if len(xs) > len(sh) or bshape(I, xs, sh) != sh:
        I.raise_("ValueError", "could not broadcast input array from shape %s into shape %s" % (x.shape, sh))
    e = elems(I, x)
    write(I, view, [e[i] for i in bidx(xs, sh)])


def store_value(I, a, v):
    """value converted to the dtype of the target array"""
    C = _core()
    x = asarr(I, v)
    if isinstance(x, Top):
        return None
    if a.dtype == "object":
        if x.dtype == "object":
            return x
        return astype(I, x, "object")
    if x.dtype == "object":
        es = []
        for e in elems(I, x):
            if e is None:
                if a.dtype.startswith("float"):
                    es.append(NAN)
                    continue
                I.raise_("TypeError", "int() argument must be a string, a bytes-like object or a real number, not 'NoneType'")
            if isinstance(e, Arr):
                I.raise_("ValueError", "setting an array element with a sequence.")
            if not C.isnum(e):
                if isinstance(e, str):
                    I.raise_("ValueError", "could not convert string to float")
                return None
            es.append(cast_term(C.term(e), a.dtype))
        return new(I, es, x.shape, a.dtype)
    if a.dtype in ("int", "uint8") and x.dtype.startswith("float"):
        es = []
        for e in elems(I, x):
            if e.op in ("nan", "inf", "ninf"):
                if x.shape == () and not isinstance(v, Arr):
                    I.raise_("ValueError", "cannot convert float NaN to integer")
                es.append(const(-2 ** 63))
            else:
                es.append(cast_term(e, a.dtype))
        return new(I, es, x.shape, a.dtype)
    if x.dtype != a.dtype:
        return new(I, [cast_term(e, a.dtype) for e in elems(I, x)], x.shape, a.dtype)
    return x


def setadv(I, a, ks, v):
    """store through integer index arrays"""
    ind = Arr(I.alloc(tuple(const(i) for i in range(len(a.idx)))), tuple(range(len(a.idx))), a.shape, "int")
    pos = adv_get(I, ind, ks)
    pos = asarr(I, pos)
    x = store_value(I, a, v)
    if x is None:
        havoc_arr(I, a)
        return
    if len(x.shape) > len(pos.shape) or bshape(I, x.shape, pos.shape) != pos.shape:
        I.raise_("ValueError", "shape mismatch: value array could not be broadcast to indexing result of shape %s" % (pos.shape,))
    e = elems(I, x)
    e = [e[i] for i in bidx(x.shape, pos.shape)]
    cur = elems(I, a)
    for p, val in zip(elems(I, pos), e):
        if p.op == "const":
            cur[int(p.args[0])] = val
        else:
            for i in choices(p, len(cur)):
                cur[i] = T.ite(T.eqn(p, const(i)), val, cur[i])
    write(I, a, cur)


def havoc_arr(I, a):
    C = _core()
    write(I, a, [Top("unknown store") if a.dtype == "object" else (C.unkbool("store") if a.dtype == "bool" else C.unkterm("store")) for _ in a.idx])


# ---------------------------------------------------------------- attributes and methods
def arr_attr(I, a, name):
    if name == "shape":
        return a.shape
    if name == "T":
        return transpose(I, a)
    if name == "ndim":
        return len(a.shape)
    if name == "size":
        return len(a.idx)
    if name == "dtype":
        return DType(a.dtype)
    if name == "real":
        return a
    if name == "flat":
        return reshape(I, a, (-1,))
    if name == "base":
        return Top("base")
    if name == "nbytes" or name == "itemsize" or name == "strides" or name == "flags" or name == "data":
        return Top(name)
    if name in ARR_METHODS:
        return ExtMethod(a, name)
    if name in ("__array_interface__", "ctypes"):
        return Top(name)
    I.raise_("AttributeError", "'numpy.ndarray' object has no attribute '%s'" % name)


ARR_METHODS = {"all", "any", "argmax", "argmin", "argsort", "astype", "byteswap", "choose", "clip", "compress", "conj", "conjugate",
               "copy", "cumprod", "cumsum", "diagonal", "dot", "dump", "dumps", "fill", "flatten", "getfield", "item",
               "max", "mean", "min", "nonzero", "partition", "prod", "put", "ravel", "repeat",
               "reshape", "resize", "round", "searchsorted", "setfield", "setflags", "sort", "squeeze", "std", "sum",
               "swapaxes", "take", "tobytes", "tofile", "tolist", "trace", "transpose", "var", "view",
               "__len__", "__getitem__", "__setitem__", "__iter__", "__add__", "__mul__", "__sub__", "__truediv__",
               "__radd__", "__rmul__", "__copy__", "__deepcopy__", "__array__", "__class__", "__matmul__", "__iadd__", "__neg__"}


def tolist(I, a):
    C = _core()
    if a.shape == ():
        e = elems(I, a)[0]
        return e if a.dtype == "object" else C.mkscalar(e, dt_of_ty(sctype(a.dtype)))
    return I.newlist([tolist(I, Arr(a.buf, a.idx[i * size(a.shape[1:]):(i + 1) * size(a.shape[1:])], a.shape[1:], a.dtype))
                      for i in range(a.shape[0])])


def arr_method(I, a, name, args, kw):
    C = _core()
    if name == "copy" or name in ("__copy__", "__deepcopy__"):
        return new(I, elems(I, a), a.shape, a.dtype)
    if name == "astype":
        dt = parse_dtype(args[0] if args else kw["dtype"])
        if dt == a.dtype and kw.get("copy") is False:
            return a
        return astype(I, a, dt)
    if name == "reshape":
        sh = args[0] if len(args) == 1 and not C.isnum(args[0]) else tuple(args)
        if isinstance(sh, (Ref, Arr)):
            sh = tuple(I.iterate(sh))
        if kw.get("order") not in (None, "C"):
            return Top("reshape order")
        return reshape(I, a, tuple(I.clean(x) for x in sh))
    if name == "transpose":
        ax = args[0] if len(args) == 1 and not C.isnum(args[0]) else (tuple(args) or None)
        if ax is not None and not isinstance(ax, tuple):
            ax = tuple(I.iterate(ax))
        return transpose(I, a, ax)
    if name == "flatten":
        return new(I, elems(I, a), (len(a.idx),), a.dtype)
    if name == "ravel":
        return reshape(I, a, (-1,))
    if name == "tolist":
        return tolist(I, a)
    if name == "item":
        if args:
            es = elems(I, reshape(I, a, (-1,)))
            e = es[args[0]]
        else:
            if len(a.idx) != 1:
                I.raise_("ValueError", "can only convert an array of size 1 to a Python scalar")
            e = elems(I, a)[0]
        return e if a.dtype == "object" else C.mkscalar(e, dt_of_ty(sctype(a.dtype)))
    if name == "fill":
        setitem(I, a, Ellipsis, args[0])
        return None
    if name == "dot":
        return dot(I, a, args[0])
    if name == "squeeze":
        return call_ext(I, "numpy.squeeze", [a] + list(args), kw)
    if name == "__len__":
        return a.shape[0]
    if name == "__getitem__":
        return getitem(I, a, args[0])
    if name == "__iter__":
        return C.Iter(tuple(I.iterate(a)))
    if name in ("__add__", "__radd__"):
        return binary(I, "Add", a, args[0])
    if name in ("__mul__", "__rmul__"):
        return binary(I, "Mult", a, args[0])
    if name == "__sub__":
        return binary(I, "Sub", a, args[0])
    if name == "__truediv__":
        return binary(I, "Div", a, args[0])
    if name == "__matmul__":
        return matmul(I, a, args[0])
    if name == "sort":
        r = call_ext(I, "numpy.sort", [a] + list(args), kw)
        if isinstance(r, Arr):
            write(I, a, elems(I, r))
        else:
            havoc_arr(I, a)
        return None
    if name == "view":
        return a if not args and not kw else Top("view")
    if name in ("put", "resize", "partition", "setfield"):
        havoc_arr(I, a)
        return None
    if name in ("all", "any", "argmax", "argmin", "argsort", "clip", "conj", "conjugate", "cumprod", "cumsum", "diagonal", "max", "mean",
                "min", "nonzero", "prod", "repeat", "round", "std", "sum", "swapaxes", "take", "trace", "var", "searchsorted", "compress"):
        return call_ext(I, "numpy." + name, [a] + list(args), kw)
    return Top("method %s" % name)


def scalar_attr(I, s, name):
    if name == "shape":
        return ()
    if name == "ndim":
        return 0
    if name == "size":
        return 1
    if name == "T" or name == "real":
        return s
    if name == "dtype":
        return DType(dt_of_ty(s.ty))
    if name in ARR_METHODS or name in ("is_integer",):
        return ExtMethod(s, name)
    I.raise_("AttributeError", "numpy scalar has no attribute '%s'" % name)


def scalar_method(I, s, name, args, kw):
    C = _core()
    if name in ("item", "tolist"):
        return C.mkscalar(C.term(s), dt_of_ty(C.tyof(s)))
    if name == "is_integer":
        t = C.term(s)
        return C.mkscalar(T.eqn(t, T.fn("floor", t)), "bool")
    if name == "conjugate":
        return s
    if name == "bit_length":
        return Top(name)
    if name == "copy":
        return s
    return arr_method(I, asarr(I, s), name, args, kw)


def masksel_attr(I, m, name):
    C = _core()
    if name == "shape":
        return (Sc(rsum(m.mask), "int"),) + tuple(m.rest)
    if name == "size":
        return Sc(T.mul(rsum(m.mask), const(size(m.rest))), "int")
    if name == "ndim":
        return 1 + len(m.rest)
    if name == "dtype":
        return DType(m.dtype)
    return ExtMethod(m, name)


def masksel_method(I, m, name, args, kw):
    if name == "copy":
        return m
    if name == "astype":
        dt = parse_dtype(args[0])
        return MaskSel([cast_term(e, dt) for e in m.elems], m.mask, m.shape, dt, m.rest)
    if name in ("sum", "min", "max", "mean", "any", "all"):
        return call_ext(I, "numpy." + name, [m] + list(args), kw)
    return Top("method %s of selection" % name)


def masksel_reduce(I, name, m):
    C = _core()
    if m.rest:
        return Top("reduction of selection")
    es = [T.num(e) if m.dtype != "bool" else e for e in m.elems]
    if name in ("sum", "nansum"):
        f = (lambda x: _nanrep(x, T.ZERO)) if name == "nansum" else (lambda x: x)
        return Sc(rsum([T.ite(g, f(T.num(e)), T.ZERO) for g, e in zip(m.mask, es)]), "npint" if m.dtype in ("int", "bool") else "npfloat")
    if name == "any":
        return Sc(rany([T.land(g, _b(e)) for g, e in zip(m.mask, es)]), "npbool")
    if name == "all":
        return Sc(rall([T.lor(T.lnot(g), _b(e)) for g, e in zip(m.mask, es)]), "npbool")
    if name == "mean":
        return Sc(T.div(rsum([T.ite(g, e, T.ZERO) for g, e in zip(m.mask, es)]), rsum(m.mask)), "npfloat")
    if name in ("min", "max", "nanmin", "nanmax"):
        I.cond_raise(T.lnot(rany(m.mask)), "ValueError", "zero-size array to reduction operation which has no identity")
        rep = INF if "min" in name else T.NINF
        f = {"min": rmin, "max": rmax, "nanmin": rnanmin, "nanmax": rnanmax}[name]
        return Sc(f([T.ite(g, e, rep) for g, e in zip(m.mask, es)]), sctype(m.dtype))
    return Top("reduction of selection")


def call_ext(I, path, args, kw):
    from . import extmodel
    return extmodel.call_ext(I, path, args, kw)
