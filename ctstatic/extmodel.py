"""Abstract semantics of external functions: built-ins, numpy, scipy, json, pandas, ..."""
import math

from . import terms as T
from . import npmodel as N
from .terms import Term, TRUE, FALSE, NAN, INF, const
from .values import *
from .values import UNBOUND
from .interp import (Iter, Inf, KeysView, Partial, AttrDict, Super, Box, Descr, isnum, term, tyof, mkscalar, unkterm, unkbool,
                     same, tname, exc_mro, is_exc_name)
from .pymodel import sort_items, eqterm

PURE_PREFIX = ("matplotlib", "warnings", "logging", "PIL", "requests", "sys", "time", "datetime", "gc", "typing", "numbers", "clickpoints",
               "os", "tqdm", "pathlib", "io", "csv", "mock", "bayesianfridge", "pymc", "abc", "dataclasses", "contextlib", "inspect",
               "traceback", "string", "operator", "collections", "enum", "types", "functools")

REG = {}


def reg(*paths):
    def d(f):
        for p in paths:
            REG[p] = f
        return f
    return d


def np_(*names):
    return reg(*["numpy." + n for n in names])


def arg(args, kw, i, name, default=None):
    if len(args) > i:
        return args[i]
    return kw.get(name, default)


def call_ext(I, path, args, kw):
    if path.startswith("builtins."):
        return builtin(I, path[9:], list(args), dict(kw))
    f = REG.get(path)
    if f is None and path.startswith("math."):
        return math_call(I, path[5:], list(args), kw)
    if f is None and path.startswith("numpy."):
        f = numpy_generic(path[6:])
    if f is not None:
        return lifted(I, path, f, list(args), dict(kw))
    for pre in sorted(PREFIX, key=len, reverse=True):
        if path.startswith(pre):
            return PREFIX[pre](I, path, list(args), dict(kw))
    return unknown(I, path, args, kw)


NOLIFT = {"numpy.array", "numpy.asarray"}


def lifted(I, path, f, args, kw):
    for i, a in enumerate(args):
        if isinstance(a, Phi):
            b = I.flat(a)
            if isinstance(b, Phi):
                return I.lift(b, lambda x: lifted(I, path, f, args[:i] + [x] + args[i + 1:], kw))
            args[i] = b
    for k, a in kw.items():
        if isinstance(a, Phi):
            b = I.flat(a)
            if isinstance(b, Phi):
                return I.lift(b, lambda x: lifted(I, path, f, list(args), dict(kw, **{k: x})))
            kw[k] = b
    out = kw.pop("out", None)
    where = kw.pop("where", None) if path.startswith("numpy.") and path not in OWN_WHERE else None
    if where is not None and where is not True and path.split(".")[-1] in REDUCE_WHERE:
        return Top("reduction with where=")
    if isinstance(out, tuple) and len(out) == 1:
        out = out[0]
    if any(isinstance(a, Top) for a in args) and path.startswith("numpy."):
        r = Top(path)
    else:
        r = f(I, args, kw)
    if where is not None and where is not True:
        w = N.asarr(I, where)
        if isinstance(r, Top) or isinstance(w, Top):
            r = Top("where=")
        else:
            base = out if out is not None else None
            x = N.asarr(I, r)
            (ew, ex), sh = N.bcast(I, [w, x])
            if isinstance(base, Arr):
                eb = N.elems(I, base)
                eb = [eb[i] for i in N.bidx(base.shape, sh)]
            else:
                eb = [unkterm("uninitialised") for _ in ex]
            r = N.wrap(I, [T.ite(N._b(c), a, b) for c, a, b in zip(ew, ex, eb)], sh, x.dtype)
    if out is not None:
        if isinstance(out, Arr):
            if isinstance(r, Top):
                N.havoc_arr(I, out)
            else:
                N.setitem(I, out, Ellipsis, r)
            return out
        return Top("out=")
    return r


OWN_WHERE = ("numpy.copyto",)
REDUCE_WHERE = ("sum", "prod", "product", "mean", "std", "var", "min", "max", "amin", "amax", "all", "any", "nansum",
                "nanmean", "nanmin", "nanmax", "nanprod", "nanstd", "nanvar", "count_nonzero", "average", "median", "reduce")


def unknown(I, path, args, kw):
    I.unmodelled[path] = I.unmodelled.get(path, 0) + 1
    root = path.split(".")[0]
    if root in PURE_PREFIX:
        return Top(path)
    for a in list(args) + list(kw.values()):
        for x in ([y for g, y in a.alts] if isinstance(a, Phi) else [a]):
            if isinstance(x, Arr):
                N.havoc_arr(I, x)
            elif isinstance(x, Ref) and x.kind in ("list", "dict", "set"):
                I.st.cells[x.id] = Top("passed to " + path)
    return Top(path)


# ================================================================ numpy
def A(I, v, dtype=None):
    a = N.asarr(I, v, dtype)
    return a


UNGEN = {}


def numpy_generic(name):
    """element-wise functions and ufunc methods"""
    f = UNGEN.get(name)
    if f is not None:
        return f
    f = None
    if N.UN.get(name) is not None:
        g = N.UN[name]
        f = lambda I, a, k: N.map1(I, a[0], g)
    elif name in N.UN_KEEP:
        g = N.UN_KEEP[name]
        f = lambda I, a, k: N.map1(I, a[0], g, "keep")
    elif name in N.UN_BOOL:
        g = N.UN_BOOL[name]
        f = lambda I, a, k: N.map1(I, a[0], g, "bool")
    elif name in N.BIN:
        op = N.BIN[name]
        f = lambda I, a, k: binop_np(I, op, a[0], a[1])
    elif name in N.BINF:
        g = N.BINF[name]
        f = lambda I, a, k: N.map2(I, a[0], a[1], g)
    elif name in N.BINB:
        op = N.BINB[name]
        f = lambda I, a, k: N.compare(I, op, anyarr(I, a[0]), a[1])
    elif name in N.BINL:
        g = N.BINL[name]
        f = lambda I, a, k: N.map2(I, a[0], a[1], g, "bool")
    elif name.endswith(".reduce"):
        b = {"add": N.rsum, "multiply": N.rprod, "maximum": N.rmax, "minimum": N.rmin, "logical_and": N.rall, "logical_or": N.rany}.get(name[:-7])
        if b is not None:
            dt = "bool" if "logical" in name else (lambda d: "int" if d == "bool" else d)
            f = lambda I, a, k: N.reduce_(I, a[0], b, arg(a, k, 1, "axis", 0), k.get("keepdims", False), dt)
    elif name.endswith(".outer"):
        op = N.BIN.get(name[:-6])
        if op is not None:
            def f(I, a, k):
                x, y = A(I, a[0]), A(I, a[1])
                if isinstance(x, Top) or isinstance(y, Top):
                    return Top("outer")
                return N.binary(I, op, N.reshape(I, x, x.shape + (1,) * len(y.shape)), y)
    if f is not None:
        UNGEN[name] = f
    return f


def anyarr(I, v):
    return v if isinstance(v, (Arr, MaskSel)) else A(I, v)


def binop_np(I, op, a, b):
    if op == "MatMult":
        return N.matmul(I, a, b)
    r = N.binary(I, op, anyarr(I, a), b)
    return scalarise(I, r)


def scalarise(I, r):
    if isinstance(r, Arr) and r.shape == () and r.dtype != "object":
        return Sc(N.elems(I, r)[0], N.sctype(r.dtype))
    return r


@np_("array", "asarray", "ascontiguousarray", "asanyarray", "asfarray", "asarray_chkfinite", "require", "copy", "atleast_1d_copy")
def np_array(I, args, kw, copy=True):
    dt = N.parse_dtype(arg(args, kw, 1, "dtype"))
    return N.asarr(I, args[0] if args else kw.get("object", kw.get("a")), dt, copy=True)


def np_asarray(I, args, kw):
    dt = N.parse_dtype(arg(args, kw, 1, "dtype"))
    return N.asarr(I, args[0], dt, copy=False)


def np_array_real(I, args, kw):
    dt = N.parse_dtype(arg(args, kw, 1, "dtype"))
    cp = kw.get("copy", True)
    r = N.asarr(I, args[0] if args else kw.get("object", kw.get("a")), dt, copy=cp is True)
    nd = kw.get("ndmin")
    if isinstance(nd, int) and isinstance(r, Arr):
        r = N.atleast(I, r, nd) if nd < 2 else (r if len(r.shape) >= nd else N.reshape(I, r, (1,) * (nd - len(r.shape)) + r.shape))
    return r


REG["numpy.array"] = np_array_real
REG["numpy.copy"] = lambda I, a, k: N.asarr(I, a[0], None, copy=True)
REG["numpy.asarray"] = REG["numpy.ascontiguousarray"] = REG["numpy.asanyarray"] = REG["numpy.require"] = np_asarray
REG["numpy.asfarray"] = lambda I, a, k: N.asarr(I, a[0], "float")
REG["numpy.ascontiguousarray"] = np_asarray


def shape_arg(I, s):
    if isnum(s):
        s = (s,)
    if isinstance(s, (Ref, Arr)):
        s = tuple(I.iterate(s))
    if isinstance(s, Top) or not isinstance(s, tuple):
        return None
    out = []
    for x in s:
        x = I.index_int(x)
        if isinstance(x, Sc) or not isinstance(x, int):
            return None
        out.append(x)
    if any(x < 0 for x in out):
        I.raise_("ValueError", "negative dimensions are not allowed")
    return tuple(out)


def filled(val):
    def f(I, args, kw):
        sh = shape_arg(I, arg(args, kw, 0, "shape"))
        if sh is None or N.size(sh) > 200000:
            return Top("array of unknown shape")
        dt = N.parse_dtype(arg(args, kw, 1, "dtype")) or "float"
        v = val() if callable(val) else val
        if dt == "object":
            return N.new(I, [0 if val is T.ZERO else (1 if val is T.ONE else None)] * N.size(sh), sh, dt)
        return N.new(I, [N.cast_term(val() if callable(val) else val, dt) for _ in range(N.size(sh))], sh, dt)
    return f


def uninit():
    return unkterm("uninitialised")


REG["numpy.zeros"] = filled(T.ZERO)
REG["numpy.ones"] = filled(T.ONE)
REG["numpy.empty"] = filled(uninit)


@np_("full")
def np_full(I, args, kw):
    sh = shape_arg(I, arg(args, kw, 0, "shape"))
    v = N.asarr(I, arg(args, kw, 1, "fill_value"), N.parse_dtype(arg(args, kw, 2, "dtype")))
    if sh is None or isinstance(v, Top):
        return Top("full")
    e = N.elems(I, v)
    if N.bshape(I, v.shape, sh) != sh:
        I.raise_("ValueError", "could not broadcast")
    return N.new(I, [e[i] for i in N.bidx(v.shape, sh)], sh, v.dtype)


def like(val):
    def f(I, args, kw):
        a = A(I, args[0])
        if isinstance(a, Top):
            return a
        dt = N.parse_dtype(kw.get("dtype", args[1] if len(args) > 1 and val != "full" else None)) or a.dtype
        if val == "full":
            x = N.asarr(I, arg(args, kw, 1, "fill_value"), dt)
            if isinstance(x, Top):
                return x
            e = N.elems(I, x)
            return N.new(I, [e[i] for i in N.bidx(x.shape, a.shape)], a.shape, dt)
        v = {"zeros": T.ZERO, "ones": T.ONE, "empty": None}[val]
        es = [N.cast_term(v, dt) if v is not None else (unkbool("u") if dt == "bool" else unkterm("uninitialised")) for _ in a.idx]
        return N.new(I, es, a.shape, dt)
    return f


REG["numpy.zeros_like"] = like("zeros")
REG["numpy.ones_like"] = like("ones")
REG["numpy.empty_like"] = like("empty")
REG["numpy.full_like"] = like("full")


@np_("eye", "identity")
def np_eye(I, args, kw):
    n = I.index_int(args[0])
    m = I.index_int(arg(args, kw, 1, "M", n)) if len(args) > 1 and isnum(args[1]) else n
    if not isinstance(n, int) or not isinstance(m, int):
        return Top("eye")
    return N.new(I, [T.ONE if i == j else T.ZERO for i in range(n) for j in range(m)], (n, m), "float")


def cnum(v):
    """python number of a constant scalar"""
    if isinstance(v, Sc):
        c = T.cval(v.t)
        return None if c is None else c
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, (int, float)):
        return v
    return None


def gridterm(x):
    """named constant: keeps its identity through arithmetic so that a sampled function can be recovered"""
    if float(x) == int(x):
        return const(int(x))
    return T.named("grid:%r" % float(x), float(x))


@np_("arange")
def np_arange(I, args, kw):
    dt = N.parse_dtype(kw.get("dtype"))
    a = list(args)
    if len(a) == 1:
        a = [0] + a
    if len(a) == 2:
        a.append(kw.get("step", 1))
    a = a[:3]
    if any(not isnum(x) for x in a):
        return Top("arange")
    isfloat = any("float" in tyof(x) for x in a)
    c = [cnum(x) for x in a]
    if None in c:
        # symbolic start with known count is not recoverable in general
        if c[2] is not None and float(c[2]) != 0:
            n = T.div(T.sub(term(a[1]), term(a[0])), term(a[2]))
            cn = T.cval(n)
            if cn is not None:
                k = max(0, math.ceil(cn))
                return N.new(I, [T.add(T.num(term(a[0])), const(i * c[2])) for i in range(k)], (k,), dt or ("float" if isfloat else "int"))
        return Top("arange of symbolic bounds")
    f0, f1, fs = (float(x) for x in c)
    if fs == 0:
        I.raise_("ZeroDivisionError", "division by zero")
    k = max(0, math.ceil((f1 - f0) / fs))
    if k > 100000:
        return Top("large arange")
    if isfloat:
        return N.new(I, [gridterm(f0 + i * fs) for i in range(k)], (k,), dt or "float")
    return N.new(I, [const(int(c[0]) + i * int(c[2])) for i in range(k)], (k,), dt or "int")


@np_("linspace")
def np_linspace(I, args, kw):
    n = I.index_int(arg(args, kw, 2, "num", 50))
    ep = kw.get("endpoint", args[3] if len(args) > 3 else True)
    a, b = args[0], arg(args, kw, 1, "stop")
    if not isinstance(n, int) or not isnum(a) or not isnum(b):
        return Top("linspace")
    if n > 100000:
        return Top("large linspace")
    d = n - 1 if ep else n
    ca, cb = cnum(a), cnum(b)
    if ca is not None and cb is not None:
        es = [gridterm(float(ca) + i * (float(cb) - float(ca)) / d if d else float(ca)) for i in range(n)]
        if ep and n > 1:
            es[-1] = gridterm(float(cb))
    else:
        ta, tb = T.num(term(a)), T.num(term(b))
        es = []
        for i in range(n):
            if i == 0:
                es.append(ta)
            elif i == d:
                es.append(tb)
            else:
                es.append(T.add(ta, T.mul(const(const(i).args[0] / d), T.sub(tb, ta))))
    r = N.new(I, es, (n,), "float")
    if kw.get("retstep"):
        return Top("linspace retstep")
    dt = N.parse_dtype(kw.get("dtype"))
    return N.astype(I, r, dt) if dt else r


@np_("meshgrid")
def np_meshgrid(I, args, kw):
    xs = [A(I, a) for a in args]
    if any(isinstance(x, Top) for x in xs):
        return Top("meshgrid")
    xs = [N.reshape(I, x, (-1,)) for x in xs]
    ij = kw.get("indexing", "xy") == "ij"
    n = len(xs)
    dims = [len(x.idx) for x in xs]
    order = list(range(n))
    if not ij and n >= 2:
        order[0], order[1] = 1, 0
    sh = tuple(dims[o] for o in order)
    out = []
    for k, x in enumerate(xs):
        pos = order.index(k)
        s = tuple(dims[k] if p == pos else 1 for p in range(n))
        e = N.elems(I, x)
        out.append(N.new(I, [e[i] for i in N.bidx(s, sh)], sh, x.dtype))
    return I.newlist(out)


@np_("vstack", "row_stack")
def np_vstack(I, args, kw):
    seq = [A(I, x) for x in I.iterate(args[0])]
    if any(isinstance(x, Top) for x in seq):
        return Top("vstack")
    seq = [N.reshape(I, x, (1, -1)) if len(x.shape) < 2 else x for x in seq]
    return N.concat(I, tuple(seq), 0)


@np_("hstack")
def np_hstack(I, args, kw):
    seq = [A(I, x) for x in I.iterate(args[0])]
    if any(isinstance(x, Top) for x in seq):
        return Top("hstack")
    seq = [N.reshape(I, x, (1,)) if len(x.shape) < 1 else x for x in seq]
    return N.concat(I, tuple(seq), 0 if len(seq[0].shape) == 1 else 1)


@np_("dstack")
def np_dstack(I, args, kw):
    seq = [A(I, x) for x in I.iterate(args[0])]
    if any(isinstance(x, Top) for x in seq):
        return Top("dstack")
    o = []
    for x in seq:
        if len(x.shape) == 0:
            x = N.reshape(I, x, (1, 1, 1))
        elif len(x.shape) == 1:
            x = N.reshape(I, x, (1, -1, 1))
        elif len(x.shape) == 2:
            x = N.reshape(I, x, x.shape + (1,))
        o.append(x)
    return N.concat(I, tuple(o), 2)


@np_("column_stack")
def np_column_stack(I, args, kw):
    seq = [A(I, x) for x in I.iterate(args[0])]
    if any(isinstance(x, Top) for x in seq):
        return Top("column_stack")
    seq = [N.reshape(I, x, (-1, 1)) if len(x.shape) < 2 else x for x in seq]
    return N.concat(I, tuple(seq), 1)


@np_("concatenate")
def np_concatenate(I, args, kw):
    ax = arg(args, kw, 1, "axis", 0)
    seq = args[0]
    seq = tuple(I.clean(x) for x in I.iterate(seq))
    if any(isinstance(x, (Top, MaskSel, Phi)) for x in seq):
        return Top("concatenate")
    if ax is None:
        seq = tuple(N.reshape(I, A(I, x), (-1,)) for x in seq)
        ax = 0
    return N.concat(I, seq, ax)


@np_("stack")
def np_stack(I, args, kw):
    seq = tuple(I.clean(x) for x in I.iterate(args[0]))
    if any(isinstance(x, (Top, MaskSel, Phi)) for x in seq):
        return Top("stack")
    return N.stack(I, seq, arg(args, kw, 1, "axis", 0))


@np_("append")
def np_append(I, args, kw):
    ax = arg(args, kw, 2, "axis")
    seq = [A(I, args[0]), A(I, args[1])]
    if any(isinstance(x, Top) for x in seq):
        return Top("append")
    if ax is None:
        seq = [N.reshape(I, x, (-1,)) for x in seq]
        ax = 0
    return N.concat(I, tuple(seq), ax)


@np_("where")
def np_where(I, args, kw):
    if len(args) == 1:
        return np_nonzero(I, args, kw)
    c, x, y = (A(I, a) for a in args)
    if any(isinstance(v, Top) for v in (c, x, y)):
        return Top("where")
    if "object" in (x.dtype, y.dtype):
        return Top("where of objects")
    (ec, ex, ey), sh = N.bcast(I, [c, x, y])
    wx, wy = args[1], args[2]
    dt = N.result_dtype_pair(I, wx, wy) if hasattr(N, "result_dtype_pair") else N.promote(x.dtype, y.dtype)
    return N.wrap(I, [T.ite(I.decide(N._b(p)), q, r) for p, q, r in zip(ec, ex, ey)], sh, dt) if sh != () else \
        N.new(I, [T.ite(I.decide(N._b(ec[0])), ex[0], ey[0])], (), dt)


@np_("nonzero", "flatnonzero", "argwhere")
def np_nonzero(I, args, kw):
    a = A(I, args[0])
    if isinstance(a, Top) or a.dtype == "object":
        return Top("nonzero")
    es = [I.decide(N._b(e)) for e in N.elems(I, a)]
    if any(e.op not in ("true", "false") for e in es) or len(a.shape) != 1:
        return Top("nonzero of symbolic mask")
    k = [i for i, e in enumerate(es) if e.op == "true"]
    return (N.new(I, [const(i) for i in k], (len(k),), "int"),)


@np_("squeeze")
def np_squeeze(I, args, kw):
    a = A(I, args[0])
    if isinstance(a, Top):
        return a
    ax = arg(args, kw, 1, "axis")
    if ax is None:
        sh = tuple(s for s in a.shape if s != 1)
    else:
        axes = N.norm_axes(I, ax, len(a.shape))
        for x in axes:
            if a.shape[x] != 1:
                I.raise_("ValueError", "cannot select an axis to squeeze out which has size not equal to one")
        sh = tuple(s for i, s in enumerate(a.shape) if i not in axes)
    return Arr(a.buf, a.idx, sh, a.dtype)


@np_("expand_dims")
def np_expand_dims(I, args, kw):
    a = A(I, args[0])
    if isinstance(a, Top):
        return a
    ax = arg(args, kw, 1, "axis")
    nd = len(a.shape) + (len(ax) if isinstance(ax, tuple) else 1)
    axes = N.norm_axes(I, ax, nd)
    it = iter(a.shape)
    return Arr(a.buf, a.idx, tuple(1 if i in axes else next(it) for i in range(nd)), a.dtype)


REG["numpy.ravel"] = lambda I, a, k: (lambda x: x if isinstance(x, Top) else N.reshape(I, x, (-1,)))(A(I, a[0]))


@np_("reshape")
def np_reshape(I, args, kw):
    a = A(I, args[0])
    sh = arg(args, kw, 1, "newshape", kw.get("shape"))
    if isnum(sh):
        sh = (sh,)
    if isinstance(sh, Ref):
        sh = tuple(I.iterate(sh))
    if isinstance(a, Top) or isinstance(sh, Top):
        return Top("reshape")
    return N.reshape(I, a, sh)


@np_("transpose", "permute_dims")
def np_transpose(I, args, kw):
    a = A(I, args[0])
    if isinstance(a, Top):
        return a
    ax = arg(args, kw, 1, "axes")
    if isinstance(ax, Ref):
        ax = tuple(I.iterate(ax))
    return N.transpose(I, a, ax)


@np_("swapaxes")
def np_swapaxes(I, args, kw):
    a = A(I, args[0])
    if isinstance(a, Top):
        return a
    i, j = N.norm_axes(I, (args[1], args[2]), len(a.shape))
    p = list(range(len(a.shape)))
    p[i], p[j] = p[j], p[i]
    return N.transpose(I, a, tuple(p))


@np_("moveaxis", "rollaxis")
def np_moveaxis(I, args, kw):
    a = A(I, args[0])
    if isinstance(a, Top) or not isnum(args[1]):
        return Top("moveaxis")
    nd = len(a.shape)
    i, j = N.norm_axes(I, (args[1], args[2]), nd)
    p = [k for k in range(nd) if k != i]
    p.insert(j, i)
    return N.transpose(I, a, tuple(p))


def flip_axis(I, a, axes):
    key = tuple(slice(None, None, -1) if k in axes else slice(None) for k in range(len(a.shape)))
    return N.getitem(I, a, key)


@np_("flip", "flipud", "fliplr")
def np_flip(I, args, kw):
    a = A(I, args[0])
    if isinstance(a, Top):
        return a
    return flip_axis(I, a, N.norm_axes(I, arg(args, kw, 1, "axis"), len(a.shape)))


REG["numpy.flipud"] = lambda I, a, k: np_flip(I, [a[0], 0], {})
REG["numpy.fliplr"] = lambda I, a, k: np_flip(I, [a[0], 1], {})


@np_("roll")
def np_roll(I, args, kw):
    a = A(I, args[0])
    s = I.index_int(arg(args, kw, 1, "shift"))
    ax = arg(args, kw, 2, "axis")
    if isinstance(a, Top) or not isinstance(s, int):
        return Top("roll")
    if ax is None:
        e = N.elems(I, a)
        n = len(e)
        return N.new(I, [e[(i - s) % n] for i in range(n)], a.shape, a.dtype)
    ax = N.norm_axes(I, ax, len(a.shape))[0]
    n = a.shape[ax]
    idx = N.new(I, [const((i - s) % n) for i in range(n)], (n,), "int")
    return N.getitem(I, a, tuple([slice(None)] * ax + [idx]))


@np_("tile")
def np_tile(I, args, kw):
    a = A(I, args[0])
    r = shape_arg(I, arg(args, kw, 1, "reps"))
    if isinstance(a, Top) or r is None:
        return Top("tile")
    nd = max(len(r), len(a.shape))
    r = (1,) * (nd - len(r)) + r
    a = N.reshape(I, a, (1,) * (nd - len(a.shape)) + a.shape)
    for ax, k in enumerate(r):
        if k != 1:
            a = N.concat(I, tuple([a] * k), ax)
    return N.asarr(I, a, None, copy=True)


@np_("repeat")
def np_repeat(I, args, kw):
    a = A(I, args[0])
    k = I.index_int(arg(args, kw, 1, "repeats")) if isnum(arg(args, kw, 1, "repeats")) else None
    ax = arg(args, kw, 2, "axis")
    if isinstance(a, Top) or not isinstance(k, int):
        return Top("repeat")
    if ax is None:
        e = N.elems(I, a)
        return N.new(I, [x for x in e for _ in range(k)], (len(e) * k,), a.dtype)
    ax = N.norm_axes(I, ax, len(a.shape))[0]
    idx = N.new(I, [const(i) for i in range(a.shape[ax]) for _ in range(k)], (a.shape[ax] * k,), "int")
    return N.getitem(I, a, tuple([slice(None)] * ax + [idx]))


@np_("clip")
def np_clip(I, args, kw):
    r = args[0]
    lo = arg(args, kw, 1, "a_min", kw.get("min"))
    hi = arg(args, kw, 2, "a_max", kw.get("max"))
    if lo is not None:
        r = N.map2(I, r, lo, N._max2)
    if hi is not None:
        r = N.map2(I, r, hi, N._min2)
    return r


@np_("diff")
def np_diff(I, args, kw):
    a = A(I, args[0])
    if isinstance(a, Top):
        return a
    n = arg(args, kw, 1, "n", 1)
    ax = N.norm_axes(I, arg(args, kw, 2, "axis", -1), len(a.shape))[0]
    for _ in range(n):
        k1 = tuple([slice(None)] * ax + [slice(1, None)])
        k0 = tuple([slice(None)] * ax + [slice(None, -1)])
        a = N.binary(I, "Sub", N.getitem(I, a, k1), N.getitem(I, a, k0))
    return a


@np_("cumsum")
def np_cumsum(I, args, kw):
    a = A(I, args[0])
    if isinstance(a, Top):
        return a
    ax = arg(args, kw, 1, "axis")
    if ax is None or len(a.shape) == 1:
        out, acc = [], None
        for e in N.elems(I, a):
            e = T.num(e)
            acc = e if acc is None else T.add(acc, e)
            out.append(acc)
        return N.new(I, out, (len(out),), "int" if a.dtype == "bool" else a.dtype)
    return Top("cumsum")


def close_term(a, b, rtol, atol):
    d = T.fn("abs", T.sub(a, b))
    return T.le(d, T.add(atol, T.mul(rtol, T.fn("abs", b))))


@np_("isclose")
def np_isclose(I, args, kw):
    rtol = term(arg(args, kw, 2, "rtol", 1e-5))
    atol = term(arg(args, kw, 3, "atol", 1e-8))
    return N.map2(I, args[0], args[1], lambda a, b: close_term(T.num(a), T.num(b), rtol, atol), "bool")


@np_("allclose")
def np_allclose(I, args, kw):
    r = np_isclose(I, args, kw)
    return REG["numpy.all"](I, [r], {})


@np_("array_equal")
def np_array_equal(I, args, kw):
    a, b = A(I, args[0]), A(I, args[1])
    if isinstance(a, Top) or isinstance(b, Top) or "object" in (a.dtype, b.dtype):
        return Top("array_equal")
    if a.shape != b.shape:
        return False
    r = TRUE
    for x, y in zip(N.elems(I, a), N.elems(I, b)):
        r = T.land(r, T.eqn(T.num(x), T.num(y)))
    return mkscalar(I.decide(r), "bool")


@np_("nan_to_num")
def np_nan_to_num(I, args, kw):
    v = term(kw.get("nan", 0.0))
    return N.map1(I, args[0], lambda t: T.ite(T.isnan(t), v, t))


@np_("round", "around", "round_")
def np_round(I, args, kw):
    d = arg(args, kw, 1, "decimals", 0)
    if not isinstance(d, int):
        return Top("round")
    p = const(10 ** d) if d >= 0 else T.div(T.ONE, const(10 ** -d))
    return N.map1(I, args[0], lambda t: T.div(T.fn("round", T.mul(t, p)), p), "keep")


def red(f, name, dt=None):
    def g(I, args, kw):
        v = args[0] if args else kw.get("a")
        ax = arg(args, kw, 1, "axis")
        if isinstance(v, MaskSel):
            return N.masksel_reduce(I, name, v) if ax is None or (ax in (0, -1) and not v.rest) else Top(name)
        if isinstance(v, Iter):
            v = tuple(v.items)
        a = A(I, v)
        if isinstance(a, Top):
            return a
        if a.dtype == "object":
            if f in (N.rsum, N.rall, N.rany):
                es = N.elems(I, a)
                if all(isnum(x) for x in es):
                    a = N.new(I, [term(x) for x in es], a.shape, "float")
                elif f in (N.rall, N.rany):
                    a = N.new(I, [I.truth(x) for x in es], a.shape, "bool")
                else:
                    return Top(name)
            else:
                return Top(name)
        if name in ("min", "max") and N.size(a.shape) == 0:
            I.raise_("ValueError", "zero-size array to reduction operation which has no identity")
        if isinstance(ax, Ref):
            ax = tuple(I.iterate(ax))
        return N.reduce_(I, a, f, ax, kw.get("keepdims", False), dt or (lambda d: "int" if d in ("bool", "uint8") and name in ("sum", "prod", "nansum") else d))
    return g


REG["numpy.sum"] = red(N.rsum, "sum")
REG["numpy.prod"] = REG["numpy.product"] = red(N.rprod, "prod")
REG["numpy.min"] = REG["numpy.amin"] = red(N.rmin, "min")
REG["numpy.max"] = REG["numpy.amax"] = red(N.rmax, "max")
REG["numpy.any"] = REG["numpy.sometrue"] = red(N.rany, "any", "bool")
REG["numpy.all"] = REG["numpy.alltrue"] = red(N.rall, "all", "bool")
REG["numpy.mean"] = REG["numpy.average"] = red(N.rmean, "mean", lambda d: "float32" if d == "float32" else "float")
REG["numpy.nansum"] = red(N.rnansum, "nansum")
REG["numpy.nanmean"] = red(N.rnanmean, "nanmean", "float")
REG["numpy.nanmin"] = red(N.rnanmin, "nanmin")
REG["numpy.nanmax"] = red(N.rnanmax, "nanmax")
REG["numpy.count_nonzero"] = red(lambda xs: N.rsum([T.num(N._b(x)) for x in xs]), "count_nonzero", "int")


def rmedian(xs):
    n = len(xs)
    s = sort_net([T.num(x) for x in xs])
    return s[n // 2] if n % 2 else T.mul(const(0.5), T.add(s[n // 2 - 1], s[n // 2]))


def sort_net(xs):
    xs = list(xs)
    for i in range(len(xs)):
        for j in range(len(xs) - 1 - i):
            a, b = xs[j], xs[j + 1]
            c = T.lt(b, a)
            xs[j], xs[j + 1] = T.ite(c, b, a), T.ite(c, a, b)
    return xs


REG["numpy.median"] = red(lambda xs: rmedian(xs) if len(xs) <= 5 else unkterm("median"), "median", "float")


@np_("average")
def np_average(I, args, kw):
    w = arg(args, kw, 2, "weights")
    if w is None:
        return REG["numpy.mean"](I, args, kw)
    return Top("weighted average")


@np_("var", "nanvar")
def np_var(I, args, kw):
    dd = kw.get("ddof", 0)
    return red(lambda xs: N.rvar(xs, dd), "var", "float")(I, args, kw)


@np_("std", "nanstd")
def np_std(I, args, kw):
    dd = kw.get("ddof", 0)
    return red(lambda xs: T.fn("sqrt", N.rvar(xs, dd)), "std", "float")(I, args, kw)


@np_("ptp")
def np_ptp(I, args, kw):
    return red(lambda xs: T.sub(N.rmax(xs), N.rmin(xs)), "ptp")(I, args, kw)


for _n, _less, _nan in (("argmin", T.lt, False), ("argmax", lambda a, b: T.lt(b, a), False), ("nanargmin", T.lt, True),
                        ("nanargmax", lambda a, b: T.lt(b, a), True)):
    REG["numpy." + _n] = (lambda n, l, na: lambda I, a, k: N.argreduce(I, a[0], arg(a, k, 1, "axis"), l, na, n))(_n, _less, _nan)


@np_("ndim")
def np_ndim(I, args, kw):
    a = A(I, args[0])
    return a if isinstance(a, Top) else len(a.shape)


@np_("shape")
def np_shape(I, args, kw):
    a = A(I, args[0])
    return a if isinstance(a, Top) else a.shape


@np_("size")
def np_size(I, args, kw):
    a = A(I, args[0])
    if isinstance(a, Top):
        return a
    ax = arg(args, kw, 1, "axis")
    return len(a.idx) if ax is None else a.shape[ax]


@np_("isscalar")
def np_isscalar(I, args, kw):
    return isnum(args[0]) or isinstance(args[0], (str, StrT))


REG["numpy.iterable"] = lambda I, a, k: isinstance(a[0], (tuple, str, Iter, KeysView)) or isinstance(a[0], Arr) and a[0].shape != () or \
    isinstance(a[0], Ref) and a[0].kind != "obj"


@np_("broadcast_to")
def np_broadcast_to(I, args, kw):
    a = A(I, args[0])
    sh = shape_arg(I, arg(args, kw, 1, "shape"))
    if isinstance(a, Top) or sh is None:
        return Top("broadcast_to")
    return N.broadcast_to(I, a, sh)


@np_("broadcast_arrays")
def np_broadcast_arrays(I, args, kw):
    xs = [A(I, a) for a in args]
    if any(isinstance(x, Top) for x in xs):
        return Top("broadcast_arrays")
    sh = N.bshape(I, *[x.shape for x in xs])
    return tuple(N.broadcast_to(I, x, sh) for x in xs)


REG["numpy.broadcast_shapes"] = lambda I, a, k: N.bshape(I, *[shape_arg(I, x) for x in a])
REG["numpy.atleast_1d"] = lambda I, a, k: N.atleast(I, a[0], 1) if len(a) == 1 else I.newlist([N.atleast(I, x, 1) for x in a])
REG["numpy.atleast_2d"] = lambda I, a, k: N.atleast(I, a[0], 2) if len(a) == 1 else I.newlist([N.atleast(I, x, 2) for x in a])
REG["numpy.atleast_3d"] = lambda I, a, k: N.atleast(I, a[0], 3)
REG["numpy.dot"] = lambda I, a, k: N.dot(I, a[0], a[1])
REG["numpy.vdot"] = lambda I, a, k: N.dot(I, REG["numpy.ravel"](I, [a[0]], {}), REG["numpy.ravel"](I, [a[1]], {}))
REG["numpy.matmul"] = lambda I, a, k: N.matmul(I, a[0], a[1])
REG["numpy.inner"] = lambda I, a, k: N.inner(I, a[0], a[1])
REG["numpy.einsum"] = lambda I, a, k: N.einsum(I, a)
REG["numpy.cross"] = lambda I, a, k: N.cross(I, a[0], a[1]) if not k or all(k.get(x, -1) == -1 for x in ("axis", "axisa", "axisb", "axisc")) else Top("cross axis")
REG["numpy.linalg.norm"] = lambda I, a, k: N.norm(I, a[0], arg(a, k, 1, "ord"), arg(a, k, 2, "axis"), arg(a, k, 3, "keepdims", False))
REG["numpy.linalg.inv"] = lambda I, a, k: N.linalg_inv(I, a[0])
REG["numpy.linalg.solve"] = lambda I, a, k: N.linalg_solve(I, a[0], a[1])
REG["numpy.linalg.cross"] = REG["numpy.cross"]


@np_("linalg.multi_dot")
def np_multi_dot(I, args, kw):
    xs = I.iterate(args[0])
    r = xs[0]
    for x in xs[1:]:
        r = N.dot(I, r, x)
    return r


@np_("linalg.matrix_power")
def np_matrix_power(I, args, kw):
    n = args[1]
    if not isinstance(n, int) or not 0 < n < 6:
        return Top("matrix_power")
    r = args[0]
    for _ in range(n - 1):
        r = N.matmul(I, r, args[0])
    return r


@np_("linalg.det")
def np_det(I, args, kw):
    a = A(I, args[0])
    if isinstance(a, Top):
        return a
    n = a.shape[-1]
    es = [T.num(e) for e in N.elems(I, a)]
    out = []
    for k in range(N.size(a.shape[:-2])):
        b = es[k * n * n:(k + 1) * n * n]
        out.append(N.det_terms([b[i * n:(i + 1) * n] for i in range(n)]))
    return N.wrap(I, out, a.shape[:-2], "float")


@np_("outer")
def np_outer(I, args, kw):
    x, y = A(I, args[0]), A(I, args[1])
    if isinstance(x, Top) or isinstance(y, Top):
        return Top("outer")
    return N.binary(I, "Mult", N.reshape(I, x, (-1, 1)), N.reshape(I, y, (1, -1)))


@np_("tensordot")
def np_tensordot(I, args, kw):
    x, y = A(I, args[0]), A(I, args[1])
    ax = arg(args, kw, 2, "axes", 2)
    if isinstance(x, Top) or isinstance(y, Top):
        return Top("tensordot")
    if isinstance(ax, int):
        n = ax
        ax1, ax2 = list(range(len(x.shape) - n, len(x.shape))), list(range(n))
    else:
        p = I.iterate(ax)
        ax1 = [p[0]] if isnum(p[0]) else I.iterate(p[0])
        ax2 = [p[1]] if isnum(p[1]) else I.iterate(p[1])
    ax1 = N.norm_axes(I, tuple(ax1), len(x.shape))
    ax2 = N.norm_axes(I, tuple(ax2), len(y.shape))
    letters = "abcdefghijklmnopqrstuvwxyz"
    lx = list(letters[:len(x.shape)])
    ly = list(letters[len(x.shape):len(x.shape) + len(y.shape)])
    for i, j in zip(ax1, ax2):
        ly[j] = lx[i]
    o = [c for k, c in enumerate(lx) if k not in ax1] + [c for k, c in enumerate(ly) if k not in ax2]
    return N.einsum(I, ["%s,%s->%s" % ("".join(lx), "".join(ly), "".join(o)), x, y])


@np_("diag", "diagonal")
def np_diag(I, args, kw):
    a = A(I, args[0])
    if isinstance(a, Top):
        return a
    e = N.elems(I, a)
    if len(a.shape) == 1:
        n = len(e)
        z = T.ZERO
        return N.new(I, [e[i] if i == j else z for i in range(n) for j in range(n)], (n, n), a.dtype)
    n = min(a.shape)
    return N.new(I, [e[i * a.shape[1] + i] for i in range(n)], (n,), a.dtype)


@np_("trace")
def np_trace(I, args, kw):
    a = A(I, args[0])
    if isinstance(a, Top) or len(a.shape) != 2:
        return Top("trace")
    e = N.elems(I, a)
    return Sc(N.rsum([e[i * a.shape[1] + i] for i in range(min(a.shape))]), N.sctype(a.dtype))


@np_("take")
def np_take(I, args, kw):
    a = A(I, args[0])
    ix = arg(args, kw, 1, "indices")
    ax = arg(args, kw, 2, "axis")
    if isinstance(a, Top):
        return a
    if not isnum(ix):
        ix = A(I, ix)
    if ax is None:
        return N.getitem(I, N.reshape(I, a, (-1,)), ix)
    ax = N.norm_axes(I, ax, len(a.shape))[0]
    return N.getitem(I, a, tuple([slice(None)] * ax + [ix]))


@np_("sort")
def np_sort(I, args, kw):
    a = A(I, args[0])
    if isinstance(a, Top) or len(a.shape) != 1 or len(a.idx) > 6 or a.dtype == "object":
        return Top("sort")
    return N.new(I, sort_net([T.num(e) for e in N.elems(I, a)]), a.shape, a.dtype)


@np_("argsort")
def np_argsort(I, args, kw):
    a = A(I, args[0])
    if isinstance(a, Top) or len(a.shape) != 1:
        return Top("argsort")
    c = [T.cval(e) for e in N.elems(I, a)]
    if None in c:
        return Top("argsort")
    o = sorted(range(len(c)), key=lambda i: c[i])
    return N.new(I, [const(i) for i in o], (len(o),), "int")


@np_("copyto")
def np_copyto(I, args, kw):
    return masked_copy(I, args[0], args[1], arg(args, kw, 3, "where", True))


def masked_copy(I, dst, src, where):
    if not isinstance(dst, Arr):
        return Top("copyto")
    if where is not True:
        w, x = N.asarr(I, where), N.asarr(I, src)
        if isinstance(w, Top) or isinstance(x, Top) or "object" in (x.dtype, dst.dtype):
            N.havoc_arr(I, dst)
            return None
        src = np_where(I, [w, x, dst], {})
    N.setitem(I, dst, Ellipsis, src)
    return None


@np_("putmask", "place")
def np_putmask(I, args, kw):
    v = N.asarr(I, args[2])
    if not isinstance(args[0], Arr):
        return Top("putmask")
    if isinstance(v, Top) or not all(k == 1 for k in v.shape):
        N.havoc_arr(I, args[0])
        return None
    return masked_copy(I, args[0], N.reshape(I, v, ()), args[1])


@np_("select")
def np_select(I, args, kw):
    conds, choices = I.iterate(args[0]), I.iterate(args[1])
    r = arg(args, kw, 2, "default", 0)
    if len(conds) != len(choices):
        I.raise_("ValueError", "list of cases must be same length as list of conditions")
    for c, x in reversed(list(zip(conds, choices))):
        r = np_where(I, [c, x, r], {})
        if isinstance(r, Top):
            return r
    return r


@np_("fromiter")
def np_fromiter(I, args, kw):
    kw = dict(kw)
    kw.pop("count", None)
    return REG["numpy.array"](I, [tuple(I.iterate(args[0]))] + list(args[1:2]), kw)


@np_("reciprocal")
def np_reciprocal(I, args, kw):
    a = A(I, args[0])
    if isinstance(a, Top) or a.dtype != "float":
        return Top("reciprocal")
    return binop_np(I, "Div", 1.0, args[0])


@np_("linalg.det")
def np_det(I, args, kw):
    a = A(I, args[0])
    if isinstance(a, Top):
        return a
    if len(a.shape) < 2 or a.shape[-1] != a.shape[-2]:
        I.raise_("LinAlgError", "Last 2 dimensions of the array must be square")
    if a.shape[-1] > 4:
        return Top("determinant of a large matrix")
    return N.wrap(I, [N.inv_terms(m)[1] for m in N.mats(I, a)], a.shape[:-2], "float")


@np_("delete")
def np_delete(I, args, kw):
    a, ax, k = A(I, args[0]), arg(args, kw, 2, "axis"), args[1]
    if isinstance(a, Top):
        return a
    if ax is None:
        a, ax = N.reshape(I, a, (-1,)), 0
    if isinstance(k, bool) or not isinstance(k, int) or not isinstance(ax, int):
        return Top("delete")
    ax = ax % len(a.shape)
    n = a.shape[ax]
    if not -n <= k < n:
        I.raise_("IndexError", "index is out of bounds for axis")
    k %= n
    lead = (slice(None),) * ax
    return N.concat(I, (N.getitem(I, a, lead + (slice(0, k),)), N.getitem(I, a, lead + (slice(k + 1, None),))), ax)


@np_("insert")
def np_insert(I, args, kw):
    a, ax, k = A(I, args[0]), arg(args, kw, 3, "axis"), args[1]
    v = A(I, args[2])
    if isinstance(a, Top) or isinstance(v, Top) or "object" in (a.dtype, v.dtype):
        return Top("insert")
    if ax is None:
        a, ax = N.reshape(I, a, (-1,)), 0
    if isinstance(k, bool) or not isinstance(k, int) or not isinstance(ax, int) or len(v.shape) > 1:
        return Top("insert")
    ax = ax % len(a.shape)
    n = a.shape[ax]
    one = all(d == 1 for d in v.shape)
    row = len(v.shape) == 1 and len(a.shape) == 2 and ax == 0
    if not -n <= k <= n or not (one or row) or n == 0 or a.dtype != "float" or v.dtype not in ("float", "int"):
        return Top("insert")
    k = k + n if k < 0 else k
    lead = (slice(None),) * ax
    part = N.getitem(I, a, lead + (slice(0, 1),))
    (_, new), sh = N.bcast(I, [part, N.reshape(I, v, ()) if one else v])
    if sh != part.shape:
        return Top("insert")
    new = N.wrap(I, list(new), sh, "float")
    return N.concat(I, (N.getitem(I, a, lead + (slice(0, k),)), new, N.getitem(I, a, lead + (slice(k, None),))), ax)


@np_("vectorize")
def np_vectorize(I, args, kw):
    f = args[0]

    def g(I, a, k):
        xs = [A(I, x) for x in a]
        if any(isinstance(x, Top) for x in xs) or k:
            return Top("vectorize")
        es, sh = N.bcast(I, xs)
        out = [I.call(f, [Sc(e, N.sctype(x.dtype)) for e, x in zip(t, xs)], {}) for t in zip(*es)]
        return scal(I, N.reshape(I, A(I, tuple(out)), sh))
    return Native(g, "vectorized")


def scal(I, r):
    return r


@np_("apply_along_axis")
def np_apply_along_axis(I, args, kw):
    f, ax, a = args[0], args[1], A(I, args[2])
    if isinstance(a, Top):
        return a
    nd = len(a.shape)
    ax = N.norm_axes(I, ax, nd)[0]
    if ax != nd - 1:
        return Top("apply_along_axis")
    k = a.shape[-1]
    rows = [I.call(f, [Arr(a.buf, a.idx[i * k:(i + 1) * k], (k,), a.dtype)] + list(args[3:]), kw) for i in range(N.size(a.shape[:-1]))]
    r = A(I, tuple(rows))
    if isinstance(r, Top):
        return r
    return N.reshape(I, r, a.shape[:-1] + r.shape[1:])


@np_("result_type", "promote_types", "can_cast", "finfo", "iinfo", "seterr", "geterr", "set_printoptions", "may_share_memory", "shares_memory")
def np_misc(I, args, kw):
    return Top("numpy misc")


class NullContext(Model):
    def enter(self, I):
        return None

    def exit(self, I):
        return None


@np_("errstate", "printoptions")
def np_errstate(I, args, kw):
    return NullContext()


REG["warnings.catch_warnings"] = np_errstate
REG["contextlib.nullcontext"] = np_errstate
REG["contextlib.suppress"] = lambda I, a, k: (_ for _ in ()).throw(Unsupported("contextlib.suppress"))


def scalar_ctor(ty, cast=None):
    def f(I, args, kw):
        v = args[0] if args else 0
        if isinstance(v, str):
            try:
                return Sc(const(float(v)), ty)
            except ValueError as e:
                I.raise_("ValueError", str(e))
        a = A(I, v)
        if isinstance(a, Top) or a.dtype == "object":
            return Top("scalar constructor")
        dt = N.dt_of_ty(ty) if cast is None else cast
        return N.wrap(I, [N.cast_term(e, dt) for e in N.elems(I, a)], a.shape, dt)
    return f


for _n in ("float64", "double", "float_"):
    REG["numpy." + _n] = scalar_ctor("npfloat")
REG["numpy.float32"] = scalar_ctor("npfloat", "float32")
for _n in ("int64", "int32", "int_", "intp", "int16"):
    REG["numpy." + _n] = scalar_ctor("npint")
REG["numpy.bool_"] = scalar_ctor("npbool")


# ---------------------------------------------------------------- random
def draws(I, n, prefix, lo, hi, integer=False):
    return [T.fresh(prefix, lo, hi, integer=integer) for _ in range(n)]


def loc_scale(I, kind, loc, scale, size, mk):
    l, s = A(I, loc), A(I, scale)
    if isinstance(l, Top) or isinstance(s, Top) or "object" in (l.dtype, s.dtype):
        return Top(kind)
    sh = N.bshape(I, l.shape, s.shape)
    if size is not None:
        sz = shape_arg(I, size)
        if sz is None:
            return Top(kind)
        if N.bshape(I, sh, sz) != sz:
            I.raise_("ValueError", "Output size %s is not compatible with broadcast dimensions" % (sz,))
        sh = sz
    el, es = N.elems(I, l), N.elems(I, s)
    il, is_ = N.bidx(l.shape, sh), N.bidx(s.shape, sh)
    out = [mk(T.num(el[i]), T.num(es[j])) for i, j in zip(il, is_)]
    I.events.append(("random", kind, tuple(sh), tuple(out)))
    if sh == () and size is None:
        return Sc(out[0], "npfloat" if False else "float")
    return N.new(I, out, sh, "float")


@np_("random.normal")
def rnd_normal(I, args, kw):
    return loc_scale(I, "normal", arg(args, kw, 0, "loc", 0.0), arg(args, kw, 1, "scale", 1.0), arg(args, kw, 2, "size"),
                     lambda l, s: T.add(l, T.mul(s, T.fresh("z", -3, 3))))


@np_("random.uniform")
def rnd_uniform(I, args, kw):
    lo = arg(args, kw, 0, "low", 0.0)
    hi = arg(args, kw, 1, "high", 1.0)
    return loc_scale(I, "uniform", lo, hi, arg(args, kw, 2, "size"), lambda l, h: T.add(l, T.mul(T.sub(h, l), T.fresh("u", 0, 1))))


BELOW_ONE = 1 - 2.0 ** -53


@np_("random.rand", "random.random", "random.random_sample", "random.sample")
def rnd_rand(I, args, kw):
    sh = tuple(args) if args and all(isnum(a) for a in args) else (args[0] if args else kw.get("size"))
    if sh is None or sh == ():
        t = T.fresh("u", 0, BELOW_ONE)
        I.events.append(("random", "rand", (), (t,)))
        return Sc(t, "float")
    sh = shape_arg(I, sh)
    if sh is None:
        return Top("rand")
    out = draws(I, N.size(sh), "u", 0, BELOW_ONE)
    I.events.append(("random", "rand", sh, tuple(out)))
    return N.new(I, out, sh, "float")


@np_("random.randn", "random.standard_normal")
def rnd_randn(I, args, kw):
    sh = shape_arg(I, tuple(args)) if args else ()
    if sh is None:
        return Top("randn")
    out = draws(I, N.size(sh), "z", -3, 3)
    I.events.append(("random", "normal", sh, tuple(out)))
    return Sc(out[0], "float") if sh == () else N.new(I, out, sh, "float")


@np_("random.randint", "random.choice_index")
def rnd_randint(I, args, kw):
    lo = arg(args, kw, 0, "low", 0)
    hi = arg(args, kw, 1, "high")
    size = arg(args, kw, 2, "size")
    if hi is None:
        lo, hi = 0, lo
    if size is not None or not isnum(lo) or not isnum(hi):
        return Top("randint")
    cl, ch = cnum(lo), cnum(hi)
    if cl is not None and ch is not None:
        if ch <= cl:
            I.raise_("ValueError", "low >= high")
        if ch - cl == 1:
            return int(cl)
        t = T.fresh("ri", int(cl), int(ch) - 1, integer=True)
    else:
        t = T.add(T.num(term(lo)), T.fn("floor", T.mul(T.fresh("u", 0, 1), T.sub(T.num(term(hi)), T.num(term(lo))))))
    I.events.append(("random", "randint", (), (t,)))
    return Sc(t, "int")


REG["numpy.random.seed"] = lambda I, a, k: None
REG["random.random"] = rnd_rand
REG["random.gauss"] = REG["random.normalvariate"] = rnd_normal
REG["random.uniform"] = rnd_uniform


# ================================================================ math
def math_call(I, name, args, kw):
    for i, a in enumerate(args):
        if isinstance(a, Phi):
            return I.lift(a, lambda x: math_call(I, name, args[:i] + [x] + args[i + 1:], kw))
    ts = []
    for a in args:
        if isinstance(a, Arr) and len(a.idx) == 1:
            a = Sc(N.elems(I, a)[0], "npfloat")
        if isinstance(a, Top):
            return a
        if not isnum(a):
            if isinstance(a, Arr) or a is None or isinstance(a, (tuple, str, Ref)):
                I.raise_("TypeError", "must be real number, not %s" % tname(a))
            return Top("math." + name)
        ts.append(T.num(term(a)))
    t = ts[0] if ts else None
    if name == "sqrt":
        I.cond_raise(T.lt(t, T.ZERO), "ValueError", "math domain error")
        return mkscalar(T.fn("sqrt", t), "float")
    if name in ("log", "log10", "log2"):
        I.cond_raise(T.le(t, T.ZERO), "ValueError", "math domain error")
        if name == "log" and len(ts) > 1:
            return mkscalar(T.div(T.fn("log", t), T.fn("log", ts[1])), "float")
        return mkscalar(N.UN[name](t), "float")
    if name in ("asin", "acos"):
        I.cond_raise(T.lt(T.ONE, T.fn("abs", t)), "ValueError", "math domain error")
        return mkscalar(T.fn(name, t), "float")
    if name == "floor":
        c = closed_floor(t)
        return c if c is not None else mkscalar(T.fn(name, t), "int")
    if name in ("ceil", "trunc"):
        return mkscalar(T.fn(name, t), "int")
    if name in ("fabs",):
        return mkscalar(T.fn("abs", t), "float")
    if name in ("isnan", "isinf", "isfinite"):
        return mkscalar(I.decide(N.UN_BOOL[name](t)), "bool")
    if name in ("atan2", "hypot", "fmod", "copysign") and len(ts) == 2:
        return mkscalar(N.BINF[name](ts[0], ts[1]), "float")
    if name == "pow":
        return mkscalar(N.power(ts[0], ts[1]), "float")
    if name in ("min", "max"):
        return Top("math")
    if name == "isclose":
        rt = term(kw.get("rel_tol", 1e-9))
        at = term(kw.get("abs_tol", 0.0))
        m = N._max2(T.fn("abs", ts[0]), T.fn("abs", ts[1]))
        return mkscalar(T.le(T.fn("abs", T.sub(ts[0], ts[1])), N._max2(T.mul(rt, m), at)), "bool")
    if N.UN.get(name) is not None:
        return mkscalar(N.UN[name](t), "float")
    return Top("math." + name)


# ================================================================ scipy
class Spline(Model):
    """interpolating spline through (F(g), G(g)) sampled at grid points g: represented by the
    inverse of the sampled function"""
    def __init__(self, body, gbody, bound):
        self.body, self.gbody, self.bound = body, gbody, bound

    def call(self, I, args, kw):
        def f(x):
            if self.body is None:
                return N.map1(I, x, lambda t: unkterm("spline"))
            return N.map1(I, x, lambda t: T.substitute(self.gbody, {self.bound: T.inv(self.body, self.bound, t)}))
        if args and isinstance(args[0], (Top,)):
            return args[0]
        a = A(I, args[0])
        if not isinstance(a, Top) and self.body is not None:
            I.events.append(("splinearg", tuple(N.elems(I, a))))
        return I.lift(args[0], f)

    def getattr(self, I, name):
        return Top("spline attribute")


def mk_spline(I, args, kw):
    y, x = args[0], args[1]
    k = arg(args, kw, 4, "k", 3)
    if isinstance(y, (Top,)) or isinstance(x, Top):
        I.events.append(("spline", None))
        return Spline(None, None, None)

    def parts(v):
        if isinstance(v, MaskSel):
            return v.elems, v.mask
        a = A(I, v)
        if isinstance(a, Top):
            return None, None
        return N.elems(I, a), [TRUE] * len(a.idx)
    ey, my = parts(y)
    ex, mx = parts(x)
    if ey is None or ex is None or len(ey) != len(ex) or any(a is not b for a, b in zip(mx, my)):
        I.events.append(("spline", None))
        return Spline(None, None, None)
    bound = T.sym("bound:r", 0.0, 2.0)
    body = gb = None
    grid = []
    ok = True
    for a, b in zip(ey, ex):
        g = [s for s in T.subterms([T.num(b)]) if s.op == "named"]
        if not g:
            c = T.cval(T.num(b))
            grid.append(None if c is None else float(c))
            continue
        if len(g) != 1:
            ok = False
            break
        grid.append(g[0].args[1])
        f1 = T.substitute(T.num(a), {g[0]: bound})
        f2 = T.substitute(T.num(b), {g[0]: bound})
        if body is None:
            body, gb = f1, f2
        elif body is not f1 or gb is not f2:
            ok = False
            break
    if not ok or body is None or None in grid:
        I.events.append(("spline", None))
        return Spline(None, None, None)
    I.events.append(("spline", body, gb, bound, tuple(grid), tuple(my), k, tuple(ey)))
    return Spline(body, gb, bound)


for _n in ("InterpolatedUnivariateSpline", "CubicSpline", "PchipInterpolator", "make_interp_spline", "Akima1DInterpolator"):
    REG["scipy.interpolate." + _n] = mk_spline
REG["scipy.interpolate.UnivariateSpline"] = lambda I, a, k: mk_spline(I, a, k) if arg(a, k, 5, "s", None) == 0 else Top("smoothing spline")
REG["scipy.interpolate.interp1d"] = lambda I, a, k: Top("interp1d")


class Dist(Model):
    def __init__(self, kind, params):
        self.kind, self.params = kind, params

    def getattr(self, I, name):
        return ExtMethod(self, name)

    def method(self, I, name, args, kw):
        return dist_call(I, self.kind, name, self.params, args, kw)


def bin_(I, op, a, b):
    r = I._binop(OPS[op], a, b)
    return r


import ast as _ast
OPS = {"Add": _ast.Add(), "Sub": _ast.Sub(), "Mult": _ast.Mult(), "Div": _ast.Div()}


def dist_params(I, kind, args, kw):
    names = {"norm": ("loc", "scale"), "uniform": ("loc", "scale"), "truncnorm": ("a", "b", "loc", "scale")}[kind]
    p = {"loc": 0, "scale": 1}
    for n, a in zip(names, args):
        p[n] = a
    for k, v in kw.items():
        if k in names:
            p[k] = v
        elif k not in ("size", "random_state"):
            I.raise_("TypeError", "unexpected keyword argument '%s'" % k)
    return p


def dist_call(I, kind, name, p, args, kw):
    if name == "rvs":
        size = kw.get("size", args[0] if args else None)
        if kind == "norm":
            r = loc_scale(I, "norm.rvs", p["loc"], p["scale"], size, lambda l, s: T.add(l, T.mul(s, T.fresh("z", -3, 3))))
        elif kind == "uniform":
            r = loc_scale(I, "uniform.rvs", p["loc"], p["scale"], size, lambda l, s: T.add(l, T.mul(s, T.fresh("u", 0, 1))))
        else:
            xs = [A(I, p[k]) for k in ("a", "b", "loc", "scale")]
            if any(isinstance(x, Top) for x in xs):
                return Top("truncnorm")
            sh = N.bshape(I, *[x.shape for x in xs])
            if size is not None:
                sz = shape_arg(I, size)
                if sz is None:
                    return Top("truncnorm")
                sh = sz
            es = [[N.elems(I, x)[i] for i in N.bidx(x.shape, sh)] for x in xs]
            out = []
            zs = []
            for a, b, l, s in zip(*es):
                z = T.fn("tsample", T.fresh("u", 0.01, 0.99), T.num(a), T.num(b))
                zs.append(z)
                out.append(T.add(T.num(l), T.mul(T.num(s), z)))
            I.events.append(("random", "truncnorm", sh, tuple(out), tuple(zip(*es)), tuple(zs)))
            r = Sc(out[0], "float") if sh == () else N.new(I, out, sh, "float")
        return r
    if name in ("logpdf", "pdf"):
        x = args[0]
        if isinstance(x, (tuple, Ref)):
            x = A(I, x)
        loc, scale = p["loc"], p["scale"]
        if kind == "norm":
            z = bin_(I, "Div", bin_(I, "Sub", anyarr(I, x), loc), scale)
            half = T.mul(const(0.5), T.fn("log", T.mul(T.TWO, T.PI)))
            sc = A(I, scale)
            if isinstance(sc, Top) or isinstance(z, Top):
                return Top("logpdf")
            r = N.map2(I, z, scale, lambda q, s: T.sub(T.sub(T.neg(T.mul(const(0.5), T.powi(q, 2))), half), T.fn("log", s)), "float")
        elif kind == "uniform":
            z = bin_(I, "Div", bin_(I, "Sub", anyarr(I, x), loc), scale)
            if isinstance(z, Top):
                return z
            r = N.map2(I, z, scale, lambda q, s: T.ite(T.isnan(q), NAN, T.ite(T.land(T.le(T.ZERO, q), T.le(q, T.ONE)), T.neg(T.fn("log", s)), T.NINF)), "float")
        else:
            return Top("truncnorm." + name)
        return r if name == "logpdf" else N.map1(I, r, lambda t: T.fn("exp", t))
    if name in ("mean", "std", "median"):
        if kind == "norm":
            return p["loc"] if name != "std" else p["scale"]
        if kind == "uniform" and name in ("mean", "median"):
            return bin_(I, "Add", p["loc"], bin_(I, "Mult", 0.5, p["scale"]))
    return Top("%s.%s" % (kind, name))


def stats_prefix(I, path, args, kw):
    rest = path[len("scipy.stats."):].split(".")
    if rest[0] in ("norm", "uniform", "truncnorm"):
        if any(isinstance(a, Top) for a in args) or any(isinstance(a, Top) for a in kw.values()):
            return Top(path)

        def go(I, args, kw):
            if len(rest) == 1:
                return Dist(rest[0], dist_params(I, rest[0], args, kw))
            if rest[1] == "rvs":
                return dist_call(I, rest[0], "rvs", dist_params(I, rest[0], args, kw), [], {k: v for k, v in kw.items() if k == "size"})
            if rest[1] in ("logpdf", "pdf"):
                return dist_call(I, rest[0], rest[1], dist_params(I, rest[0], args[1:], {k: v for k, v in kw.items() if k != "x"}), args[:1], {})
            return Top(path)
        return lifted(I, path, go, args, kw)
    return Top(path)


class OptResult(Model):
    def __init__(self, x, extra=None):
        self.x = x

    def getattr(self, I, name):
        if name == "x":
            return self.x
        return Top("optimisation result")

    def getitem(self, I, k):
        return self.x if k == "x" else Top("optimisation result")


@reg("scipy.optimize.minimize")
def opt_minimize(I, args, kw):
    fun = arg(args, kw, 0, "fun")
    x0 = A(I, arg(args, kw, 1, "x0"))
    bounds = kw.get("bounds")
    if isinstance(x0, Top):
        I.events.append(("minimize", None))
        return OptResult(Top("optimum"))
    bl = None
    if bounds is not None and not isinstance(bounds, Top):
        bl = [tuple(I.clean(y) for y in I.iterate(x)) for x in I.iterate(bounds)]
    n = len(x0.idx)
    probe = [T.sym("opt:probe%d" % i, -3, 3) for i in range(n)]
    best = [T.sym("opt:x%d" % i, -3, 3) for i in range(n)]
    r = I.call(fun, [N.new(I, probe, (n,), "float")] + list(I.iterate(kw["args"]) if isinstance(kw.get("args"), (tuple, Ref)) else []), {})
    I.events.append(("minimize", tuple(probe), tuple(best), r, bl, tuple(N.elems(I, x0)), {k: v for k, v in kw.items() if k not in ("bounds",)}))
    return OptResult(N.new(I, best, (n,), "float"))


# ================================================================ json and files
class JsonText(Model):
    def __init__(self, v):
        self.v = v          # host structure

    def getattr(self, I, name):
        return ExtMethod(self, name)

    def method(self, I, name, args, kw):
        if name in ("strip", "encode", "decode"):
            return self
        return Top("json text")


class Unser(Exception):
    pass


def ser(I, v, default=None):
    v = I.clean(v)
    if isinstance(v, (Top,)):
        return v
    if v is None or isinstance(v, (bool, int, float, str, StrT)):
        return v
    if isinstance(v, Sc):
        if v.ty == "npfloat":
            return Sc(v.t, "float")
        if v.ty in ("npint", "npbool"):
            if default is not None:
                return ser(I, I.call(default, [v], {}), default)
            raise Unser(tname(v))
        return v
    if isinstance(v, tuple) or isinstance(v, Ref) and v.kind == "list":
        items = v if isinstance(v, tuple) else I.st.cells[v.id]
        if isinstance(items, Top):
            return items
        return ("list", tuple(ser(I, x, default) for x in items))
    if isinstance(v, Ref) and v.kind == "dict":
        d = I.st.cells[v.id]
        if isinstance(d, Top):
            return d
        return ("dict", tuple((k if isinstance(k, str) else str(k), ser(I, x, default)) for k, x in d.items()))
    if isinstance(v, Phi):
        return Phi(tuple((g, ser(I, x, default)) for g, x in v.alts))
    if default is not None:
        return ser(I, I.call(default, [v], {}), default)
    raise Unser(tname(v))


def deser(I, v):
    if isinstance(v, tuple):
        if v[0] == "list":
            return I.newlist([deser(I, x) for x in v[1]])
        return I.newdict({k: deser(I, x) for k, x in v[1]})
    if isinstance(v, Phi):
        return Phi(tuple((g, deser(I, x)) for g, x in v.alts))
    return v


@reg("json.dumps")
def json_dumps(I, args, kw):
    default = kw.get("default")
    if kw.get("cls") is not None:
        return Top("json encoder")
    try:
        return JsonText(ser(I, args[0], default))
    except Unser as e:
        I.raise_("TypeError", "Object of type %s is not JSON serializable" % e)


@reg("json.loads")
def json_loads(I, args, kw):
    s = args[0]
    if isinstance(s, JsonText):
        return deser(I, s.v)
    if isinstance(s, str):
        import json
        try:
            return host(I, json.loads(s))
        except ValueError as e:
            I.raise_("ValueError", str(e))
    return Top("json.loads")


def host(I, v):
    if isinstance(v, dict):
        return I.newdict({k: host(I, x) for k, x in v.items()})
    if isinstance(v, list):
        return I.newlist([host(I, x) for x in v])
    return v


@reg("json.dump")
def json_dump(I, args, kw):
    t = json_dumps(I, args[:1], {k: v for k, v in kw.items() if k != "fp"})
    return I.call(I.getattr_(arg(args, kw, 1, "fp"), "write"), [t], {})


@reg("json.load")
def json_load(I, args, kw):
    return json_loads(I, [I.call(I.getattr_(args[0], "read"), [], {})], {})


class File(Model):
    def __init__(self, cell, mode):
        self.cell, self.mode = cell, mode

    def enter(self, I):
        return self

    def exit(self, I):
        return None

    def getattr(self, I, name):
        return ExtMethod(self, name)

    def method(self, I, name, args, kw):
        if name == "write":
            if "w" not in self.mode and "a" not in self.mode and "x" not in self.mode and "+" not in self.mode:
                I.raise_("OSError", "not writable")
            if not isinstance(args[0], (str, StrT, JsonText, Top, Phi)):
                I.raise_("TypeError", "write() argument must be str, not %s" % tname(args[0]))
            c = I.st.cells[self.cell]
            if not isinstance(c, Top):
                I.st.cells[self.cell] = c + (args[0],)
            return None
        if name == "read":
            c = I.st.cells[self.cell]
            if isinstance(c, Top):
                return c
            c = [I.clean(x) for x in c if not (isinstance(x, str) and x.strip() == "")]
            if len(c) == 1:
                return c[0]
            if all(isinstance(x, (str, StrT)) for x in c):
                return I.strcat(c) if c else ""
            return Top("file content")
        if name in ("close", "flush"):
            return None
        if name in ("readlines", "readline"):
            ls = self.lines(I)
            if isinstance(ls, Top):
                return ls
            return I.newlist(ls) if name == "readlines" else (ls[0] if ls else "")
        return Top("file." + name)

    def lines(self, I):
        c = I.st.cells[self.cell]
        if isinstance(c, Top) or not all(isinstance(x, str) for x in c):
            return Top("file content")
        return "".join(c).splitlines(True)

    def iterate(self, I):
        ls = self.lines(I)
        if isinstance(ls, Top):
            raise Unsupported("iteration over an unknown file")
        return ls


def file_open(I, args, kw):
    p = arg(args, kw, 0, "file")
    mode = arg(args, kw, 1, "mode", "r")
    if not isinstance(p, str) or not isinstance(mode, str):
        return Top("open")
    files = I.st.cells.get("files", {})
    if "w" in mode or "x" in mode or "a" in mode:
        if "a" in mode and p in files:
            return File(files[p], mode)
        c = I.alloc(())
        files = dict(files)
        files[p] = c
        I.st.cells["files"] = files
        return File(c, mode)
    if p in files:
        return File(files[p], mode)
    if getattr(I, "virtual_files", None) is not None:
        I.raise_("FileNotFoundError", p)
    return Top("file %s" % p)


REG["io.open"] = lambda I, a, k: file_open(I, a, k)
def path_exists(I, args, kw):
    if not isinstance(args[0], str):
        return Top("file system")
    if args[0] in I.st.cells.get("files", {}):
        return True
    return False if getattr(I, "virtual_files", None) is not None else Top("file system")


def file_remove(I, args, kw):
    files = dict(I.st.cells.get("files", {}))
    if not isinstance(args[0], str) or args[0] not in files:
        return Top("file system")
    del files[args[0]]
    I.st.cells["files"] = files
    return None


def file_move(I, args, kw):
    files = dict(I.st.cells.get("files", {}))
    a, b = args[0], args[1]
    if not isinstance(a, str) or not isinstance(b, str) or a not in files:
        return Top("file system")
    files[b] = files.pop(a)
    I.st.cells["files"] = files
    return None


REG["os.path.exists"] = REG["os.path.isfile"] = path_exists
REG["os.remove"] = REG["os.unlink"] = file_remove
REG["os.rename"] = REG["os.replace"] = REG["shutil.move"] = file_move
REG["os.path.join"] = lambda I, a, k: "/".join(a) if all(isinstance(x, str) for x in a) else Top("path")


# ================================================================ images with exif data, downloads
EXIF_TAGS = {256: "ImageWidth", 257: "ImageLength", 271: "Make", 272: "Model", 274: "Orientation", 282: "XResolution", 283: "YResolution",
             296: "ResolutionUnit", 305: "Software", 306: "DateTime", 33434: "ExposureTime", 33437: "FNumber", 34665: "ExifOffset",
             34853: "GPSInfo", 36867: "DateTimeOriginal", 37386: "FocalLength", 40961: "ColorSpace", 40962: "ExifImageWidth",
             40963: "ExifImageHeight", 41486: "FocalPlaneXResolution", 41487: "FocalPlaneYResolution", 41488: "FocalPlaneResolutionUnit",
             41989: "FocalLengthIn35mmFilm"}
EXIF_IFD = {271, 272, 274, 282, 283, 296, 305, 306, 34665, 34853}


class Picture(Model):
    """an opened image: I.pictures maps file names to (exif data by tag number, (width, height))"""
    def __init__(self, exif, size):
        self.exif, self.size = exif, size

    def enter(self, I):
        return self

    def exit(self, I):
        return None

    def getattr(self, I, name):
        if name in ("width", "height"):
            return self.size[name == "height"]
        if name == "size":
            return tuple(self.size)
        return ExtMethod(self, name)

    def method(self, I, name, args, kw):
        if name == "_getexif":
            return I.newdict(dict(self.exif)) if self.exif is not None else None
        if name == "getexif":
            return ExifData(self.exif or {})
        if name in ("close", "load"):
            return None
        return Top("image." + name)


class ExifData(Model):
    def __init__(self, exif):
        self.exif = exif

    def main(self):
        return {k: v for k, v in self.exif.items() if k in EXIF_IFD}

    def getattr(self, I, name):
        return ExtMethod(self, name)

    def method(self, I, name, args, kw):
        if name == "get_ifd":
            return I.newdict({k: v for k, v in self.exif.items() if k not in EXIF_IFD} if args[0] == 34665 else {})
        return I.call(I.getattr_(I.newdict(self.main()), name), args, kw)

    def iterate(self, I):
        return list(self.main())


@reg("PIL.Image.open")
def image_open(I, args, kw):
    pics = getattr(I, "pictures", {})
    p = args[0] if args else kw.get("fp")
    if not isinstance(p, str) or p not in pics:
        return Top("image file")
    return Picture(*pics[p])


REG["PIL.ExifTags.TAGS.get"] = lambda I, a, k: EXIF_TAGS.get(a[0], arg(a, k, 1, "default")) if isinstance(a[0], int) else Top("tag")
REG["PIL.ExifTags.TAGS.items"] = lambda I, a, k: Iter(tuple(EXIF_TAGS.items()))


class Response(Model):
    def __init__(self, text):
        self.text = text

    def getattr(self, I, name):
        if name == "text":
            return self.text if self.text is not None else "404: Not Found"
        if name == "status_code":
            return 200 if self.text is not None else 404
        if name == "ok":
            return self.text is not None
        return ExtMethod(self, name)

    def method(self, I, name, args, kw):
        if name == "raise_for_status":
            if self.text is None:
                I.raise_("HTTPError", "404")
            return None
        return Top("response." + name)


@reg("requests.get")
def requests_get(I, args, kw):
    """I.web: "offline", None (not found) or the text"""
    if not hasattr(I, "web"):
        return Top("download")
    I.downloads = getattr(I, "downloads", 0) + 1
    if I.web == "offline":
        I.raise_("ConnectionError", "offline")
    return Response(I.web)


# ================================================================ pandas
def label_pos(I, labels, k, err="KeyError"):
    """position of the row labelled k: int, or None with k symbolic (then the labels are consecutive and k is shifted)"""
    if isinstance(k, int):
        if k not in labels:
            I.raise_(err, k)
        return labels.index(k)
    return None


class Frame_(Model):
    def __init__(self, cell, labels=None):
        self.cell = cell          # (columns, rows)
        self.labels = labels      # labels of the rows, None: 0, 1, ...

    def data(self, I):
        return I.st.cells[self.cell]

    def getattr(self, I, name):
        c = self.data(I)
        if isinstance(c, Top):
            return Top("frame")
        cols, rows = c
        if name == "columns":
            return tuple(cols)
        if name in ("loc", "iloc"):
            return FrameLoc(self, name)
        if name == "shape":
            return (len(rows), len(cols))
        if name in ("values",):
            return N.asarr(I, tuple(tuple(r) for r in rows))
        if name == "index":
            return tuple(range(len(rows)) if self.labels is None else self.labels)
        if name in ("reset_index", "to_numpy", "mean", "copy", "head", "tail", "describe", "iterrows", "__len__", "sample", "drop", "to_dict"):
            return ExtMethod(self, name)
        if name in cols:
            return self.getitem(I, name)
        return Top("frame." + name)

    def method(self, I, name, args, kw):
        cols, rows = self.data(I)
        if name == "to_numpy":
            return N.asarr(I, tuple(tuple(r) for r in rows))
        if name == "copy":
            return Frame_(I.alloc((cols, rows)), self.labels)
        if name == "iterrows":
            return Iter(tuple((i, Row(cols, r)) for i, r in zip(range(len(rows)) if self.labels is None else self.labels, rows)))
        if name in ("head", "tail") and (not args or isinstance(args[0], int)) and not kw:
            n = args[0] if args else 5
            return self.getitem(I, slice(None, n) if name == "head" else slice(max(len(rows) - n, 0), None))
        if name == "reset_index" and kw.get("drop") is True and set(kw) == {"drop"}:
            return Frame_(I.alloc((cols, rows)))
        if name == "__len__":
            return len(rows)
        return Top("frame." + name)

    def getitem(self, I, k):
        c = self.data(I)
        if isinstance(c, Top):
            return Top("frame")
        cols, rows = c
        if isinstance(k, str):
            if k not in cols:
                I.raise_("KeyError", k)
            j = cols.index(k)
            return Series([r[j] for r in rows], self.labels)
        if isinstance(k, slice):
            q = [I.index_int(v) if isnum(v) else v for v in (k.start, k.stop, k.step)]
            if all(v is None or isinstance(v, int) for v in q):
                q = slice(*q)
                labels = tuple(range(len(rows)) if self.labels is None else self.labels)[q]
                return Frame_(I.alloc((cols, rows[q])), labels if labels != tuple(range(len(labels))) else None)
        if isinstance(k, Ref) and k.kind == "list":
            ks = I.iterate(k)
            if all(isinstance(x, str) and x in cols for x in ks):
                js = [cols.index(x) for x in ks]
                return Frame_(I.alloc((tuple(ks), tuple(tuple(r[j] for j in js) for r in rows))), self.labels)
        return Top("frame item")

    def contains(self, I, x):
        c = self.data(I)
        return x in c[0] if isinstance(x, str) else Top("in frame")

    def length(self, I):
        c = self.data(I)
        return Top("frame") if isinstance(c, Top) else len(c[1])

    def iterate(self, I):
        return list(self.data(I)[0])

    def truth(self, I):
        I.raise_("ValueError", "The truth value of a DataFrame is ambiguous")


class FrameLoc(Model):
    def __init__(self, fr, how):
        self.fr, self.how = fr, how

    def getitem(self, I, k):
        c = self.fr.data(I)
        if isinstance(c, Top):
            return c
        cols, rows = c
        if isinstance(k, tuple):
            return Top("frame.loc")
        k = I.index_int(k) if isnum(k) else k
        if isinstance(k, slice) and self.how == "iloc":
            return self.fr.getitem(I, k)
        labels = self.fr.labels if self.how == "loc" else None
        if isinstance(k, int):
            if labels is not None:
                k = label_pos(I, labels, k)
            if not 0 <= k < len(rows):
                if self.how == "iloc" and -len(rows) <= k < 0:
                    return Row(cols, rows[k])
                I.raise_("KeyError" if self.how == "loc" else "IndexError", k)
            return Row(cols, rows[k])
        if isinstance(k, Sc):
            if not rows:
                I.raise_("KeyError", "empty frame")
            if self.how == "loc":
                if labels is None:
                    bad = T.lor(T.lt(k.t, T.ZERO), T.lt(const(len(rows) - 1), k.t))
                else:
                    bad = T.TRUE
                    for l in labels:
                        bad = T.land(bad, T.lnot(T.eqn(k.t, const(l))))
                I.cond_raise(bad, "KeyError", "row label")
            sel = []
            for j in range(len(cols)):
                sel.append(I.join_alts([(T.eqn(k.t, const(i)), r[j]) for i, r in zip(range(len(rows)) if labels is None else labels, rows)]))
            return Row(cols, tuple(sel))
        return Top("frame.loc")


class Row(Model):
    """one row (a labelled series)"""
    def __init__(self, cols, vals):
        self.cols, self.vals = cols, vals

    def getitem(self, I, k):
        if isinstance(k, str):
            if k not in self.cols:
                I.raise_("KeyError", k)
            return npf(self.vals[self.cols.index(k)])
        return Top("row item")

    def getattr(self, I, name):
        if name in ("items", "keys", "to_dict", "tolist", "drop"):
            return ExtMethod(self, name)
        if name in ("values",):
            return N.asarr(I, tuple(self.vals))
        if name == "index":
            return tuple(self.cols)
        if name in self.cols:
            return self.getitem(I, name)
        return Top("row." + name)

    def method(self, I, name, args, kw):
        if name == "items":
            return Iter(tuple((k, npf(v)) for k, v in zip(self.cols, self.vals)))
        if name == "keys":
            return Iter(tuple(self.cols))
        if name == "to_dict":
            return self.todict(I)
        if name == "tolist":
            return I.newlist(list(self.vals))
        if name == "drop" and args and isinstance(args[0], str) and args[0] in self.cols:
            j = self.cols.index(args[0])
            return Row(self.cols[:j] + self.cols[j + 1:], self.vals[:j] + self.vals[j + 1:])
        return Top("row." + name)

    def todict(self, I):
        return I.newdict({k: npf(v) for k, v in zip(self.cols, self.vals)})

    def iterate(self, I):
        return [npf(v) for v in self.vals]

    def contains(self, I, x):
        return x in self.cols if isinstance(x, str) else Top("in row")

    def length(self, I):
        return len(self.vals)


def npf(v):
    if isnum(v):
        return Sc(T.num(term(v)), "npfloat")
    return v


class SeriesLoc(Model):
    """access by position"""
    def __init__(self, s):
        self.s = s

    def getitem(self, I, k):
        return I.getitem(self.s.asarray(I), k)


class Series(Model):
    def __init__(self, vals, labels=None):
        self.vals = vals
        self.labels = labels

    def getattr(self, I, name):
        if name == "iloc":
            return SeriesLoc(self)
        if name == "loc":
            return self
        if name == "index":
            return tuple(range(len(self.vals)) if self.labels is None else self.labels)
        if name in ("idxmax", "idxmin", "argmax", "argmin", "to_numpy", "mean", "max", "min", "tolist", "std", "sum"):
            return ExtMethod(self, name)
        if name == "values":
            return self.asarray(I)
        return Top("series." + name)

    def asarray(self, I):
        return N.asarr(I, tuple(self.vals))

    def method(self, I, name, args, kw):
        a = self.asarray(I)
        if name in ("idxmax", "argmax", "idxmin", "argmin"):
            if isinstance(a, Top):
                return a
            n = "nan" + name.replace("idx", "arg")
            r = REG["numpy." + n](I, [a], {})
            if self.labels is not None and name.startswith("idx") and not isinstance(r, Top):
                d = [b - i for i, b in enumerate(self.labels)]
                if any(q != d[0] for q in d):
                    return I.join_alts([(T.eqn(term(r), const(i)), l) for i, l in enumerate(self.labels)])
                return I._binop(_ast.Add(), r, d[0])
            return r
        if name == "to_numpy":
            return a
        if name == "tolist":
            return I.newlist(self.vals)
        if name in ("mean", "max", "min", "sum", "std"):
            return REG["numpy." + {"mean": "nanmean", "max": "nanmax", "min": "nanmin", "sum": "nansum", "std": "std"}[name]](
                I, [a], {"ddof": 1} if name == "std" else {})
        return Top("series." + name)

    def getitem(self, I, k):
        k = I.index_int(k) if isnum(k) else k
        if self.labels is not None and not isinstance(k, (slice, bool)):
            if isinstance(k, int):
                return I.getitem(self.asarray(I), label_pos(I, self.labels, k))
            if isinstance(k, Sc):
                bad = T.TRUE
                for l in self.labels:
                    bad = T.land(bad, T.lnot(T.eqn(k.t, const(l))))
                I.cond_raise(bad, "KeyError", "label")
                return I.join_alts([(T.eqn(k.t, const(l)), npf(v)) for l, v in zip(self.labels, self.vals)])
        return I.getitem(self.asarray(I), k)

    def iterate(self, I):
        return [npf(v) for v in self.vals]

    def length(self, I):
        return len(self.vals)

    def compare(self, I, name, o):
        return N.compare(I, name, self.asarray(I), o)


@reg("pandas.DataFrame")
def pd_dataframe(I, args, kw):
    data = arg(args, kw, 0, "data")
    cols = kw.get("columns", args[2] if len(args) > 2 else None)
    data = I.clean(data)
    if isinstance(data, Top) or isinstance(cols, Top):
        return Frame_(I.alloc(Top("frame")))
    if isinstance(data, Ref) and data.kind == "dict":
        d = I.st.cells[data.id]
        names = list(d)
        cs = [I.iterate(v) for v in d.values()]
        return Frame_(I.alloc((tuple(names), tuple(zip(*cs)))))
    rows = []
    for r in I.iterate(data):
        if isinstance(r, Phi):
            r = I.flat(r)
        rows.append(tuple(I.iterate(r)))
    if cols is None:
        names = tuple(range(len(rows[0]) if rows else 0))
    else:
        names = tuple(I.iterate(cols))
    for r in rows:
        if len(r) != len(names):
            I.raise_("ValueError", "%d columns passed, passed data had %d columns" % (len(names), len(r)))
    return Frame_(I.alloc((names, tuple(rows))))


# ================================================================ tqdm, itertools, copy, functools, cv2
class Bar(Model):
    def __init__(self, items):
        self.items = items

    def enter(self, I):
        return self

    def exit(self, I):
        return None

    def iterate(self, I):
        return list(self.items)

    def getattr(self, I, name):
        return ExtMethod(self, name)

    def method(self, I, name, args, kw):
        return None


class UnboundedBar(Bar):
    unbounded = True

    def generic(self, I):
        return Sc(T.fresh("iter", 0, 100, integer=True), "int")


@reg("tqdm.trange", "tqdm.auto.trange")
def tq_trange(I, args, kw):
    a = [I.index_int(x) for x in args]
    if not all(isinstance(x, int) for x in a):
        return UnboundedBar(())
    return Bar(range(*a))


@reg("tqdm.tqdm", "tqdm.auto.tqdm")
def tq_tqdm(I, args, kw):
    if isinstance(args[0], Top):
        return args[0]
    return Bar(I.iterate(args[0]))


@reg("itertools.cycle")
def it_cycle(I, args, kw):
    items = I.iterate(args[0])
    return Inf(lambda i: items[i % len(items)])


@reg("itertools.repeat")
def it_repeat(I, args, kw):
    if len(args) > 1:
        return Iter(tuple([args[0]] * args[1]))
    return Inf(lambda i: args[0])


REG["itertools.count"] = lambda I, a, k: Inf(lambda i, s=(a[0] if a else 0): s + i)
REG["itertools.chain"] = lambda I, a, k: Iter(tuple(x for y in a for x in I.iterate(y)))
REG["itertools.chain.from_iterable"] = lambda I, a, k: Iter(tuple(x for y in I.iterate(a[0]) for x in I.iterate(y)))


@reg("itertools.product")
def it_product(I, args, kw):
    import itertools
    return Iter(tuple(itertools.product(*[I.iterate(a) for a in args], repeat=kw.get("repeat", 1))))


@reg("itertools.combinations")
def it_combinations(I, args, kw):
    import itertools
    return Iter(tuple(itertools.combinations(I.iterate(args[0]), args[1])))


@reg("itertools.zip_longest")
def it_zip_longest(I, args, kw):
    import itertools
    return Iter(tuple(itertools.zip_longest(*[I.iterate(a) for a in args], fillvalue=kw.get("fillvalue"))))


@reg("copy.copy")
def cp_copy(I, args, kw):
    v = args[0]
    if isinstance(v, Ref):
        return Ref(I.alloc(I.st.cells[v.id]), v.kind, v.cls)
    if isinstance(v, Arr):
        return N.asarr(I, v, None, copy=True)
    return v


@reg("copy.deepcopy")
def cp_deepcopy(I, args, kw):
    memo = {}

    def go(v):
        if isinstance(v, Ref):
            if v.id in memo:
                return memo[v.id]
            n = Ref(I.alloc(None), v.kind, v.cls)
            memo[v.id] = n
            c = I.st.cells[v.id]
            if isinstance(c, dict):
                I.st.cells[n.id] = {k: go(x) for k, x in c.items()}
            elif isinstance(c, tuple):
                I.st.cells[n.id] = tuple(go(x) for x in c)
            else:
                I.st.cells[n.id] = c
            return n
        if isinstance(v, Arr):
            return N.asarr(I, v, None, copy=True)
        if isinstance(v, tuple):
            return tuple(go(x) for x in v)
        if isinstance(v, Phi):
            return Phi(tuple((g, go(x)) for g, x in v.alts))
        if isinstance(v, Bound):
            return Bound(v.func, go(v.self_))
        return v
    return go(args[0])


REG["functools.partial"] = lambda I, a, k: Partial(a[0], list(a[1:]), dict(k))
REG["functools.wraps"] = lambda I, a, k: Native(lambda I, a2, k2: a2[0], "wraps")
REG["functools.lru_cache"] = lambda I, a, k: (_ for _ in ()).throw(Unsupported("lru_cache"))


@reg("functools.reduce")
def ft_reduce(I, args, kw):
    xs = I.iterate(args[1])
    if len(args) > 2:
        r = args[2]
    else:
        if not xs:
            I.raise_("TypeError", "reduce() of empty iterable with no initial value")
        r, xs = xs[0], xs[1:]
    for x in xs:
        r = I.call(args[0], [r, x], {})
    return r


for _n, _o in (("add", "Add"), ("sub", "Sub"), ("mul", "Mult"), ("truediv", "Div")):
    REG["operator." + _n] = (lambda o: lambda I, a, k: I._binop(OPS[o], a[0], a[1]))(_o)
REG["operator.itemgetter"] = lambda I, a, k: Native(lambda I, a2, k2: I.getitem(a2[0], a[0]) if len(a) == 1 else tuple(I.getitem(a2[0], x) for x in a))
REG["operator.attrgetter"] = lambda I, a, k: Native(lambda I, a2, k2: I.getattr_(a2[0], a[0]))


@reg("cv2.remap")
def cv_remap(I, args, kw):
    mx = arg(args, kw, 1, "map1")
    my = arg(args, kw, 2, "map2")
    snap = []
    for m in (mx, my):
        m = I.flat(m) if isinstance(m, Phi) else m
        snap.append((m.shape, tuple(N.elems(I, m)), m.dtype) if isinstance(m, Arr) else None)
    src = arg(args, kw, 0, "src")
    inter = arg(args, kw, 3, "interpolation")
    I.events.append(("remap", src, snap[0], snap[1], kw))
    src = I.flat(src) if isinstance(src, Phi) else src
    if not isinstance(src, Arr) or len(src.shape) not in (2, 3) or None in snap or snap[0][0] != snap[1][0]:
        return Top("remapped image")
    if len(snap[0][0]) != 2:
        I.raise_("error", "remap: maps must be two-dimensional")
    if snap[0][2] not in ("float32",) or snap[1][2] not in ("float32",):
        return Top("remap: type of the maps")
    # the result is an uninterpreted function of the source channel, the method and the position
    ts = N.elems(I, src)
    nch = src.shape[2] if len(src.shape) == 3 else 1
    how = inter.path if isinstance(inter, Ext) else repr(inter)
    names = ["sample:%s:%s" % (how, ",".join(str(t.id) for t in ts[c::nch])) for c in range(nch)]
    out = []
    for a, b in zip(snap[0][1], snap[1][1]):
        for n in names:
            out.append(T.ufn(n, T.num(a), T.num(b)))
    sh = snap[0][0] + ((nch,) if len(src.shape) == 3 else ())
    return N.new(I, out, sh, src.dtype)


# ================================================================ re
class ReMatch(Model):
    def __init__(self, groups, names, whole):
        self.groups, self.names, self.whole = groups, names, whole

    def truth(self, I):
        return TRUE

    def getattr(self, I, name):
        return ExtMethod(self, name)

    def method(self, I, name, args, kw):
        if name == "groupdict":
            return I.newdict({k: self.groups[i - 1] for k, i in self.names.items()})
        if name == "groups":
            return tuple(self.groups)
        if name == "group":
            if not args:
                return self.whole
            r = tuple(self.get(I, a) for a in args)
            return r[0] if len(r) == 1 else r
        return Top("match." + name)

    def get(self, I, a):
        if isinstance(a, int):
            return self.whole if a == 0 else self.groups[a - 1]
        if a not in self.names:
            I.raise_("IndexError", "no such group")
        return self.groups[self.names[a] - 1]

    def getitem(self, I, k):
        return self.get(I, k)


PH = "\ue000"


def isstr_term(t):
    return t.op in ("str", "fmt", "strcat") or t.op == "ite" and isstr_term(t.args[1])


def str_parts(t):
    """flat list of literal strings and (spec, Term) placeholders of a symbolic string"""
    if t.op == "str":
        return [t.args[0]]
    if t.op == "strcat":
        r = []
        for a in t.args:
            p = str_parts(a)
            if p is None:
                return None
            r += p
        return r
    if t.op == "fmt":
        import re
        out = []
        pos = 0
        k = 0
        f = t.args[0]
        for m in re.finditer(r"%%|%[-+ 0-9.]*[sdfgeri]", f):
            out.append(f[pos:m.start()])
            pos = m.end()
            if m.group() == "%%":
                out.append("%")
                continue
            a = t.args[1 + k]
            k += 1
            if isinstance(a, Term) and isstr_term(a):
                p = str_parts(a)
                if p is None:
                    return None
                out += p
            elif isinstance(a, Term):
                out.append((m.group(), a))
            else:
                out.append(m.group() % a)
        out.append(f[pos:])
        return [x for x in out if x != ""]
    if t.op == "ite":
        return [("ite", t)]
    return None


def re_string(I, s):
    """the string with numerals standing for the placeholders, and a table numeral -> (spec, term)"""
    parts = str_parts(s.t)
    if parts is None:
        return None
    table = {}
    txt = ""
    k = 0
    for p in parts:
        if isinstance(p, str):
            txt += p
            continue
        spec, t = p
        if spec == "ite":
            return ("split", t)
        neg = FALSE
        lo, hi = interval(t) or (None, None)
        v = T.fn("trunc", t) if spec.endswith("d") else t
        isneg = I.decide(T.lt(v, T.ZERO)) if not (lo is not None and lo >= 0) else FALSE
        if isneg.op not in ("true", "false"):
            return ("sign", isneg)
        k += 1
        if spec.endswith("d"):
            num_ = "%d" % (11 + k)
        elif spec[-1] in "fg":
            import re
            m = re.search(r"\.(\d+)", spec)
            dec = int(m.group(1)) if m else 6
            num_ = "%d" % (11 + k) + ("." + "1" * dec if dec else "")
        else:
            return None
        if isneg.op == "true":
            num_ = "-" + num_
        table[num_] = (spec, t, isneg.op == "true")
        txt += num_
    return txt, table


class NumTok(Model):
    """the text of a formatted number"""
    def __init__(self, spec, t, neg, plus=""):
        self.spec, self.t, self.neg, self.plus = spec, t, neg, plus

    def value(self):
        if self.spec.endswith("d"):
            return T.fn("trunc", self.t)
        import re
        m = re.search(r"\.(\d+)", self.spec)
        d = int(m.group(1)) if m else 6
        p = const(10 ** d)
        return T.div(T.fn("round", T.mul(self.t, p)), p)

    def getitem(self, I, k):
        if k == 0:
            return "-" if self.neg else (self.plus or "1")
        return Top("character of numeral")

    def getattr(self, I, name):
        return ExtMethod(self, name)

    def method(self, I, name, args, kw):
        if name == "strip":
            return self
        if name == "startswith" and args and args[0] == "-":
            return self.neg
        if name == "lstrip" and args and args[0] in ("-", "+-", "-+"):
            return NumTok(self.spec, T.fn("abs", self.t), False)
        return Top("numeral." + name)

    def contains(self, I, x):
        return self.neg if x == "-" else Top("in numeral")

    def compare(self, I, name, o):
        return Top("compare numeral")


def re_apply(I, how, pat, s, flags):
    import re
    rx = None
    try:
        rx = re.compile(pat, flags)
    except re.error as e:
        I.raise_("ValueError", str(e))
    f = {"match": rx.match, "search": rx.search, "fullmatch": rx.fullmatch}[how]
    if isinstance(s, str):
        m = f(s)
        if m is None:
            return None
        return ReMatch(list(m.groups()), dict(rx.groupindex), m.group())
    r = re_string(I, s)
    if r is None:
        return Top("regular expression on symbolic string")
    if r[0] == "split" or r[0] == "sign":
        return None
    txt, table = r
    m = f(txt)
    if m is None:
        return None

    def back(g):
        if g is None:
            return None
        g0 = g.strip()
        if g0 in table:
            return NumTok(*table[g0])
        if g0[:1] in ("-", "+") and g0[1:] in table and not table[g0[1:]][2]:
            spec, t, _ = table[g0[1:]]
            return NumTok(spec, T.neg(t), True) if g0[0] == "-" else NumTok(spec, t, False, "+")
        if any(k in g for k in table):
            return Top("part of a numeral")
        return g
    return ReMatch([back(g) for g in m.groups()], dict(rx.groupindex), Top("match text"))


def re_call(I, how, args, kw):
    pat, s = args[0], args[1]
    flags = arg(args, kw, 2, "flags", 0)
    if isinstance(pat, RePattern):
        flags, pat = pat.flags, pat.pat
    if not isinstance(pat, str) or not isinstance(flags, int):
        return Top("re")
    if isinstance(s, Phi):
        return I.lift(s, lambda x: re_call(I, how, [pat, x], {"flags": flags}))
    if isinstance(s, str):
        return re_apply(I, how, pat, s, flags)
    if isinstance(s, StrT):
        r = re_string(I, s)
        if r is None:
            return Top("re")
        if r[0] == "split":
            t = r[1]
            a = StrT(T.substitute(s.t, {t: t.args[1]}))
            b = StrT(T.substitute(s.t, {t: t.args[2]}))
            return re_call(I, how, [pat, Phi(((t.args[0], a), (T.lnot(t.args[0]), b)))], {"flags": flags})
        if r[0] == "sign":
            return I.lift(Phi(((r[1], s), (T.lnot(r[1]), s))), lambda x: re_call(I, how, [pat, x], {"flags": flags}))
        return re_apply(I, how, pat, s, flags)
    if isinstance(s, Top):
        return s
    I.raise_("TypeError", "expected string or bytes-like object, got '%s'" % tname(s))


class RePattern(Model):
    def __init__(self, pat, flags):
        self.pat, self.flags = pat, flags

    def getattr(self, I, name):
        return ExtMethod(self, name)

    def method(self, I, name, args, kw):
        return call_ext(I, "re." + name, [self] + list(args), kw)


for _n in ("match", "search", "fullmatch"):
    REG["re." + _n] = (lambda n: lambda I, a, k: re_call(I, n, a, k))(_n)
REG["re.compile"] = lambda I, a, k: RePattern(a[0], arg(a, k, 1, "flags", 0)) if isinstance(a[0], str) else Top("re")


@reg("re.findall", "re.split", "re.sub")
def re_findall(I, args, kw):
    return Top("re")


def re_multi(how):
    def f(I, args, kw):
        import re
        from .pymodel import lower_value
        a = list(args)
        if isinstance(a[0], RePattern):
            a[0] = a[0].pat
        if not all(isinstance(x, (str, int)) for x in a):
            return Top("re." + how)
        try:
            return lower_value(I, getattr(re, how)(*a))
        except re.error as e:
            I.raise_("ValueError", str(e))
    return f


for _n in ("findall", "split", "sub"):
    REG["re." + _n] = re_multi(_n)


# ================================================================ prefixes
def top_prefix(I, path, args, kw):
    return Top(path)


def warn_prefix(I, path, args, kw):
    return None


# ---- matplotlib.pyplot: everything that is drawn is recorded, with the axes it is drawn in
PLT_DRAW = {"plot", "scatter", "imshow", "xlim", "ylim", "text", "axvline", "axhline", "savefig"}


def plt_snap(I, v):
    if isinstance(v, Phi):
        v = I.clean(v)
    if isinstance(v, Arr):
        return N.new(I, list(N.elems(I, v)), v.shape, v.dtype)
    if isinstance(v, Ref) and v.kind == "list":
        c = I.st.cells.get(v.id)
        if isinstance(c, (list, tuple)):
            return I.newlist([plt_snap(I, q) for q in c])
    if isinstance(v, tuple):
        return tuple(plt_snap(I, q) for q in v)
    return v


class Figure(Model):
    """the current figure: user attributes only"""
    def __init__(self, cell):
        self.cell = cell

    def getattr(self, I, name):
        d = I.st.cells[self.cell]
        if name in d:
            return d[name]
        if name.startswith("trace") or name.startswith("getAxes") or name.startswith("_"):
            I.raise_("AttributeError", "'Figure' object has no attribute '%s'" % name)
        return Top("figure." + name)

    def setattr(self, I, name, v):
        d = dict(I.st.cells[self.cell])
        d[name] = v
        I.st.cells[self.cell] = d


class Axes(Model):
    """axes of a figure; key None: the current ones"""
    def __init__(self, key):
        self.key = key

    def getattr(self, I, name):
        return ExtMethod(self, name)

    def method(self, I, name, args, kw):
        name = {"set_xlim": "xlim", "set_ylim": "ylim"}.get(name, name)
        if name in PLT_DRAW or name in ("set", "axis"):
            return plt_draw(I, name, args, kw, () if self.key is None else (self.key,))
        return Top("axes." + name)


def axes_of(I, key):
    d = I.__dict__.setdefault("axes", {})
    if key not in d:
        d[key] = Axes(key)
    return d[key]


def plt_draw(I, name, args, kw, axes=()):
    ev = lambda n, a, k: I.events.append(("plt", n, [plt_snap(I, q) for q in a], {i: plt_snap(I, v) for i, v in k.items()}) + axes)
    if name == "set":
        for n in ("xlim", "ylim"):
            if n in kw:
                ev(n, [kw[n]], {})
        return None
    if name == "axis":
        try:
            v = I.iterate(args[0]) if args and not isinstance(args[0], str) else ()
        except Exception:
            v = ()
        if len(v) == 4:
            ev("xlim", v[:2], {})
            ev("ylim", v[2:], {})
        else:
            I.events.append(("plt", "axis", list(args), {}) + axes)
        return Top("axis")
    ev(name, args, kw)
    return I.newlist([Top("matplotlib.line")]) if name == "plot" else Top("matplotlib." + name)


def plt_prefix(I, path, args, kw):
    name = path.split(".")[-1]
    if name == "gca":
        return axes_of(I, None)
    if name == "subplots":
        n, m = [(args + [1, 1][len(args):])[i] if len(args) > i else kw.get(k, 1) for i, k in enumerate(("nrows", "ncols"))]
        if isinstance(n, int) and isinstance(m, int):
            ax = [[axes_of(I, 100 * n + 10 * m + i * m + j + 1) for j in range(m)] for i in range(n)]
            r = ax[0][0] if n == m == 1 else I.newlist(ax[0]) if n == 1 else I.newlist([a[0] for a in ax]) if m == 1 else I.newlist([I.newlist(a) for a in ax])
            return (plt_prefix(I, "matplotlib.pyplot.gcf", [], {}), r)
    if name == "gcf":
        f = getattr(I, "figure", None)
        if f is None or f.cell not in I.st.cells:
            f = I.figure = Figure(I.alloc({}))
        return f
    if name in PLT_DRAW or name == "axis":
        return plt_draw(I, name, args, kw)
    elif name == "subplot":
        k = args[0] if len(args) == 1 else tuple(args)
        if isinstance(k, tuple) and len(k) == 3 and all(isinstance(q, int) for q in k):
            k = k[0] * 100 + k[1] * 10 + k[2]
        I.events.append(("plt", "axes", [k], {}))
        return axes_of(I, k)
    elif name == "sca":
        k = args[0].key if isinstance(args[0], Axes) else args[0]
        if k is not None:
            I.events.append(("plt", "axes", [k], {}))
        return None
    return Top(path)


PREFIX = {"scipy.stats.": stats_prefix, "matplotlib.": top_prefix, "matplotlib.pyplot.": plt_prefix, "warnings.": warn_prefix, "logging.": warn_prefix, "typing.": top_prefix,
          "PIL.": top_prefix}


# ================================================================ built-ins
TYPE_OF = {bool: "bool", int: "int", float: "float", str: "str", tuple: "tuple", type(None): "NoneType", slice: "slice", bytes: "bytes"}


def type_name(I, v):
    if isinstance(v, Sc):
        return {"float": "builtins.float", "int": "builtins.int", "bool": "builtins.bool", "npfloat": "numpy.float64",
                "npint": "numpy.int64", "npbool": "numpy.bool_"}[v.ty]
    if isinstance(v, Arr) or isinstance(v, MaskSel):
        return "numpy.ndarray"
    if isinstance(v, (StrT, NumTok, JsonText)):
        return "builtins.str"
    if isinstance(v, Ref) and v.kind != "obj":
        return "builtins." + v.kind
    if type(v) in TYPE_OF:
        return "builtins." + TYPE_OF[type(v)]
    if isinstance(v, Frame_):
        return "pandas.DataFrame"
    if isinstance(v, Series) or isinstance(v, Row):
        return "pandas.Series"
    if isinstance(v, (Func, Bound, Native)):
        return "builtins.function"
    if isinstance(v, Exc):
        return "builtins." + v.name
    return None


SUPERS = {
    "builtins.bool": ["builtins.int", "numbers.Number", "numbers.Real", "numbers.Integral"],
    "builtins.int": ["numbers.Number", "numbers.Real", "numbers.Integral"],
    "builtins.float": ["numbers.Number", "numbers.Real"],
    "numpy.float64": ["builtins.float", "numbers.Number", "numbers.Real", "numpy.floating", "numpy.number", "numpy.generic", "numpy.double", "numpy.float_", "numpy.inexact"],
    "numpy.int64": ["numbers.Number", "numbers.Integral", "numbers.Real", "numpy.integer", "numpy.number", "numpy.generic", "numpy.int_", "numpy.signedinteger"],
    "numpy.bool_": ["numpy.generic", "numpy.bool"],
    "builtins.tuple": ["collections.abc.Sequence", "collections.abc.Iterable", "typing.Tuple", "typing.Sequence"],
    "builtins.list": ["collections.abc.Sequence", "collections.abc.Iterable", "typing.List", "typing.Sequence"],
    "builtins.dict": ["collections.abc.Mapping", "collections.abc.Iterable", "typing.Dict"],
    "builtins.str": ["collections.abc.Sequence", "collections.abc.Iterable", "typing.Sequence"],
    "numpy.ndarray": ["collections.abc.Iterable"],
    "builtins.set": ["collections.abc.Iterable"],
}


def isinst(I, v, c):
    """bool or Top"""
    if isinstance(c, tuple):
        r = False
        for x in c:
            y = isinst(I, v, x)
            if isinstance(y, Top):
                return y
            r = r or y
        return r
    if isinstance(v, Top) or isinstance(c, Top):
        return v if isinstance(v, Top) else c
    if isinstance(c, ClassVal):
        if isinstance(v, Ref) and v.kind == "obj":
            return c in v.cls.mro
        if isinstance(v, Exc) and isinstance(v.cls, ClassVal):
            return c in v.cls.mro
        return False
    if isinstance(c, Ext):
        p = c.path
        if p == "builtins.object":
            return True
        if isinstance(v, Ref) and v.kind == "obj":
            for k in v.cls.mro:
                if isinstance(k, Ext) and k.path == p:
                    return True
            return False
        if p in ("builtins.type",):
            return isinstance(v, ClassVal) or isinstance(v, Ext)
        if p in ("collections.abc.Callable", "typing.Callable"):
            return isinstance(v, (Func, Bound, Native, ClassVal, Partial))
        n = type_name(I, v)
        if n is None:
            if isinstance(v, (ClassVal, Func, Bound, KeysView, Iter, Ext)) and p.startswith("builtins."):
                return False
            return Top("isinstance %s" % p)
        if p in ("builtins.float64",):
            return n == "numpy.float64"
        if isinstance(v, Exc):
            return p.split(".")[-1] in exc_mro(v.name)
        return n == p or p in SUPERS.get(n, ())
    return Top("isinstance")


def b_len(I, v):
    if isinstance(v, (tuple, str)):
        return len(v)
    if isinstance(v, Ref):
        if v.kind == "obj":
            m = I.class_lookup(v.cls, "__len__")
            if m is not None:
                return I.call(Bound(m, v), [], {})
            I.raise_("TypeError", "object of type '%s' has no len()" % v.cls.name)
        c = I.st.cells[v.id]
        if isinstance(c, Top):
            return Sc(T.fn("floor", T.fn("abs", unkterm("len"))), "int")
        if v.kind == "dict":
            n = T.ZERO
            from .pymodel import split_unbound
            for k, x in c.items():
                g, _ = split_unbound(I, x)
                n = T.add(n, T.num(g))
            return mkscalar(n, "int")
        return len(c)
    if isinstance(v, Arr):
        if v.shape == ():
            I.raise_("TypeError", "len() of unsized object")
        return v.shape[0]
    if isinstance(v, MaskSel):
        return Sc(N.rsum(v.mask), "int")
    if isinstance(v, KeysView):
        return b_len(I, v.d)
    if isinstance(v, Iter):
        I.raise_("TypeError", "object of type 'generator' has no len()")
    if isinstance(v, Top):
        return Top("len")
    if isinstance(v, Model) and hasattr(v, "length"):
        return v.length(I)
    if isnum(v) or v is None:
        I.raise_("TypeError", "object of type '%s' has no len()" % tname(v))
    return Top("len")


def to_int(I, v):
    if isinstance(v, Top):
        return v
    if isinstance(v, (str,)):
        try:
            return int(v)
        except ValueError as e:
            I.raise_("ValueError", str(e))
    if isinstance(v, NumTok):
        if not v.spec.endswith("d"):
            I.raise_("ValueError", "invalid literal for int()")
        return mkscalar(v.value(), "int")
    if isinstance(v, Arr):
        if len(v.idx) != 1:
            I.raise_("TypeError", "only length-1 arrays can be converted to Python scalars")
        v = Sc(N.elems(I, v)[0], "npfloat") if v.dtype != "object" else N.elems(I, v)[0]
    if isnum(v):
        t = T.num(term(v))
        if t.op == "nan" or isinstance(v, float) and math.isnan(v):
            I.raise_("ValueError", "cannot convert float NaN to integer")
        if t.op in ("inf", "ninf"):
            I.raise_("OverflowError", "cannot convert float infinity to integer")
        return mkscalar(T.fn("trunc", t), "int")
    if isinstance(v, Ref) and v.kind == "obj":
        m = I.class_lookup(v.cls, "__int__")
        if m is not None:
            return I.call(Bound(m, v), [], {})
    if v is None or isinstance(v, (tuple, Ref)):
        I.raise_("TypeError", "int() argument must be a string, a bytes-like object or a real number, not '%s'" % tname(v))
    return Top("int")


def to_float(I, v):
    if isinstance(v, Top):
        return v
    if isinstance(v, str):
        try:
            return float(v)
        except ValueError as e:
            I.raise_("ValueError", str(e))
    if isinstance(v, NumTok):
        return mkscalar(v.value(), "float")
    if isinstance(v, StrT):
        p = str_parts(v.t)
        if p and len(p) == 1 and isinstance(p[0], tuple) and p[0][0] != "ite":
            return mkscalar(NumTok(p[0][0], p[0][1], False).value(), "float") if p[0][0] != "%s" else Sc(p[0][1], "float")
        return Top("float of string")
    if isinstance(v, Arr):
        if len(v.idx) != 1:
            I.raise_("TypeError", "only length-1 arrays can be converted to Python scalars")
        e = N.elems(I, v)[0]
        v = Sc(e, N.sctype(v.dtype)) if v.dtype != "object" else e
    if isnum(v):
        if isinstance(v, (int, float)):
            return float(v)
        return mkscalar(T.num(term(v)), "float")
    if isinstance(v, Ref) and v.kind == "obj":
        m = I.class_lookup(v.cls, "__float__")
        if m is not None:
            return I.call(Bound(m, v), [], {})
    if v is None or isinstance(v, (tuple, Ref)):
        I.raise_("TypeError", "float() argument must be a string or a real number, not '%s'" % tname(v))
    return Top("float")


def closed_value(t):
    """(value, error) of a term without symbols, None otherwise"""
    if t.sm or any(s.op in ("sym", "bsym", "named", "ufn", "ufb", "unk", "inv") for s in T.subterms([t])):
        return None
    try:
        v, e = T.Point(0).ev(t)
    except Exception:
        return None
    return (v, e) if v == v and abs(v) < 1e15 else None


def closed_floor(t):
    c = closed_value(t)
    if c is None:
        return None
    import math
    lo, hi = math.floor(c[0] - 4 * c[1] - 1e-12), math.floor(c[0] + 4 * c[1] + 1e-12)
    return lo if lo == hi else None


def to_str(I, v):
    if isinstance(v, (str, StrT, Top)):
        return v
    if isinstance(v, (int, float, bool)) or v is None:
        return str(v)
    if isinstance(v, Sc):
        return StrT(T._mk("fmt", "%s", v.t))
    if isinstance(v, tuple) and all(isinstance(x, (int, float, str, bool)) or x is None for x in v):
        return str(v)
    if isinstance(v, Ref) and v.kind == "list" and not isinstance(I.st.cells[v.id], Top):
        c = I.st.cells[v.id]
        if all(isinstance(x, (int, float, str, bool)) or x is None for x in c):
            return str(list(c))
    if isinstance(v, Ref) and v.kind == "obj":
        for m in ("__str__", "__repr__"):
            f = I.class_lookup(v.cls, m)
            if f is not None:
                return I.call(Bound(f, v), [], {})
    if isinstance(v, ClassVal):
        return "<class '%s.%s'>" % (v.module.name, v.name)
    return Top("str")


def minmax(I, items, name, key, default):
    if not items:
        if default is not UNBOUND:
            return default
        I.raise_("ValueError", "%s() arg is an empty sequence" % name)
    ks = [I.call(key, [x], {}) if key is not None else x for x in items]
    bk, bv = ks[0], items[0]
    for k, v in zip(ks[1:], items[1:]):
        if isinstance(k, (Top, Phi)) or isinstance(bk, (Top, Phi)):
            return Top(name)
        if isnum(k) and isnum(bk):
            c = I.decide(T.lt(T.num(term(k)), T.num(term(bk))) if name == "min" else T.lt(T.num(term(bk)), T.num(term(k))))
        elif isinstance(k, str) and isinstance(bk, str):
            c = TRUE if (k < bk if name == "min" else bk < k) else FALSE
        elif isinstance(k, Arr) or isinstance(bk, Arr):
            x, y = (k, bk) if name == "min" else (bk, k)
            c = I.decide(I.truth(I._compare("Lt", x, y)))
        elif k is None or bk is None:
            I.raise_("TypeError", "'<' not supported between instances")
        else:
            return Top(name)
        if c.op == "true":
            bk, bv = k, v
        elif c.op != "false":
            if isnum(v) and isnum(bv):
                bv = I.join_alts([(c, v), (T.lnot(c), bv)])
            else:
                bv = Phi(((c, v), (T.lnot(c), bv)))
            bk = I.join_alts([(c, k), (T.lnot(c), bk)]) if isnum(k) and isnum(bk) else bk
    return bv


def zip_items(I, args):
    fin = [a for a in args if not isinstance(a, Inf)]
    if not fin:
        raise Unsupported("zip of infinite iterators")
    cols = [None if isinstance(a, Inf) else I.iterate(a) for a in args]
    n = min(len(c) for c in cols if c is not None)
    return [tuple((a.f(i) if c is None else c[i]) for a, c in zip(args, cols)) for i in range(n)]


LIFT_ALL = {"len", "int", "float", "bool", "abs", "isinstance", "range", "round", "str", "list", "tuple", "set", "dict", "sum", "min", "max",
            "sorted", "enumerate", "reversed", "type", "iter", "any", "all", "getattr", "hasattr", "callable", "repr", "zip", "map", "open", "divmod",
            "pow"}


def builtin(I, name, args, kw):
    if name in LIFT_ALL and name != "isinstance":
        for i, a in enumerate(args):
            if isinstance(a, Phi):
                b = I.flat(a)
                if isinstance(b, Phi):
                    if name == "bool":
                        break
                    return I.lift(b, lambda x: builtin(I, name, args[:i] + [x] + args[i + 1:], kw))
                args[i] = b
    if name == "isinstance":
        v = args[0]
        if isinstance(v, Phi):
            r = FALSE
            for g, x in I.alts(v):
                y = isinst(I, x, args[1])
                if isinstance(y, Top):
                    return y
                if y:
                    r = T.lor(r, g)
            return mkscalar(I.decide(r), "bool")
        return isinst(I, v, args[1])
    if name == "len":
        return b_len(I, args[0])
    if name == "int":
        return to_int(I, args[0]) if args else 0
    if name == "float":
        return to_float(I, args[0]) if args else 0.0
    if name == "bool":
        return mkscalar(I.decide(I.truth(args[0])), "bool") if args else False
    if name == "str":
        return to_str(I, args[0]) if args else ""
    if name == "repr":
        return repr(args[0]) if isinstance(args[0], (int, float, str)) else Top("repr")
    if name == "print" or name == "breakpoint":
        I.events.append(("print", tuple(args)))
        return None
    if name == "range":
        a = [I.index_int(x) for x in args]
        if not all(isinstance(x, int) for x in a):
            for x in args:
                if isinstance(x, float) or isinstance(x, Sc) and "float" in x.ty:
                    I.raise_("TypeError", "'float' object cannot be interpreted as an integer")
            return Top("range of symbolic length")
        if len(range(*a)) > 100000:
            return Top("long range")
        return tuple(range(*a))
    if name == "abs":
        v = args[0]
        if isnum(v):
            if isinstance(v, (int, float)):
                return abs(v)
            return mkscalar(T.fn("abs", T.num(v.t)), v.ty)
        if isinstance(v, Ref) and v.kind == "obj":
            m = I.class_lookup(v.cls, "__abs__")
            if m is not None:
                return I.call(Bound(m, v), [], {})
        if isinstance(v, (Arr, MaskSel)):
            return N.map1(I, v, N.UN_KEEP["abs"], "keep")
        if isinstance(v, Top):
            return v
        I.raise_("TypeError", "bad operand type for abs(): '%s'" % tname(v))
    if name == "round":
        v = args[0]
        d = arg(args, kw, 1, "ndigits")
        if isinstance(v, (Arr,)):
            return np_round(I, [v] + args[1:], {})
        if not isnum(v):
            return Top("round")
        if d is None:
            return mkscalar(T.fn("round", T.num(term(v))), "int")
        if isinstance(d, int):
            if isinstance(v, (int, float)):
                return round(v, d)
            c = closed_value(T.num(term(v)))
            if c is not None:
                lo, hi = round(float(c[0] - 4 * c[1]), d), round(float(c[0] + 4 * c[1]), d)
                if lo == hi:
                    return lo
            p = const(10 ** d) if d >= 0 else T.div(T.ONE, const(10 ** -d))
            return mkscalar(T.div(T.fn("round", T.mul(T.num(term(v)), p)), p), v.ty)
        return Top("round")
    if name == "divmod":
        return (I._binop(_ast.FloorDiv(), args[0], args[1]), I._binop(_ast.Mod(), args[0], args[1]))
    if name == "pow" and len(args) == 2:
        return I._binop(_ast.Pow(), args[0], args[1])
    if name in ("min", "max"):
        items = args if len(args) > 1 else None
        if items is None:
            if isinstance(args[0], (Top, MaskSel)):
                return Top(name)
            items = I.iterate(args[0])
        return minmax(I, [I.clean(x) for x in items], name, kw.get("key"), kw.get("default", UNBOUND))
    if name == "sum":
        if isinstance(args[0], (Top, MaskSel)):
            return Top("sum")
        r = arg(args, kw, 1, "start", 0)
        for x in I.iterate(args[0]):
            r = I.binop(OPS["Add"], r, x)
        return r
    if name in ("any", "all"):
        if isinstance(args[0], Top):
            return args[0]
        r = FALSE if name == "any" else TRUE
        for x in I.iterate(args[0]):
            t = I.truth(x)
            r = T.lor(r, t) if name == "any" else T.land(r, t)
        return mkscalar(I.decide(r), "bool")
    if name in ("list", "tuple", "set", "frozenset"):
        if not args:
            return I.newlist([]) if name == "list" else (() if name == "tuple" else I.newset([]))
        v = args[0]
        if isinstance(v, Top):
            return v
        if isinstance(v, Ref) and v.kind != "obj" and isinstance(I.st.cells[v.id], Top):
            return Top(name)
        if isinstance(v, MaskSel):
            return Top(name)
        items = I.iterate(v)
        return I.newlist(items) if name == "list" else (tuple(items) if name == "tuple" else I.newset(items))
    if name == "dict":
        d = {}
        if args:
            v = args[0]
            if isinstance(v, Top):
                return v
            if isinstance(v, Ref) and v.kind == "dict":
                c = I.st.cells[v.id]
                if isinstance(c, Top):
                    return Top("dict")
                d.update(c)
            elif isinstance(v, Row):
                d.update(I.st.cells[v.todict(I).id])
            else:
                for kv in I.iterate(v):
                    k, x = I.unpack(kv, 2)
                    d[I.key(k)] = x
        d.update(kw)
        return I.newdict(d)
    if name == "zip":
        if any(isinstance(a, Top) for a in args):
            return Top("zip")
        return Iter(tuple(zip_items(I, args)))
    if name == "enumerate":
        if isinstance(args[0], Top):
            return args[0]
        s = arg(args, kw, 1, "start", 0)
        return Iter(tuple((i + s, x) for i, x in enumerate(I.iterate(args[0]))))
    if name == "reversed":
        if isinstance(args[0], Top):
            return args[0]
        return Iter(tuple(reversed(I.iterate(args[0]))))
    if name == "sorted":
        if isinstance(args[0], Top):
            return args[0]
        r = sort_items(I, I.iterate(args[0]), kw.get("key"), kw.get("reverse", False))
        return Top("sorted") if r is None else I.newlist(r)
    if name == "map":
        if any(isinstance(a, Top) for a in args):
            return Top("map")
        return Iter(tuple(I.call(args[0], list(t), {}) for t in zip_items(I, args[1:])))
    if name == "filter":
        out = []
        if isinstance(args[1], Top):
            return args[1]
        for x in I.iterate(args[1]):
            c = I.decide(I.truth(I.call(args[0], [x], {}) if args[0] is not None else x))
            if c.op == "true":
                out.append(x)
            elif c.op != "false":
                return Top("filter")
        return Iter(tuple(out))
    if name == "iter":
        v = args[0]
        if isinstance(v, (Top, Inf)):
            return v
        return Iter(tuple(I.iterate(v)))
    if name == "next":
        v = args[0]
        if isinstance(v, Inf):
            raise Unsupported("next on infinite iterator")
        if isinstance(v, Iter):
            if v.items:
                x = v.items[0]
                raise_if_shared = None
                v2 = v
                v2.items = tuple(v.items)[1:]
                return x
            if len(args) > 1:
                return args[1]
            I.raise_("StopIteration")
        return Top("next")
    if name == "getattr":
        if not isinstance(args[1], str):
            if isinstance(args[1], (Top, StrT)):
                return Top("getattr")
            I.raise_("TypeError", "attribute name must be string")
        if len(args) > 2:
            n0 = len(I.exits)
            try:
                return I.getattr_(args[0], args[1])
            except AbsRaise as e:
                if e.exc.name != "AttributeError":
                    raise
                return args[2]
        return I.getattr_(args[0], args[1])
    if name == "hasattr":
        if not isinstance(args[1], str):
            return Top("hasattr")
        if isinstance(args[0], Top):
            return args[0]
        try:
            I.getattr_(args[0], args[1])
            return True
        except AbsRaise as e:
            if e.exc.name != "AttributeError":
                raise
            return False
    if name == "setattr":
        if not isinstance(args[1], str):
            raise Unsupported("setattr with unknown name")
        I.setattr_(args[0], args[1], args[2])
        return None
    if name == "delattr":
        I.delattr_(args[0], args[1])
        return None
    if name == "callable":
        v = args[0]
        if isinstance(v, (Func, Bound, Native, ClassVal, Partial, ExtMethod, Ext)):
            return True
        if isinstance(v, Ref) and v.kind == "obj":
            return I.class_lookup(v.cls, "__call__") is not None
        if isinstance(v, Spline):
            return True
        if isinstance(v, (Top, Model)):
            return Top("callable")
        return False
    if name == "type":
        if len(args) != 1:
            return Top("type()")
        v = args[0]
        if isinstance(v, Ref) and v.kind == "obj":
            return v.cls
        n = type_name(I, v)
        return Ext(n) if n else Top("type")
    if name == "issubclass":
        a, b = args
        if isinstance(a, ClassVal):
            bs = b if isinstance(b, tuple) else (b,)
            return any(x in a.mro for x in bs)
        return Top("issubclass")
    if name == "id":
        v = args[0]
        return 1000000 + v.id if isinstance(v, Ref) else Top("id")
    if name == "hash":
        return Top("hash")
    if name == "vars":
        v = args[0]
        if isinstance(v, Ref) and v.kind == "obj":
            return AttrDict(v)
        return Top("vars")
    if name == "open":
        return file_open(I, args, kw)
    if name == "slice":
        a = list(args)
        return slice(*a)
    if name == "super":
        if len(args) == 2:
            return Super(args[0], args[1])
        return Top("super")
    if name == "complex":
        return Top("complex")
    if name == "object":
        return Ref(I.alloc({}), "obj", ClassVal("object", [], I.alloc({}), None, None))
    if name.startswith("object."):
        m = name[7:]
        if m == "__getattribute__" or m == "__getattr__":
            return I.default_getattr(args[0], args[1])
        if m == "__setattr__":
            I.default_setattr(args[0], args[1], args[2])
            return None
        if m == "__new__":
            return I.newobj(args[0])
        if m == "__init__":
            return None
        if m == "__delattr__":
            I.delattr_(args[0], args[1])
            return None
        return Top("object." + m)
    if name in ("property", "staticmethod", "classmethod"):
        return Descr(name, args[0] if args else None, args[1] if len(args) > 1 else None)
    if name in ("dict.items", "dict.keys", "dict.values", "dict.get", "list.append", "str.join", "str.format", "str.split", "dict.fromkeys"):
        from . import pymodel
        if name == "dict.fromkeys":
            return I.newdict({I.key(k): (args[1] if len(args) > 1 else None) for k in I.iterate(args[0])})
        return pymodel.method(I, args[0], name.split(".")[1], args[1:], kw)
    if is_exc_name(name):
        return Exc(name, tuple(args), I.where())
    if name in ("ord", "chr", "hex", "bin", "oct") and isinstance(args[0], (str, int)):
        import builtins
        return getattr(builtins, name)(args[0])
    if name in ("format",):
        return I.fmt_value(args[0], args[1] if len(args) > 1 else "")
    if name in ("input", "exec", "eval", "compile", "__import__", "globals"):
        raise Unsupported(name)
    I.unmodelled["builtins." + name] = I.unmodelled.get("builtins." + name, 0) + 1
    return Top("builtin " + name)


# ================================================================ cv2: relative pose of two views
class Essential(Model):
    """essential matrix of two point lists (as viewing rays in normalised coordinates)"""

    def __init__(self, a, b):
        self.a, self.b = a, b

    def getattr(self, I, name):
        return Top("essential matrix")


def _cv_normalised(I, pts, K):
    pts = I.flat(pts) if isinstance(pts, Phi) else pts
    if not isinstance(pts, Arr) or len(pts.shape) != 2 or pts.shape[1] != 2 or K is None:
        return None
    fx, fy, cx, cy = K
    out = []
    for k, t in enumerate(N.elems(I, pts)):
        f, c = (fy, cy) if k % 2 else (fx, cx)
        out.append(T.div(T.sub(T.num(t), c), f))
    return out


def _cv_matrix(I, K):
    K = I.flat(K) if isinstance(K, Phi) else K
    if not isinstance(K, Arr) or K.shape != (3, 3):
        return None
    e = [T.num(t) for t in N.elems(I, K)]
    for k, w in ((1, 0), (3, 0), (6, 0), (7, 0), (8, 1)):
        if e[k] is not T.const(w):
            return None
    return e[0], e[4], e[2], e[5]


def _cv_focal(I, focal, pp):
    f, c = N.asarr(I, focal), N.asarr(I, pp)
    if not isinstance(f, Arr) or not isinstance(c, Arr):
        return None
    f, c = [T.num(t) for t in N.elems(I, f)], [T.num(t) for t in N.elems(I, c)]
    return (f[0], f[0], c[0], c[1]) if len(c) == 2 and len(f) == 1 else None


@reg("cv2.findEssentialMat")
def cv_essential(I, args, kw):
    third = arg(args, kw, 2, "cameraMatrix", None)
    if "focal" in kw or "pp" in kw or (len(args) > 2 and not (isinstance(third, Arr) and len(third.shape) == 2)):
        K = _cv_focal(I, kw.get("focal", args[2] if len(args) > 2 else 1.0), kw.get("pp", args[3] if len(args) > 3 else (0.0, 0.0)))
    elif third is None:
        K = (T.const(1), T.const(1), T.const(0), T.const(0))
    else:
        K = _cv_matrix(I, third)
    a, b = (_cv_normalised(I, arg(args, kw, n, "points%d" % (n + 1)), K) for n in (0, 1))
    if a is None or b is None:
        return (Top("essential matrix"), Top("mask"))
    return (Essential(a, b), Top("mask"))


@reg("cv2.recoverPose")
def cv_pose(I, args, kw):
    """I.cv_pose = (rays of the first view, rays of the second view, R, t): the pose of true correspondences; anything
    else handed to the estimation gives an arbitrary pose"""
    bad = (Top("pose"),) * 4
    E = arg(args, kw, 0, "E")
    K = arg(args, kw, 3, "cameraMatrix", None)
    if isinstance(K, Arr) and K.shape == (3, 3):
        K = _cv_matrix(I, K)
    elif K is None:
        K = _cv_focal(I, kw.get("focal", 1.0), kw.get("pp", (0.0, 0.0)))
    else:
        K = None
    if not hasattr(I, "cv_pose") or not isinstance(E, Essential):
        return bad
    a, b = (_cv_normalised(I, arg(args, kw, n, "points%d" % n), K) for n in (1, 2))
    if a is None or b is None:
        return bad
    A, B, R, t, conds = I.cv_pose

    def same(p, q):
        if len(p) != len(q):
            return False
        for u, v in zip(p, q):
            if u is not v:
                w, used = T.refute(u, v, list(I.st.pc) + conds, 8, True, 1e-8)
                if w is not None:
                    return False
                if not used:
                    return None
        return True
    st = [same(E.a, a), same(E.b, b)]
    fwd, back = [same(a, A), same(b, B)], [same(a, B), same(b, A)]
    if None in st + fwd + back:
        return bad
    if all(st) and all(fwd):
        pass
    elif all(st) and all(back):
        Rt = [R[j * 3 + i] for i in range(3) for j in range(3)]
        t = [T.neg(sum_t([T.mul(Rt[3 * i + j], t[j]) for j in range(3)])) for i in range(3)]
        R = Rt
    else:
        R = [T.sym("pose:R%d" % i, -1, 1) for i in range(9)]
        t = [T.sym("pose:t%d" % i, -1, 1) for i in range(3)]
    n = T.sym("pose:n", 1, 10, integer=True)
    return (Sc(n, "int"), N.new(I, list(R), (3, 3), "float"), N.new(I, list(t), (3, 1), "float"), Top("mask"))


def sum_t(ts):
    s = ts[0]
    for t in ts[1:]:
        s = T.add(s, t)
    return s


# ================================================================ cv2: epipolar lines of two images
class Fundamental(Model):
    """fundamental matrix of two point lists"""

    def __init__(self, a, b):
        self.a, self.b = a, b

    def getattr(self, I, name):
        return Top("fundamental matrix")


def _cv_points(I, pts):
    pts = I.flat(pts) if isinstance(pts, Phi) else pts
    if not isinstance(pts, Arr) or len(pts.shape) < 2 or pts.shape[-1] != 2:
        return None
    return [T.num(t) for t in N.elems(I, pts)]


@reg("cv2.findFundamentalMat")
def cv_fundamental(I, args, kw):
    a, b = (_cv_points(I, arg(args, kw, n, "points%d" % (n + 1))) for n in (0, 1))
    if a is None or b is None or len(a) != len(b):
        return (Top("fundamental matrix"), Top("mask"))
    return (Fundamental(a, b), Top("mask"))


@reg("cv2.computeCorrespondEpilines")
def cv_epilines(I, args, kw):
    """I.cv_F = (points of the first image, points of the second image, rows of F with p2' F p1 = 0): lines a x + b y + c = 0
    in the other image (left unscaled); the matrix of any other points is arbitrary"""
    p, which, F = _cv_points(I, arg(args, kw, 0, "points")), arg(args, kw, 1, "whichImage"), arg(args, kw, 2, "F")
    known = getattr(I, "cv_F", None)
    if p is None or known is None or which not in (1, 2) or not isinstance(F, Fundamental):
        return Top("epipolar lines")
    f = known[2]
    if list(F.a) == list(known[1]) and list(F.b) == list(known[0]):
        f = [list(r) for r in zip(*f)]
    elif list(F.a) != list(known[0]) or list(F.b) != list(known[1]):
        return Top("epipolar lines of other points")
    if which == 2:
        f = [list(r) for r in zip(*f)]
    out = []
    for u, v in zip(p[::2], p[1::2]):
        l = [T.add(T.add(T.mul(r[0], u), T.mul(r[1], v)), r[2]) for r in f]
        out += l
    return N.new(I, out, (len(p) // 2, 1, 3), "float")
