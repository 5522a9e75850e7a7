"""Abstract values and abstract states of the analyser."""
from . import terms as T
from .terms import Term, TRUE, FALSE


class Top:
    """any value at all (an operation outside the modelled fragment)"""
    __slots__ = ("why",)

    def __init__(self, why=""):
        self.why = why

    def __repr__(self):
        return "Top(%s)" % self.why


class Sc:
    """symbolic scalar; ty in float,int,bool,npfloat,npint,npbool"""
    __slots__ = ("t", "ty")

    def __init__(self, t, ty):
        self.t = t
        self.ty = ty

    def __repr__(self):
        return "Sc(%s:%s)" % (T.show(self.t), self.ty)

    def __eq__(self, o):
        return isinstance(o, Sc) and o.t is self.t and o.ty == self.ty

    def __hash__(self):
        return hash((self.t.id, self.ty))


class StrT:
    """symbolic string"""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return "StrT(%s)" % T.show(self.t)


class Arr:
    """view on a buffer cell"""
    __slots__ = ("buf", "idx", "shape", "dtype")

    def __init__(self, buf, idx, shape, dtype):
        self.buf = buf
        self.idx = idx
        self.shape = shape
        self.dtype = dtype

    def __repr__(self):
        return "Arr%s<%s>@%d" % (self.shape, self.dtype, self.buf)

    def __eq__(self, o):
        return isinstance(o, Arr) and (self.buf, self.idx, self.shape, self.dtype) == (o.buf, o.idx, o.shape, o.dtype)

    def __hash__(self):
        return hash((self.buf, self.shape))


class MaskSel:
    """arr[mask] with a symbolic mask: the selected elements, length unknown"""
    __slots__ = ("elems", "mask", "shape", "dtype", "rest")

    def __init__(self, elems, mask, shape, dtype, rest=()):
        self.elems = elems          # list of terms, full shape = shape + rest
        self.mask = mask            # list of bool terms over shape
        self.shape = shape
        self.dtype = dtype
        self.rest = rest


class Ref:
    """reference to a heap cell: kind in obj, list, dict, set"""
    __slots__ = ("id", "kind", "cls")

    def __init__(self, id, kind, cls=None):
        self.id = id
        self.kind = kind
        self.cls = cls

    def __repr__(self):
        return "Ref(%s#%d%s)" % (self.kind, self.id, ":" + self.cls.name if self.cls else "")

    def __eq__(self, o):
        return isinstance(o, Ref) and o.id == self.id

    def __hash__(self):
        return hash(("ref", self.id))


class Func:
    __slots__ = ("node", "name", "frame", "module", "defaults", "kwdefaults", "owner", "info")

    def __init__(self, node, name, frame, module, defaults, kwdefaults, owner, info):
        self.node = node
        self.name = name
        self.frame = frame
        self.module = module
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.owner = owner
        self.info = info

    def __repr__(self):
        return "Func(%s)" % self.name


class Bound:
    __slots__ = ("func", "self_")

    def __init__(self, func, self_):
        self.func = func
        self.self_ = self_

    def __repr__(self):
        return "Bound(%r of %r)" % (self.func, self.self_)

    def __eq__(self, o):
        return isinstance(o, Bound) and o.func is self.func and o.self_ == self.self_

    def __hash__(self):
        return hash((id(self.func), hash(self.self_)))


class ClassVal:
    __slots__ = ("name", "bases", "cell", "module", "node", "mro")

    def __init__(self, name, bases, cell, module, node):
        self.name = name
        self.bases = bases
        self.cell = cell
        self.module = module
        self.node = node
        mro = [self]
        for b in bases:
            for c in (b.mro if isinstance(b, ClassVal) else [b]):
                if c in mro:
                    mro.remove(c)
                mro.append(c)
        self.mro = mro

    def __repr__(self):
        return "Class(%s)" % self.name


class ModuleVal:
    __slots__ = ("name", "cell", "path")

    def __init__(self, name, cell, path):
        self.name = name
        self.cell = cell
        self.path = path

    def __repr__(self):
        return "Module(%s)" % self.name


class Ext:
    """external name (numpy.sin, json.dumps, int, ...)"""
    __slots__ = ("path",)

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return "Ext(%s)" % self.path

    def __eq__(self, o):
        return isinstance(o, Ext) and o.path == self.path

    def __hash__(self):
        return hash(("ext", self.path))


class ExtMethod:
    """method of a modelled value"""
    __slots__ = ("obj", "name")

    def __init__(self, obj, name):
        self.obj = obj
        self.name = name

    def __repr__(self):
        return "ExtMethod(%r.%s)" % (self.obj, self.name)


class Native:
    """host callable used by rules as an abstract callback"""
    __slots__ = ("fn", "name")

    def __init__(self, fn, name="native"):
        self.fn = fn
        self.name = name


class Model:
    """base class of modelled external objects (distribution, spline, file ...)"""
    def getattr(self, I, name):
        return Top("attribute %s of %s" % (name, type(self).__name__))

    def call(self, I, args, kw):
        return Top("call of %s" % type(self).__name__)

    def method(self, I, name, args, kw):
        return Top("method %s of %s" % (name, type(self).__name__))


class Phi:
    """guarded union of values that cannot share one representation"""
    __slots__ = ("alts",)

    def __init__(self, alts):
        self.alts = alts

    def __repr__(self):
        return "Phi(%s)" % ", ".join("%s->%r" % (T.show(g, 3), v) for g, v in self.alts)


class _S:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


UNBOUND = _S("UNBOUND")


class Exc:
    """exception value: builtin class name or ClassVal"""
    __slots__ = ("cls", "args", "where")

    def __init__(self, cls, args=(), where=None):
        self.cls = cls
        self.args = args
        self.where = where

    @property
    def name(self):
        return self.cls.name if isinstance(self.cls, ClassVal) else self.cls

    def __repr__(self):
        return "Exc(%s: %s)" % (self.name, ", ".join(str(a) for a in self.args))


class AbsRaise(Exception):
    def __init__(self, exc):
        self.exc = exc


class Dead(Exception):
    """the current abstract state became unreachable"""


class Unsupported(Exception):
    """the context cannot be analysed (verdict: undecided)"""


class Budget(Unsupported):
    pass


class Exit:
    __slots__ = ("kind", "st", "val")

    def __init__(self, kind, st, val=None):
        self.kind = kind
        self.st = st
        self.val = val


_ids = [0]


def newid():
    _ids[0] += 1
    return _ids[0]


class State:
    __slots__ = ("cells", "pc", "marks", "facts")

    def __init__(self, cells=None, pc=(), marks=(), facts=None):
        self.cells = cells if cells is not None else {}
        self.pc = pc
        self.marks = marks
        self.facts = facts if facts is not None else {}

    def fork(self, cond=None):
        s = State(dict(self.cells), self.pc, self.marks, self.facts)
        if cond is not None:
            s.assume(cond)
        return s

    def assume(self, cond):
        if cond.op == "true":
            return
        self.pc = self.pc + (cond,)
        self.marks = self.marks + (_ids[0] + 1,)
        f = dict(self.facts)
        _learn(f, cond, True)
        self.facts = f

    def rebuild_facts(self):
        f = {}
        for c in self.pc:
            _learn(f, c, True)
        self.facts = f


def _learn(f, c, v):
    if c.op == "not":
        _learn(f, c.args[0], not v)
        return
    f[c.id] = v
    if c.op == "and" and v:
        for a in c.args:
            _learn(f, a, True)
    if c.op == "lt" and v:
        a, b = c.args
        for other in (T.lt(b, a), T.eqn(a, b)):
            if other.op not in ("true", "false"):
                f[other.id] = False
    if c.op == "eqn" and v:
        a, b = c.args
        for other in (T.lt(b, a), T.lt(a, b)):
            if other.op not in ("true", "false"):
                f[other.id] = False


def simp(c, facts, memo=None):
    """simplify a boolean term under known facts"""
    if not facts:
        return c
    v = facts.get(c.id)
    if v is not None:
        return TRUE if v else FALSE
    if c.op not in ("not", "and"):
        return c
    if memo is None:
        memo = {}
    r = memo.get(c.id)
    if r is None:
        if c.op == "not":
            r = T.lnot(simp(c.args[0], facts, memo))
        else:
            r = T.land(simp(c.args[0], facts, memo), simp(c.args[1], facts, memo))
        memo[c.id] = r
    return r


# ------------------------------------------------------------------ intervals
_iv = {}
INFTY = float("inf")


def interval(t):
    r = _iv.get(t.id)
    if r is None:
        r = _interval(t)
        _iv[t.id] = r
    return r


def _interval(t):
    o = t.op
    a = t.args
    if o == "const":
        v = float(a[0]) if abs(a[0]) < 10 ** 300 else (INFTY if a[0] > 0 else -INFTY)
        return (v, v)
    if o == "named":
        return (a[1], a[1])
    if o == "pi":
        return (3.1415926, 3.1415927)
    if o == "sym":
        i = T.SYMS[a[0]]
        return (i["lo"], i["hi"])
    if o == "neg":
        l, h = interval(a[0])
        return (-h, -l)
    if o == "add":
        (l1, h1), (l2, h2) = interval(a[0]), interval(a[1])
        l, h = l1 + l2, h1 + h2
        return (l if l == l else -INFTY, h if h == h else INFTY)
    if o == "mul":
        (l1, h1), (l2, h2) = interval(a[0]), interval(a[1])
        ps = []
        for x in (l1, h1):
            for y in (l2, h2):
                ps.append(0.0 if x == 0 or y == 0 else x * y)
        return (min(ps), max(ps))
    if o == "div":
        (l1, h1), (l2, h2) = interval(a[0]), interval(a[1])
        if l2 > 0 or h2 < 0:
            ps = []
            for x in (l1, h1):
                for y in (l2, h2):
                    if abs(x) == INFTY and abs(y) == INFTY:
                        return (-INFTY, INFTY)
                    ps.append(x / y)
            return (min(ps), max(ps))
        return (-INFTY, INFTY)
    if o == "powi":
        l, h = interval(a[0])
        n = a[1]
        try:
            if n % 2 == 1:
                return (l ** n, h ** n)
            if l >= 0:
                return (l ** n, h ** n)
            if h <= 0:
                return (h ** n, l ** n)
            return (0.0, max(l ** n, h ** n))
        except OverflowError:
            return (-INFTY if n % 2 else 0.0, INFTY)
    if o in ("sin", "cos"):
        return (-1.0, 1.0)
    if o == "abs":
        l, h = interval(a[0])
        if l >= 0:
            return (l, h)
        if h <= 0:
            return (-h, -l)
        return (0.0, max(-l, h))
    if o == "sqrt":
        l, h = interval(a[0])
        import math
        return (math.sqrt(max(l, 0.0)), math.sqrt(h) if h >= 0 and h < INFTY else (INFTY if h > 0 else 0.0))
    if o == "exp":
        import math
        l, h = interval(a[0])
        f = lambda x: 0.0 if x < -700 else (INFTY if x > 700 else math.exp(x))
        return (f(l) * 0.999999, f(h) * 1.000001)
    if o in ("atan2",):
        return (-3.1415927, 3.1415927)
    if o in ("atan", "asin"):
        return (-1.5707964, 1.5707964)
    if o == "acos":
        return (0.0, 3.1415927)
    if o == "tan":
        import math
        l, h = interval(a[0])
        if -1.5707 < l and h < 1.5707:
            return (math.tan(l) - 1e-9, math.tan(h) + 1e-9)
        return (-INFTY, INFTY)
    if o == "ite":
        (l1, h1), (l2, h2) = interval(a[1]), interval(a[2])
        return (min(l1, l2), max(h1, h2))
    if o == "mod":
        l, h = interval(a[1])
        if l > 0:
            return (0.0, h)
        return (-INFTY, INFTY)
    if o in ("floor", "ceil", "trunc", "round"):
        l, h = interval(a[0])
        return (0.0 if l >= 0 else l - 1, 0.0 if h <= 0 and o in ("floor", "trunc", "round") else h + 1)
    if o == "max2":
        (l1, h1), (l2, h2) = interval(a[0]), interval(a[1])
        return (max(l1, l2), max(h1, h2))
    if o == "min2":
        (l1, h1), (l2, h2) = interval(a[0]), interval(a[1])
        return (min(l1, l2), min(h1, h2))
    if o == "sign":
        return (-1.0, 1.0)
    return (-INFTY, INFTY)


_bc = {}


def bsimp(c):
    """decide comparisons by intervals (symbols are finite in their declared range)"""
    r = _bc.get(c.id)
    if r is None:
        r = _bsimp(c)
        _bc[c.id] = r
    return r


def _exact(t):
    """the interval of t carries no rounding"""
    if t.op in ("const", "sym", "named"):
        return True
    if t.op == "mod":
        return t.args[1].op == "const"
    if t.op in ("neg", "abs", "min2", "max2"):
        return all(_exact(a) for a in t.args)
    if t.op == "ite":
        return _exact(t.args[1]) and _exact(t.args[2])
    return False


def _bsimp(c):
    o = c.op
    if o == "not":
        return T.lnot(bsimp(c.args[0]))
    if o == "and":
        return T.land(bsimp(c.args[0]), bsimp(c.args[1]))
    if o in ("lt", "le", "eqn") and not c.args[0].mn and not c.args[1].mn:
        (l1, h1), (l2, h2) = interval(c.args[0]), interval(c.args[1])
        eps = 1e-9 * max(1.0, *(abs(x) for x in (l1, h1, l2, h2) if abs(x) < INFTY)) \
            if not (_exact(c.args[0]) and _exact(c.args[1])) else 0.0
        total = T._total(c.args[0]) and T._total(c.args[1])
        if o == "lt":
            if h1 < l2 - eps and total:
                return TRUE
            if l1 > h2 + eps or (l1 >= h2 and eps == 0):
                return FALSE
        elif o == "le":
            if h1 < l2 - eps and total:
                return TRUE
            if l1 > h2 + eps:
                return FALSE
        else:
            if h1 < l2 - eps or l1 > h2 + eps:
                return FALSE
    return c
