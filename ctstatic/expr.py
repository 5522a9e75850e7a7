"""operator syntax for specification terms"""
from . import terms as T


class X:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __add__(self, o):
        return X(T.add(self.t, tm(o)))

    __radd__ = __add__

    def __sub__(self, o):
        return X(T.sub(self.t, tm(o)))

    def __rsub__(self, o):
        return X(T.sub(tm(o), self.t))

    def __mul__(self, o):
        return X(T.mul(self.t, tm(o)))

    __rmul__ = __mul__

    def __truediv__(self, o):
        return X(T.div(self.t, tm(o)))

    def __rtruediv__(self, o):
        return X(T.div(tm(o), self.t))

    def __neg__(self):
        return X(T.neg(self.t))

    def __pow__(self, n):
        return X(T.powi(self.t, n))

    def __lt__(self, o):
        return T.lt(self.t, tm(o))

    def __le__(self, o):
        return T.le(self.t, tm(o))

    def __gt__(self, o):
        return T.lt(tm(o), self.t)

    def __ge__(self, o):
        return T.le(tm(o), self.t)


def tm(v):
    if isinstance(v, X):
        return v.t
    if isinstance(v, T.Term):
        return v
    if type(v).__name__ == "Obj":
        return tm(v.v)
    if hasattr(v, "t"):
        return v.t
    return T.const(v)


def x(v):
    return X(tm(v))


def _f(op):
    def g(*a):
        return X(T.fn(op, *[tm(v) for v in a]))
    return g


sin, cos, tan, atan, atan2, asin, acos, sqrt, exp, log, absx, f32, floor = map(
    _f, ("sin", "cos", "tan", "atan", "atan2", "asin", "acos", "sqrt", "exp", "log", "abs", "f32", "floor"))
min2, max2, mod = _f("min2"), _f("max2"), _f("mod")
PI = X(T.const("pi")) if False else None


def ite(c, a, b):
    return X(T.ite(c, tm(a), tm(b)))


def rad(v):
    return x(v) * pi() / 180


def deg(v):
    return x(v) * 180 / pi()


def pi():
    return X(T.PI)


def nan():
    return X(T.NAN)


def dot(a, b):
    r = x(a[0]) * b[0]
    for u, v in zip(a[1:], b[1:]):
        r = r + x(u) * v
    return r


def cross(a, b):
    a = [x(v) for v in a]
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def norm(a):
    return sqrt(dot(a, a))


def matvec(M, v):
    return [dot(r, v) for r in M]


def transpose(M):
    return [list(r) for r in zip(*M)]


def matmul(A, B):
    Bt = transpose(B)
    return [[dot(r, c) for c in Bt] for r in A]
