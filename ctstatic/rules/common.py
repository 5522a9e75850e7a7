"""shared builders of abstract inputs and the documented reference formulas"""
from .. import terms as T
from ..expr import *
from ..harness import Obj, Undecided, Quit, terms_of, feasible, NotNumeric
from ..values import Sc, Top, AbsRaise, Ref, Phi, Arr
from .. import npmodel as N

PROJ = ["RectilinearProjection", "CylindricalProjection", "EquirectangularProjection"]
SHORT = {"RectilinearProjection": "rectilinear", "CylindricalProjection": "cylindrical", "EquirectangularProjection": "equirectangular"}


class P:
    """symbolic intrinsic parameters"""

    def __init__(self, S, tag="", wide=False):
        self.fx = S.f("fx" + tag, 1500, 4000)
        self.fy = S.f("fy" + tag, 1500, 4000)
        self.cx = S.f("cx" + tag, 500, 2500)
        self.cy = S.f("cy" + tag, 500, 1500)
        self.w = S.i("w" + tag, 1000, 3000)
        self.h = S.i("h" + tag, 800, 2000)

    def kw(self):
        return dict(focallength_x_px=self.fx, focallength_y_px=self.fy, center_x_px=self.cx, center_y_px=self.cy,
                    image_width_px=self.w, image_height_px=self.h)


def proj(S, kind, tag="", p=None):
    p = p or P(S, tag)
    o = S.ct(kind)(**p.kw())
    return o, p


def pixel(S, tag=""):
    return S.f("u" + tag, 1, 3000), S.f("v" + tag, 1, 2000)


def point3(S, tag="", lo=-50, hi=50):
    return tuple(S.f(n + tag, lo, hi, specials=(0.0,)) for n in ("px", "py", "pz"))


def ref_image(kind, pt, p):
    X_, Y_, Z_ = (x(v) for v in pt)
    if kind == "RectilinearProjection":
        return [p.fx_() * (-X_ / Z_) + p.cx, p.fy_() * (Y_ / Z_) + p.cy]
    r = sqrt(X_ * X_ + Z_ * Z_)
    if kind == "CylindricalProjection":
        return [-p.fx_() * atan2(-X_, -Z_) + p.cx, -p.fy_() * Y_ / r + p.cy]
    return [-p.fx_() * atan2(-X_, -Z_) + p.cx, -p.fy_() * atan2(Y_, r) + p.cy]


P.fx_ = lambda s: x(s.fx)
P.fy_ = lambda s: x(s.fy)


def ref_ray(kind, uv, p):
    """documented ray, in the sign convention of the code (pointing into the scene, z < 0)"""
    a, b = (x(uv[0]) - p.cx) / x(p.fx), (x(uv[1]) - p.cy) / x(p.fy)
    if kind == "RectilinearProjection":
        r = [-a, b, x(1)]
    elif kind == "CylindricalProjection":
        r = [-sin(a), b, cos(a)]
    else:
        r = [-sin(a), tan(b), cos(a)]
    return [-c for c in r]


class O:
    """symbolic pose"""

    def __init__(self, S, tag=""):
        self.el = S.f("el" + tag, 1, 200)
        self.tilt = S.f("tilt" + tag, -85, 85, specials=(0.0, 90.0, 45.0))
        self.roll = S.f("roll" + tag, -175, 175, specials=(0.0,))
        self.head = S.f("head" + tag, -350, 350, specials=(0.0, 90.0))
        self.x = S.f("posx" + tag, -100, 100, specials=(0.0,))
        self.y = S.f("posy" + tag, -100, 100, specials=(0.0,))

    def kw(self):
        return dict(elevation_m=self.el, tilt_deg=self.tilt, roll_deg=self.roll, heading_deg=self.head, pos_x_m=self.x, pos_y_m=self.y)

    def ypr_kw(self):
        return dict(elevation_m=self.el, yaw_deg=self.head, pitch_deg=self.tilt, roll_deg=self.roll, pos_x_m=self.x, pos_y_m=self.y)

    def t(self):
        return [x(self.x), x(self.y), x(self.el)]

    def R(self):
        return rotation(rad(self.tilt), rad(self.roll), rad(self.head))


def rotation(tilt, roll, head):
    one, zero = x(1), x(0)
    Rr = [[cos(roll), sin(roll), zero], [-sin(roll), cos(roll), zero], [zero, zero, one]]
    Rt = [[one, zero, zero], [zero, cos(tilt), sin(tilt)], [zero, -sin(tilt), cos(tilt)]]
    Rh = [[cos(head), -sin(head), zero], [sin(head), cos(head), zero], [zero, zero, one]]
    return matmul(matmul(Rr, Rt), Rh)


def orient(S, tag="", o=None):
    o = o or O(S, tag)
    return S.ct("SpatialOrientation")(**o.kw()), o


def camera(S, kind="RectilinearProjection", tag="", lens=None):
    pr, p = proj(S, kind, tag)
    orr, o = orient(S, tag)
    cam = S.ct("Camera")(pr, orr, lens) if lens is not None else S.ct("Camera")(pr, orr)
    return cam, p, o


def ref_camera_from_space(o, pt):
    d = [x(a) - b for a, b in zip(pt, o.t())]
    return matvec(o.R(), d)


def ref_space_from_camera(o, pt, direction=False):
    r = matvec(transpose(o.R()), [x(c) for c in pt])
    if direction:
        return r
    return [a + b for a, b in zip(r, o.t())]


def rows(S, v):
    """[[terms]] of a 2-D value"""
    sh, ts = S.terms(v)
    if len(sh) != 2:
        raise Undecided("expected a 2-D result")
    return [[X(t) for t in ts[i * sh[1]:(i + 1) * sh[1]]] for i in range(sh[0])]


def vec(S, v):
    sh, ts = S.terms(v)
    return [X(t) for t in ts]


def dist2(a, b):
    d = [x(u) - v for u, v in zip(a, b)]
    return dot(d, d)
