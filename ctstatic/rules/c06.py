"""Camera = lens after projection after pose: the abstract value of Camera.imageFromSpace and Camera.getRay is compared
with the composition of its three parts, for every projection and lens class, and with the forward/backward round trip."""
from .common import *

LENSES = {
    "none": lambda S: None,
    "NoDistortion": lambda S: S.ct("NoDistortion")(),
    "Brown": lambda S: S.ct("BrownLensDistortion")(S.f("k1", 0, 0.3), S.f("k2", 0, 0.1), S.f("k3", 0, 0.05)),
    "ABC": lambda S: S.ct("ABCDistortion")(S.f("a", 0, 0.05), S.f("b", 0, 0.05), S.f("c", 0, 0.05)),
}


def run(R):
    for kind in PROJ:
        for lens in LENSES:
            def chain(S):
                cam, p, o = camera(S, kind, lens=LENSES[lens](S))
                pt, q = point3(S, lo=-60, hi=60), point3(S, "2", lo=-60, hi=60)
                for hide in (None, True, False):
                    kw = {} if hide is None else dict(hide_backpoints=hide)
                    pk = {} if hide is None else dict(hide_backpoints=hide)
                    for label, a in (("point", S.arr(pt)), ("batch", S.arr([pt, q]))):
                        want = S.call(cam.lens.distortedFromImage,
                                      S.call(cam.projection.imageFromCamera, S.call(cam.orientation.cameraFromSpace, a), **pk))
                        R.eq("imageFromSpace composes (%s, hide=%s)" % (label, hide), S.call(cam.imageFromSpace, a, **kw), want)
                if lens in ("none", "NoDistortion"):
                    c = ref_camera_from_space(o, pt)
                    if kind == "RectilinearProjection":
                        S.assume.append(c[2] < -0.5)
                    R.eq("imageFromSpace formula", S.call(cam.imageFromSpace, S.arr(pt)), ref_image(kind, c, p))
            R.group("%s, lens %s: forward" % (SHORT[kind], lens), chain, allowed=("LinAlgError",))

            def rays(S):
                cam, p, o = camera(S, kind, lens=LENSES[lens](S))
                uv, uv2 = pixel(S), pixel(S, "2")
                for normed in (False, True):
                    for label, a in (("pixel", S.arr(uv)), ("batch", S.arr([uv, uv2]))):
                        off, d = unpack2(S, S.call(cam.getRay, a, normed=normed))
                        R.eq("origin is the camera position (%s, normed=%s)" % (label, normed), off, o.t())
                        want = S.call(cam.orientation.spaceFromCamera,
                                      S.call(cam.projection.getRay, S.call(cam.lens.imageFromDistorted, a), normed=normed), direction=True)
                        R.eq("direction composes (%s, normed=%s)" % (label, normed), d, want)
                    if normed:
                        off, d = unpack2(S, S.call(cam.getRay, S.arr(uv), normed=True))
                        v = vec(S, d)
                        R.eq("unit length", dot(v, v), 1)
            R.group("%s, lens %s: rays" % (SHORT[kind], lens), rays, allowed=("LinAlgError",))

            def trip(S):
                cam, p, o = camera(S, kind, lens=LENSES[lens](S))
                uv = pixel(S)
                S.assume += near_center(uv, p)
                off, d = unpack2(S, S.call(cam.getRay, S.arr(uv)))
                k = S.f("d", 0.5, 200)
                pt = [a + x(k) * b for a, b in zip(vec(S, off), vec(S, d))]
                R.eq("a point on the ray of a pixel is seen at that pixel", S.call(cam.imageFromSpace, S.arr(pt)), list(uv), rel=1e-6)
            R.group("%s, lens %s: round trip" % (SHORT[kind], lens), trip, allowed=("LinAlgError",))

    def plumbing(S):
        """the camera exposes position and its parts' parameters"""
        cam, p, o = camera(S)
        R.eq("position", S.call(cam.getPos), o.t())
    R.group("camera position", plumbing, allowed=("LinAlgError",))


def unpack2(S, v):
    I = S.I
    items = I.unpack(v.v, 2)
    return Obj(S, items[0]), Obj(S, items[1])


def near_center(uv, p, r=0.8):
    """pixel within the radius for which the lens models are inverted"""
    a, b = (x(uv[0]) - p.cx), (x(uv[1]) - p.cy)
    m = min2(min2(p.w, p.h) / 2, min2(p.fx, p.fy))
    return [a * a + b * b < (r * m) * (r * m)]
