"""Field of view, focal length and image size are mutually inverse: the three conversions of every projection class are
interpreted abstractly and composed; the composition must be the identity value number."""
from .common import *


def views(S, kind):
    hi = 150 if kind == "RectilinearProjection" else 300
    return S.f("vx", 5, hi), S.f("vy", 5, 150)


def run(R):
    for kind in PROJ:
        def conv(S, kind=kind):
            pr, p = proj(S, kind)
            fov = S.call(pr.getFieldOfView)
            fvx, fvy = vec(S, fov)
            R.eq("focal length from own view x", S.call(pr.focallengthFromFOV, view_x=fvx), p.fx)
            R.eq("focal length from own view y", S.call(pr.focallengthFromFOV, view_y=fvy), p.fy)
            R.eq("image width from own view x", S.call(pr.imageFromFOV, view_x=fvx), p.w)
            R.eq("image height from own view y", S.call(pr.imageFromFOV, view_y=fvy), p.h)
            R.eq("positional view x", S.call(pr.focallengthFromFOV, fvx), p.fx)
        R.group("%s conversions" % SHORT[kind], conv)

        def formula(S, kind=kind):
            pr, p = proj(S, kind)
            fvx, fvy = vec(S, S.call(pr.getFieldOfView))
            w2, h2 = x(p.w) / 2, x(p.h) / 2
            ax = atan(w2 / x(p.fx)) if kind == "RectilinearProjection" else w2 / x(p.fx)
            ay = h2 / x(p.fy) if kind == "EquirectangularProjection" else atan(h2 / x(p.fy))
            R.eq("horizontal angle", fvx, deg(2 * ax))
            R.eq("vertical angle", fvy, deg(2 * ay))
        R.group("%s angle" % SHORT[kind], formula)

        def edge(S, kind=kind):
            """the view angle is the angle between the rays through the image borders (centred principal point)"""
            p = P(S)
            p.cx, p.cy = (x(p.w) / 2), (x(p.h) / 2)
            pr = S.ct(kind)(**p.kw())
            fvx, fvy = vec(S, S.call(pr.getFieldOfView))
            r = vec(S, S.call(pr.getRay, S.arr([p.w, p.cy])))
            R.eq("right border lies at half the horizontal view", deg(atan2(r[0], -r[2])), fvx / 2)
            r = vec(S, S.call(pr.getRay, S.arr([p.cx, p.h])))
            R.eq("lower border lies at half the vertical view", deg(atan2(-r[1], -r[2])), fvy / 2)
        R.group("%s border rays" % SHORT[kind], edge)

        def build(S, kind=kind):
            vx, vy = views(S, kind)
            w, h = S.i("w", 1000, 3000), S.i("h", 800, 2000)
            pr = S.ct(kind)(view_x_deg=vx, image_width_px=w, image_height_px=h)
            R.eq("view x of a projection built from view x", vec(S, S.call(pr.getFieldOfView))[0], vx)
            R.eq("square pixels by default (x)", pr.focallength_x_px, pr.focallength_y_px)
            pr = S.ct(kind)(view_y_deg=vy, image=(w, h))
            R.eq("view y of a projection built from view y", vec(S, S.call(pr.getFieldOfView))[1], vy)
            R.eq("square pixels by default (y)", pr.focallength_x_px, pr.focallength_y_px)
            pr = S.ct(kind)(view_x_deg=vx, view_y_deg=vy, image=(w, h))
            R.eq("both views", S.call(pr.getFieldOfView), [vx, vy])
        R.group("%s built from view" % SHORT[kind], build)

        def change(S, kind=kind):
            """the relations keep holding after the parameters were changed"""
            vx, vy = views(S, kind)
            w, h = S.i("w", 1000, 3000), S.i("h", 800, 2000)
            pr = S.ct(kind)(view_x_deg=vx, image_width_px=w, image_height_px=h)
            w2, h2, f2, g2 = S.i("w2", 1000, 3000), S.i("h2", 800, 2000), S.f("f2", 1500, 4000), S.f("g2", 1500, 4000)
            pr.image_width_px = w2
            pr.image_height_px = h2
            pr.focallength_x_px = f2
            pr.focallength_y_px = g2
            fvx, fvy = vec(S, S.call(pr.getFieldOfView))
            R.eq("focal length x", S.call(pr.focallengthFromFOV, view_x=fvx), f2)
            R.eq("focal length y", S.call(pr.focallengthFromFOV, view_y=fvy), g2)
            R.eq("image width", S.call(pr.imageFromFOV, view_x=fvx), w2)
            R.eq("image height", S.call(pr.imageFromFOV, view_y=fvy), h2)
            ax = atan(x(w2) / 2 / x(f2)) if kind == "RectilinearProjection" else x(w2) / 2 / x(f2)
            R.eq("view x follows the image width", fvx, deg(2 * ax))
        R.group("%s after change" % SHORT[kind], change)
