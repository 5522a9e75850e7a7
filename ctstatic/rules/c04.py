"""Construction of projections: every documented way of giving the same intrinsic parameters is interpreted abstractly
and must store the same parameter values; contradictory or incomplete combinations must end in ValueError on every path."""
from .common import *

NAMES = ["focallength_x_px", "focallength_y_px", "center_x_px", "center_y_px", "image_width_px", "image_height_px"]


def run(R):
    for kind in PROJ if R.thorough else PROJ:
        def mk(S, **kw):
            return S.ct(kind)(**kw)

        def expect(S, pr, want, label):
            for n, v in want.items():
                R.eq("%s: %s" % (label, n), S.get(pr, n), v)

        def base(S):
            return (S.f("f", 100, 5000), S.f("g", 100, 5000), S.f("cx", 10, 3000), S.f("cy", 10, 2000),
                    S.i("w", 100, 5000), S.i("h", 100, 5000))

        def image_forms(S):
            f, g, cx, cy, w, h = base(S)
            half = dict(center_x_px=x(w) / 2, center_y_px=x(h) / 2, image_width_px=w, image_height_px=h,
                        focallength_x_px=f, focallength_y_px=f)
            expect(S, mk(S, focallength_px=f, image_width_px=w, image_height_px=h), half, "width and height")
            expect(S, mk(S, focallength_px=f, image=(w, h)), half, "image tuple")
            expect(S, mk(S, focallength_px=f, image=[w, h]), half, "image list")
            im = S.arr([T.const(0)] * 12, (3, 4))
            want = dict(image_width_px=4, image_height_px=3, center_x_px=2, center_y_px=1.5)
            expect(S, mk(S, focallength_px=f, image=im), want, "image array")
            im = S.arr([T.const(0)] * 36, (3, 4, 3))
            expect(S, mk(S, focallength_px=f, image=im), want, "colour image array")
        R.group("%s image size" % SHORT[kind], image_forms)

        def center_forms(S):
            f, g, cx, cy, w, h = base(S)
            want = dict(center_x_px=cx, center_y_px=cy)
            expect(S, mk(S, focallength_px=f, image=(w, h), center=(cx, cy)), want, "center tuple")
            expect(S, mk(S, focallength_px=f, image=(w, h), center_x_px=cx, center_y_px=cy), want, "two values")
            expect(S, mk(S, focallength_px=f, image=(w, h), center_x_px=cx), dict(center_x_px=cx, center_y_px=x(h) / 2), "only x")
            expect(S, mk(S, focallength_px=f, image=(w, h), center_y_px=cy), dict(center_x_px=x(w) / 2, center_y_px=cy), "only y")
            expect(S, mk(S, focallength_px=f, image=(w, h), center_x_px=0, center_y_px=0), dict(center_x_px=0, center_y_px=0), "zero center")
            expect(S, mk(S, focallength_px=f, image=(w, h), center=(0, 0)), dict(center_x_px=0, center_y_px=0), "zero center tuple")
        R.group("%s center" % SHORT[kind], center_forms)

        def focal_forms(S):
            f, g, cx, cy, w, h = base(S)
            want = dict(focallength_x_px=f, focallength_y_px=g)
            expect(S, mk(S, focallength_x_px=f, focallength_y_px=g, image=(w, h)), want, "x and y")
            expect(S, mk(S, focallength_px=(f, g), image=(w, h)), want, "tuple")
            expect(S, mk(S, focallength_px=f, image=(w, h)), dict(focallength_x_px=f, focallength_y_px=f, focallength_px=f), "single")
            m, sw, sh = S.f("mm", 5, 500), S.f("sw", 5, 50), S.f("sh", 5, 50)
            want = dict(focallength_x_px=x(m) / x(sw) * x(w), focallength_y_px=x(m) / x(sh) * x(h),
                        sensor_width_mm=sw, sensor_height_mm=sh)
            expect(S, mk(S, focallength_mm=m, sensor=(sw, sh), image=(w, h)), want, "mm, sensor tuple")
            expect(S, mk(S, focallength_mm=m, sensor_width_mm=sw, sensor_height_mm=sh, image=(w, h)), want, "mm, sensor values")
            fx = x(m) / x(sw) * x(w)
            expect(S, mk(S, focallength_mm=m, sensor_width_mm=sw, image=(w, h)),
                   dict(focallength_x_px=fx, focallength_y_px=fx, sensor_width_mm=sw, sensor_height_mm=x(sw) / x(w) * x(h)), "mm, sensor width")
            fy = x(m) / x(sh) * x(h)
            expect(S, mk(S, focallength_mm=m, sensor_height_mm=sh, image=(w, h)),
                   dict(focallength_x_px=fy, focallength_y_px=fy, sensor_height_mm=sh, sensor_width_mm=x(sh) / x(h) * x(w)), "mm, sensor height")
        R.group("%s focal length" % SHORT[kind], focal_forms)

        def view_forms(S):
            f, g, cx, cy, w, h = base(S)
            v, u = S.f("vx", 5, 150), S.f("vy", 5, 150)
            half = dict(center_x_px=x(w) / 2, center_y_px=x(h) / 2, image_width_px=w, image_height_px=h)
            fx = x(w) / (2 * tan(rad(v) / 2)) if kind == "RectilinearProjection" else x(w) / rad(v)
            fy = x(h) / rad(u) if kind == "EquirectangularProjection" else x(h) / (2 * tan(rad(u) / 2))
            expect(S, mk(S, view_x_deg=v, image=(w, h)), dict(half, focallength_x_px=fx, focallength_y_px=fx), "view x")
            expect(S, mk(S, view_y_deg=u, image=(w, h)), dict(half, focallength_x_px=fy, focallength_y_px=fy), "view y")
            expect(S, mk(S, view_x_deg=v, view_y_deg=u, image=(w, h)), dict(half, focallength_x_px=fx, focallength_y_px=fy), "both views")
            expect(S, mk(S, view_x_deg=v, image=(w, h), center=(cx, cy)), dict(center_x_px=cx, center_y_px=cy, focallength_x_px=fx), "view x, center")
        R.group("%s field of view" % SHORT[kind], view_forms)

        bad = [
            ("image and width", lambda S, b: dict(focallength_px=b[0], image=(b[4], b[5]), image_width_px=b[4])),
            ("image and height", lambda S, b: dict(focallength_px=b[0], image=(b[4], b[5]), image_height_px=b[5])),
            ("image and both", lambda S, b: dict(focallength_px=b[0], image=(b[4], b[5]), image_width_px=b[4], image_height_px=b[5])),
            ("no image", lambda S, b: dict(focallength_px=b[0])),
            ("only width", lambda S, b: dict(focallength_px=b[0], image_width_px=b[4])),
            ("only height", lambda S, b: dict(focallength_px=b[0], image_height_px=b[5])),
            ("center and center x", lambda S, b: dict(focallength_px=b[0], image=(b[4], b[5]), center=(b[2], b[3]), center_x_px=b[2])),
            ("center and center y", lambda S, b: dict(focallength_px=b[0], image=(b[4], b[5]), center=(b[2], b[3]), center_y_px=b[3])),
            ("focal length and focal length x", lambda S, b: dict(focallength_px=b[0], focallength_x_px=b[1], image=(b[4], b[5]))),
            ("focal length and focal length y", lambda S, b: dict(focallength_px=b[0], focallength_y_px=b[1], image=(b[4], b[5]))),
            ("focal length in px and mm", lambda S, b: dict(focallength_px=b[0], focallength_mm=b[1], sensor=(b[2], b[3]), image=(b[4], b[5]))),
            ("focal length x, y in px and mm", lambda S, b: dict(focallength_x_px=b[0], focallength_y_px=b[0], focallength_mm=b[1], sensor=(b[2], b[3]), image=(b[4], b[5]))),
            ("sensor and sensor width", lambda S, b: dict(focallength_mm=b[0], sensor=(b[2], b[3]), sensor_width_mm=b[2], image=(b[4], b[5]))),
            ("sensor and sensor height", lambda S, b: dict(focallength_mm=b[0], sensor=(b[2], b[3]), sensor_height_mm=b[3], image=(b[4], b[5]))),
            ("mm without sensor", lambda S, b: dict(focallength_mm=b[0], image=(b[4], b[5]))),
            ("no focal length", lambda S, b: dict(image=(b[4], b[5]))),
            ("only focal length x", lambda S, b: dict(focallength_x_px=b[0], image=(b[4], b[5]))),
            ("only focal length y", lambda S, b: dict(focallength_y_px=b[0], image=(b[4], b[5]))),
            ("view x and focal length", lambda S, b: dict(focallength_px=b[0], view_x_deg=S.f("vx", 5, 150), image=(b[4], b[5]))),
            ("view y and focal length", lambda S, b: dict(focallength_px=b[0], view_y_deg=S.f("vy", 5, 150), image=(b[4], b[5]))),
            ("view x and focal length x", lambda S, b: dict(focallength_x_px=b[0], view_x_deg=S.f("vx", 5, 150), image=(b[4], b[5]))),
            ("view y and focal length y", lambda S, b: dict(focallength_y_px=b[0], view_y_deg=S.f("vy", 5, 150), image=(b[4], b[5]))),
            ("view x and mm", lambda S, b: dict(focallength_mm=b[0], sensor=(b[2], b[3]), view_x_deg=S.f("vx", 5, 150), image=(b[4], b[5]))),
        ]
        for label, kwf in bad:
            def conflict(S, kwf=kwf, label=label):
                kw = kwf(S, base(S))
                R.expect_raise("rejected", S, lambda: mk(S, **kw), ("ValueError",))
            R.group("%s conflict: %s" % (SHORT[kind], label), conflict)
