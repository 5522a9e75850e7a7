"""Camera pose is the documented rigid transform: cameraFromSpace / spaceFromCamera are interpreted abstractly for
symbolic position, angles and points and compared with R_roll R_tilt R_heading (x - t), its inverse, and its invariants."""
from .common import *


def run(R):
    for cls in ("SpatialOrientation", "SpatialOrientationYawPitchRoll"):
        def make(S):
            o = O(S)
            if cls == "SpatialOrientation":
                return S.ct(cls)(**o.kw()), o, rotation(rad(o.tilt), rad(o.roll), rad(o.head))
            # pitch = tilt - 90, roll reversed, yaw = heading (as implemented)
            return S.ct(cls)(**o.ypr_kw()), o, rotation(pi() / 2 + rad(o.tilt), -rad(o.roll), rad(o.head))

        def formula(S):
            so, o, Rm = make(S)
            p = point3(S)
            d = [x(a) - b for a, b in zip(p, o.t())]
            R.eq("camera coordinates", S.call(so.cameraFromSpace, S.arr(p)), matvec(Rm, d))
            Rt = transpose(Rm)
            R.eq("space coordinates", S.call(so.spaceFromCamera, S.arr(p)), [a + b for a, b in zip(matvec(Rt, p), o.t())])
            R.eq("space direction", S.call(so.spaceFromCamera, S.arr(p), direction=True), matvec(Rt, p))
            q = point3(S, "2")
            R.eq("camera coordinates (batch)", S.call(so.cameraFromSpace, S.arr([p, q])),
                 [matvec(Rm, d), matvec(Rm, [x(a) - b for a, b in zip(q, o.t())])])
            R.eq("space coordinates (batch)", S.call(so.spaceFromCamera, S.arr([p, q])),
                 [[a + b for a, b in zip(matvec(Rt, v), o.t())] for v in (p, q)])
            R.eq("space direction (batch)", S.call(so.spaceFromCamera, S.arr([p, q]), direction=True), [matvec(Rt, p), matvec(Rt, q)])
        R.group("%s formula" % cls, formula, allowed=("LinAlgError",))

        def inverse(S):
            so, o, Rm = make(S)
            p = point3(S)
            R.eq("space -> camera -> space", S.call(so.spaceFromCamera, S.call(so.cameraFromSpace, S.arr(p))), list(p))
            R.eq("camera -> space -> camera", S.call(so.cameraFromSpace, S.call(so.spaceFromCamera, S.arr(p))), list(p))
            R.eq("own position is the camera origin", S.call(so.cameraFromSpace, S.arr(o.t())), [0.0, 0.0, 0.0])
            R.eq("camera origin is the own position", S.call(so.spaceFromCamera, [0, 0, 0]), o.t())
        R.group("%s inverse" % cls, inverse, allowed=("LinAlgError",))

        def rigid(S):
            so, o, Rm = make(S)
            p, q = point3(S), point3(S, "2")
            a, b = vec(S, S.call(so.cameraFromSpace, S.arr(p))), vec(S, S.call(so.cameraFromSpace, S.arr(q)))
            R.eq("distances are preserved", dist2(a, b), dist2(p, q))
            e = [[T.const(int(i == j)) for j in range(3)] for i in range(3)]
            v = [vec(S, S.call(so.spaceFromCamera, S.arr(c), direction=True)) for c in e]
            R.eq("handedness is preserved", dot(cross(v[0], v[1]), v[2]), 1)
        R.group("%s rigid" % cls, rigid, allowed=("LinAlgError",))

        def periodic(S):
            p = point3(S)
            o = O(S)
            k = S.i("turns", -3, 3)
            ang = "head" if cls == "SpatialOrientation" else "tilt"
            kw = o.kw() if cls == "SpatialOrientation" else o.ypr_kw()
            name = "heading_deg" if cls == "SpatialOrientation" else "pitch_deg"
            a = S.ct(cls)(**kw)
            ra = S.call(a.cameraFromSpace, S.arr(p))
            kw = dict(kw)
            kw[name] = x(getattr(o, ang)) + 360 * x(k)
            b = S.ct(cls)(**kw)
            R.eq("whole turns do not matter", S.call(b.cameraFromSpace, S.arr(p)), ra)
        R.group("%s periodic" % cls, periodic, allowed=("LinAlgError",))

    def relation(S):
        """a yaw-pitch-roll pose equals the tilt-heading-roll pose with tilt = 90 + pitch, roll = -roll, heading = yaw"""
        o = O(S)
        p = point3(S)
        a = S.ct("SpatialOrientationYawPitchRoll")(**o.ypr_kw())
        kw = o.kw()
        kw["tilt_deg"] = 90 + x(o.tilt)
        kw["roll_deg"] = -x(o.roll)
        b = S.ct("SpatialOrientation")(**kw)
        R.eq("poses agree", S.call(a.cameraFromSpace, S.arr(p)), S.call(b.cameraFromSpace, S.arr(p)))
    R.group("yaw-pitch-roll relation", relation, allowed=("LinAlgError",))

    def axes(S):
        """level camera (tilt 90) with heading 0 looks along +y; tilt 0 looks straight down; heading turns clockwise"""
        el, hd = S.f("el", 1, 200), S.f("head", -350, 350)
        s0 = S.ct("SpatialOrientation")(elevation_m=el, tilt_deg=0, roll_deg=0, heading_deg=0, pos_x_m=0, pos_y_m=0)
        look = [T.const(0), T.const(0), T.const(-1)]
        R.eq("tilt 0 looks down", S.call(s0.spaceFromCamera, S.arr(look), direction=True), [0.0, 0.0, -1.0])
        s1 = S.ct("SpatialOrientation")(elevation_m=el, tilt_deg=90, roll_deg=0, heading_deg=hd, pos_x_m=0, pos_y_m=0)
        R.eq("level camera looks towards its heading", S.call(s1.spaceFromCamera, S.arr(look), direction=True),
             [sin(rad(hd)), cos(rad(hd)), 0.0])
    R.group("axes", axes, allowed=("LinAlgError",))
