"""Intrinsic parameters from EXIF: getCameraParametersFromExif is interpreted abstractly on a modelled image file (EXIF tags with symbolic
rational values) and a modelled sensor database file; focal length, sensor size (database, or focal plane resolution in its unit) and
image size are compared with their definitions, also after a missing, failing or successful download of the database."""
from .common import *

FN = "image.jpg"
DB = "sensor_database_detailed.csv"
HEAD = "CameraMaker;CameraModel;SensorDescription;SensorWidth(mm);SensorHeight(mm);SensorWidth(pixels);SensorHeight(pixels)\n"
ROWS = [("Canon;EOS 5D;full frame;35.8;23.9;4368;2912\n", None),
        ("Canon;EOS 50D Pro;aps;21.1;11.2;1000;900\n", None),
        ("Canon;EOS 50;aps;20.5;10.5;1000;900\n", None),
        ("Canon;EOS 50D;aps-c;22.3;14.9;4752;3168\n", None),
        ("Nikon;D5;full frame;36.0;24.1;5568;3712\n", None)]
TEXT = HEAD + "".join(r for r, _ in ROWS)


def run(R):
    def setup(S, model="Canon EOS 50D", unit=2, db=None, web="offline", plane=True):
        v = dict(f=S.f("f", 1, 800), w=S.f("w", 100, 9000), h=S.f("h", 100, 9000), rx=S.f("rx", 100, 9000), ry=S.f("ry", 100, 9000))
        u = lambda q: S.un(q)
        ex = {271: "Canon", 272: model, 282: 72.0, 283: 72.0, 34665: 204, 37386: u(v["f"]), 40962: u(v["w"]), 40963: u(v["h"])}
        if plane:
            ex.update({41486: u(v["rx"]), 41487: u(v["ry"])})
            if unit:
                ex[41488] = unit
        I = S.I
        I.virtual_files = True
        I.pictures = {FN: (ex, (u(v["w"]), u(v["h"])))}
        I.web = web
        if db is not None:
            S.call(S.code("def put(name, text):\n    with open(name, 'w') as fp:\n        fp.write(text)\n").put, DB, db)
        return v

    def check(S, label, res, v, sensor):
        f, s, i = S.I.unpack(res.v if isinstance(res, Obj) else res, 3)
        R.eq("%s: focal length" % label, Obj(S, f), v["f"])
        R.eq("%s: sensor size" % label, Obj(S, s), sensor)
        R.eq("%s: image size" % label, Obj(S, i), [v["w"], v["h"]])

    def plane(v, mm=25.4):
        return [x(v["w"]) / x(v["rx"]) * mm, x(v["h"]) / x(v["ry"]) * mm]

    get = lambda S: S.ct("getCameraParametersFromExif")

    def exif(S):
        for unit, mm in ((2, 25.4), (None, 25.4), (3, 10.0)):
            v = setup(S, unit=unit)
            check(S, "resolution unit %s" % unit, get(S)(FN, sensor_from_database=False), v, plane(v, mm))
        R.true("no download without database", getattr(S.I, "downloads", 0) == 0)
    R.group("sensor from exif", exif)

    def database(S):
        for model, size in (("Canon EOS 50D", (22.3, 14.9)), ("Canon EOS 5D", (35.8, 23.9)), ("Nikon D5", (36.0, 24.1)), ("Canon EOS 50", (20.5, 10.5))):
            v = setup(S, model=model, db=TEXT)
            check(S, model, get(S)(FN), v, list(size))
        for model in ("Canon EOS", "Sony A7", "D5", "EOS 50D"):
            v = setup(S, model=model, db=TEXT)
            check(S, "unknown model %s" % model, get(S)(FN), v, plane(v))
        v = setup(S, db=TEXT, plane=False)
        check(S, "no focal plane resolution needed", get(S)(FN), v, [22.3, 14.9])
        R.true("no download of a database that is there", getattr(S.I, "downloads", 0) == 0)
    R.group("sensor from database", database)

    def download(S):
        v = setup(S, web=TEXT)
        check(S, "first call", get(S)(FN), v, [22.3, 14.9])
        n = getattr(S.I, "downloads", 0)
        S.I.web = "offline"
        check(S, "second call", get(S)(FN), v, [22.3, 14.9])
        R.true("the database is downloaded once", getattr(S.I, "downloads", 0) == n, detail="%d downloads" % getattr(S.I, "downloads", 0))
    R.group("download", download)

    def failing(web):
        def go(S):
            U = S.code("def attempt(f, name):\n    try:\n        return f(name)\n    except Exception:\n        return None\n")
            v = setup(S, web=web)
            S.call(U.attempt, S.un(get(S)), FN)
            S.I.web = TEXT
            check(S, "after the failure", get(S)(FN), v, [22.3, 14.9])
        return go
    R.group("download after being offline", failing("offline"))
    R.group("download after an error page", failing(None))

    def pure(S):
        for verbose in (False, True):
            v = setup(S, db=TEXT)
            check(S, "verbose %s" % verbose, get(S)(FN, verbose=verbose), v, [22.3, 14.9])
    R.group("verbose", pure)

    def text(S):
        """the printed text is the documented one"""
        setup(S)
        e = dict(S.I.pictures[FN][0])
        e.update({37386: 400.0, 40962: 4752, 40963: 3168, 41486: 4752 / 22.3 * 25.4, 41487: 3168 / 14.9 * 25.4})
        S.I.pictures = {FN: (e, (4752, 3168))}
        n0 = len(S.I.events)
        get(S)(FN, verbose=True, sensor_from_database=False)
        out = [a for ev in S.I.events[n0:] if ev[0] == "print" for a in ev[1]]
        if not out or not all(isinstance(o, str) for o in out):
            raise Undecided("printed text is not constant: %r" % (out,))
        lines = [l.strip() for l in "\n".join(out).split("\n") if l.strip()]
        want = ["Intrinsic parameters for 'Canon EOS 50D':", "focal length: 400.0 mm", "sensor size: 22.3 mm × 14.9 mm", "image size: 4752 × 3168 Pixels"]
        R.true("documented text", lines == want, detail=repr(lines))
        n0 = len(S.I.events)
        get(S)(FN, sensor_from_database=False)
        R.true("silent without verbose", not [ev for ev in S.I.events[n0:] if ev[0] == "print"])
    R.group("printed parameters", text)

    def camera(S):
        """the results are what a projection takes"""
        v = setup(S, db=TEXT)
        f, s, i = S.I.unpack(get(S)(FN).v, 3)
        p = S.ct("RectilinearProjection")(focallength_mm=Obj(S, f), sensor=Obj(S, s), image=Obj(S, i))
        R.eq("focal length in pixels", p.focallength_x_px, x(v["f"]) / 22.3 * x(v["w"]))
    R.group("projection from the parameters", camera)
