"""source of properties.jsonl and MANIFEST.json: run `python3 tools/spec.py` after editing"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CAM, PRJ, SPA, LEN, PAR, RAY, GPS, STA, SCE, UTI = ["cameratransform/%s.py" % n for n in (
    "camera", "projection", "spatial", "lens_distortion", "parameter_set", "ray", "gps", "statistic", "scene", "utils")]
TECH = ("static analysis: abstract interpretation of the Python AST in a value-numbering domain (gated-phi merges, heap model, "
        "library models), identities decided by value number and by random interpretation of the value numbers")
PROPS = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, note, observe=None, state=None, technique=TECH):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if observe:
        a["observe_at"] = observe
    if state:
        a["state"] = [dict(name=n, meaning=m) for n, m in state]
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))
    CHECK[id] = (technique, note)


CHECK = {}
IN = ["inputs"]
INC = ["inputs", "configurations"]
INH = ["inputs", "histories"]
exec(open(os.path.join(HERE, "tools", "spec_props.py")).read())


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fp:
        for p in sorted(PROPS, key=lambda p: p["id"]):
            assert len(p["title"]) <= 80, p["id"]
            fp.write(json.dumps(p) + "\n")
    checks = []
    na = list(NA)
    for p in sorted(PROPS, key=lambda p: p["id"]):
        i = p["id"]
        if any(n["property"] == i for n in NA):
            continue
        if not os.path.exists(os.path.join(HERE, "ctstatic", "rules", i.lower() + ".py")):
            na.append(dict(property=i, reason="rule not built yet"))
            continue
        checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
                           technique=CHECK[i][0], level="other", level_note=CHECK[i][1]))
    m = dict(version=1, setup_cmd="python3 -m compileall -q check.py ctstatic", checks=checks, not_applicable=na)
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fp:
        json.dump(m, fp, indent=1)
        fp.write("\n")


main()
