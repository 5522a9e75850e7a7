"""python3 tools/mkseed.py SPECFILE...: build seeded/<id>/ from a spec {id, property, needs, what, edits:[[file, old, new]...], demo: python source}
and confirm it in a scratch copy (tests pass, demo separates)."""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


DEMO = """#!/bin/bash
# run with cwd = repository root; exit 0 when the property holds
export PYTHONPATH="$PWD"
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
"""


def one(sp):
    d = os.path.join(HERE, "seeded", sp["id"])
    tmp = tempfile.mkdtemp(prefix="seed_")
    w = os.path.join(tmp, "repo")
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", w])
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "demo.py"), "w").write(sp["demo"])
        open(os.path.join(d, "demo.sh"), "w").write(DEMO)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        r = sh("bash %s/demo.sh" % d, w)
        if r.returncode != 0:
            print(sp["id"], "DEMO FAILS ON CLEAN TREE", r.stdout[-800:]); return
        for f, old, new in sp["edits"]:
            p = os.path.join(w, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(sp["id"], "edit matches", s.count(old), "times:", old[:60]); return
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=w, stdout=subprocess.PIPE, text=True).stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        json.dump(dict(property=sp["property"], needs=sp["needs"], what_it_breaks=sp["what"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
        r = sh("bash %s/demo.sh" % d, w)
        if r.returncode == 0:
            print(sp["id"], "DEMO PASSES WITH PATCH", r.stdout[-300:]); return
        r2 = sh("PYTHONPATH=%s timeout 600 /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider --hypothesis-profile=ci tests 2>&1 | tail -3" % w, w)
        ok = " passed" in r2.stdout and "failed" not in r2.stdout
        if not ok:
            print(sp["id"], "TESTS:", r2.stdout[-400:]); return
        r3 = sh("CT_REPO=%s python3 %s/check.py %s" % (w, HERE, sp["property"]), HERE)
        print(sp["id"], sp["property"], "tests ok, demo rc", r.returncode if False else "separates", "| check rc", r3.returncode, "|", r3.stdout.strip().splitlines()[-1][:150])
    finally:
        shutil.rmtree(tmp)


for f in sys.argv[1:]:
    ns = {}
    exec(open(f).read(), ns)
    for sp in ns["SEEDS"]:
        if os.environ.get("ONLY") and os.environ["ONLY"] not in sp["id"]:
            continue
        one(sp)
