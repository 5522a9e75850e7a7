#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough]: decide one property from /repo's source (never imports or runs it)."""
import argparse
import importlib
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    tier = "thorough" if a.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    from ctstatic import harness, terms
    t0 = time.time()
    terms.seed(seed)
    R = harness.Runner(a.property, tier, seed)
    mod = importlib.import_module("ctstatic.rules." + a.property.lower())
    mod.run(R)
    R.collect()
    known = load_known(a.property)
    new, old = [], []
    seen = set()
    for f in R.findings:
        if f["key"] in known:
            if f["key"] not in seen:
                old.append(f)
                seen.add(f["key"])
        else:
            new.append(f)
    counts = {}
    for r in R.results:
        counts[r["verdict"]] = counts.get(r["verdict"], 0) + 1
    counts["refuted_known"] = len([f for f in R.findings if f["key"] in known])
    nob = len(R.results)
    disch = counts.get("proved", 0) + counts.get("agreed", 0)
    ev = dict(property=a.property, tier=tier, seed=seed, level="other",
              coverage=dict(
                  explanation=mod.__doc__.strip() + " Verdicts: proved = identical value numbers, agreed = no separating "
                  "point under random interpretation of the two value numbers, refuted = certified separating point or "
                  "excluded exception/shape, undecided = value lost by the analysis (not reported).",
                  obligations=nob, discharged=disch, verdicts=counts,
                  identity_test_points=R.points,
                  functions_analysed=sorted(short(x) for x in R.analysed),
                  functions_analysed_count=len(R.analysed),
                  undecided=[dict(obligation=r["obligation"], why=r["detail"]) for r in R.results if r["verdict"] == "undecided"][:40],
                  samples=[r["obligation"] for r in R.results][:12],
                  unmodelled_externals=sorted(R.unmodelled)[:40]),
              wall_s=round(time.time() - t0, 2), violations=len(new),
              assumptions=ASSUME + list(getattr(mod, "ASSUMES", [])))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", a.property + ".json"), "w") as fp:
        json.dump(ev, fp, indent=1, sort_keys=True)
    print("%s: %d obligations, %s, %d functions analysed, %.1f s" % (a.property, nob, json.dumps(counts, sort_keys=True), len(R.analysed), time.time() - t0))
    for r in R.results:
        if a.v or r["verdict"] == "undecided":
            print("  %-9s %s %s" % (r["verdict"], r["obligation"], r["detail"][:300]))
    for f in old:
        print("KNOWN-FINDING: property=%s %s" % (a.property, known[f["key"]]))
    if new:
        rd = os.path.join(HERE, "replay")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, a.property + ".json")
        with open(path, "w") as fp:
            json.dump(new, fp, indent=1, default=str)
        for f in new[:12]:
            print("  rule %s: %s" % (a.property, f["obligation"]))
            print("    at %s" % short(f["where"] or "?"))
            print("    %s" % f["detail"])
            if f["witness"]:
                print("    witness %s" % {k: v for k, v in f["witness"].items() if k not in ("code", "required")})
        print("VIOLATION property=%s replay=%s" % (a.property, path))
        return 1
    if nob == 0:
        print("analysis-broken: no rule instance was found")
        return 2
    return 0


ASSUME = ["the models of numpy/scipy/json/pandas/re/cv2 functions in ctstatic/npmodel.py and extmodel.py describe those libraries",
          "real arithmetic with running error bounds: differences below 1e-8 relative are not violations",
          "array extents are the listed small shapes; element values are symbolic"]


def short(w):
    return w.replace("/repo/", "") if isinstance(w, str) else str(w)


def load_known(pid):
    out = {}
    p = os.path.join(HERE, "known_findings.json")
    if os.path.exists(p):
        for e in json.load(open(p)).get("findings", []):
            if e["property"] == pid:
                out[e["key"]] = e["what"]
    return out


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    sys.exit(rc)
