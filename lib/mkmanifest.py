"""Regenerates properties.jsonl and MANIFEST.json from lib/props.py, checks/*.py and lib/na.json."""
import os, sys, json, glob, re, ast
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def consts(path):
    r = {}
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try:
                r[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    return r


props, checks = [], []
for p in sorted(glob.glob(V + "/checks/C*.py")):
    i = os.path.basename(p)[:-3]
    c = consts(p)
    if i not in PROPS:
        print("no record of", i, "in props.py")
        continue
    P = PROPS[i]
    files, mech = P["files"], P["mechanism"]
    props.append({"id": i, "title": P["title"], "statement": P["statement"], "quantifier": {"over": P["over"], "text": P["text"]}, "why_tests_cant": P["why"],
                  "anchors": {"files": files, "mechanism": [{"name": m[0], "where": m[1]} for m in mech], "observe_at": P.get("observe", []), "hook_needed": None}})
    assert len(P["title"]) <= 80, i
    note = "Within the bounds (%s) every path of the compiled code of the current tree is executed symbolically and each assertion is decided by Z3; counterexamples are replayed natively under AddressSanitizer. Outside: %s." % (c["BOUNDS"], c["OUTSIDE"])
    if c.get("ASSUMPTIONS"):
        note += " Assumes: " + "; ".join(c["ASSUMPTIONS"]) + "."
    note += " Trusts clang 18, the symx interpreter (validated by native replay of sampled solver models on every run) and Z3."
    checks.append({"property": i, "quick_cmd": "python3 lib/check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 lib/check.py " + i, "evidence_file": "evidence/%s.json" % i,
                   "technique": P.get("technique", "bounded symbolic execution of the compiled code (LLVM IR) with Z3"), "level": c.get("LEVEL", "model_checking"), "level_note": note})
na = []
for n in json.load(open(V + "/lib/na.json")):
    props.append({k: n[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")})
    na.append({"property": n["id"], "reason": n["reason"]})
with open(V + "/properties.jsonl", "w") as f:
    for p in props:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
json.dump({"version": 1, "setup_cmd": "python3 lib/setup.py", "checks": checks, "not_applicable": na,
           "notes": "All checks share one engine (engine/, an LLVM-IR symbolic executor over Z3) and one driver (lib/check.py). No hooks are needed in /repo; the only commits there are fix: commits, listed in known-findings.json."},
          open(V + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
print(len(props), "properties,", len(checks), "checks")
