"""coverage.py [--save]: compare the obligations of the last run of every check with scripts/coverage.json (a silent loss of coverage is a regression)."""
import glob, json, os, sys
D = os.path.dirname(os.path.abspath(__file__)); P = os.path.join(D, "coverage.json")
old = json.load(open(P)) if os.path.exists(P) else {}
new = {}
for f in sorted(glob.glob(os.path.join(D, "..", "evidence", "*.json"))):
    c = json.load(open(f))["coverage"]; new[os.path.basename(f)[:-5]] = {"obligations": c["obligations"], "notes": len([n for n in c.get("notes", []) if "undecided" in n or "not decided" in n]), "rules": {k: v["obligations"] for k, v in c["rules"].items()}}
for k, v in new.items():
    o = old.get(k)
    if not o: print("new", k, v["obligations"]); continue
    for n, x in o["rules"].items():
        if v["rules"].get(n, 0) < x: print("LOST", k, n, x, "->", v["rules"].get(n, 0))
    if v["notes"] > o["notes"]: print("UNDECIDED", k, o["notes"], "->", v["notes"])
if "--save" in sys.argv: json.dump({**old, **new}, open(P, "w"), indent=1, sort_keys=True)
