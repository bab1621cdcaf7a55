#!/usr/bin/env python3
"""mut.py FILE: try source mutants in a scratch copy. FILE holds MUTS = [(file, old, new, [checks]), ...]; prints which checks notice."""
import os, subprocess, sys, runpy
D = os.environ.get("PLANT", "/tmp/plant"); S = D + "/repo"
env = dict(os.environ, SA_REPO=S, SA_BUILD=D + "/sabuild")
ms = runpy.run_path(sys.argv[1])["MUTS"]
only = [int(x) for x in sys.argv[2:]]
subprocess.run("mkdir -p " + D + "; [ -d %s ] || cp -a /repo %s; cd %s && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD" % (S, S, S), shell=True)
for n, m in enumerate(ms):
    if only and n not in only: continue
    edits, cs = ([m[:3]], m[3]) if len(m) == 4 else m
    texts = {}
    for f, old, new in edits:
        s = texts.get(f) or open(os.path.join(S, f)).read()
        if s.count(old) < 1: print(n, "OLD TEXT NOT FOUND", f, old[:60])
        texts[f] = s.replace(old, new, 1)
    for f, s in texts.items(): open(os.path.join(S, f), "w").write(s)
    for c in cs:
        q = subprocess.run(["python3", "sa/run.py", c], cwd="/verif", env=env, capture_output=True, text=True)
        o = (q.stdout + q.stderr).strip().splitlines()
        why = next((l for l in o if l.strip().startswith("[")), "").strip()
        print(n, c, {0: "missed", 1: "caught"}.get(q.returncode, "rc%d" % q.returncode), (why or (o[-1] if o else ""))[:170], "|", new[:70].replace("\n", " "), flush=True)
    subprocess.run(["git", "-C", S, "checkout", "-q", "--", "."])
