#!/bin/bash
# runs the quick command of every claimed check (or the ones named) and prints one line each
cd "$(dirname "$0")/.."
python3 - "$@" <<'P'
import json,subprocess,sys,time
only=set(sys.argv[1:])
for c in json.load(open('MANIFEST.json'))['checks']:
    if only and c['property'] not in only: continue
    t=time.time(); p=subprocess.run(c['quick_cmd'],shell=True,capture_output=True,text=True)
    o=p.stdout.strip().splitlines()
    print(c['property'],p.returncode,'%.0fs'%(time.time()-t),(o or [''])[-1][:160],[l[:200] for l in o if l.startswith(('VIOL','KNOWN'))][:3], p.stderr[-200:] if p.returncode else '',flush=True)
P
