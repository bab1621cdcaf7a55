"""python3 sa/run.py <property id>...   (run in /verif)"""
import importlib, os, resource, sys, time, traceback
resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))      # running out of memory leaves one section undecided, not the machine dead
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from sa import mir, report, ev


def one(pid):
    r = report.R(pid)
    F = mir.load()
    m = importlib.import_module("sa.checks." + pid.lower())
    try:
        m.run(F, r)
    except (mir.Anchor, ev.Budget) as e:
        if os.environ.get("SA_DEBUG"): raise
        r.notes.append("not decided beyond this point: %s" % str(e)[:200])
    return r.finish(F.key)


if __name__ == "__main__":
    rc = 0
    for pid in sys.argv[1:]:
        rc = max(rc, one(pid))
    sys.exit(rc)
