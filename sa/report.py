"""Obligations, violations, known findings and evidence of one check run."""
import json, os, re, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known-findings.txt")


def known_findings(prop):
    """lines `KNOWN-FINDING: property=<id> key=<key> <what fails>`; `fixed:` lines suppress nothing"""
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"KNOWN-FINDING: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


class R:
    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.obl = []        # (rule, construct, ok)
        self.viol = []       # dict(rule, key, where, msg)
        self.rules = {}
        self.analysed = set()
        self.notes = []
        self.npaths = 0

    def rule(self, rid, text):
        self.rules[rid] = text

    def fn(self, f):
        self.analysed.add(f if isinstance(f, str) else f.id)

    def ok(self, rid, construct):
        self.obl.append((rid, construct, True))

    def bad(self, rid, construct, where, msg):
        """construct: stable name (no line numbers) of the violating construct"""
        self.obl.append((rid, construct, False))
        msg = re.sub(r"\s+", " ", str(msg))
        if len(msg) > 700: msg = msg[:700] + " ..."
        self.viol.append({"rule": rid, "key": re.sub(r"\s+", "_", "%s/%s" % (rid, construct)), "where": where, "msg": msg})

    def check(self, rid, construct, cond, where, msg):
        if cond: self.ok(rid, construct)
        else: self.bad(rid, construct, where, msg)
        return bool(cond)

    def floor(self, rid, n, minimum, what):
        """a rule that matched fewer constructs than the tree is known to have has lost its anchor"""
        self.check(rid, "floor:" + what, n >= minimum, what, "only %d %s found, at least %d expected: the rule lost its constructs" % (n, what, minimum))

    def paths(self, n): self.npaths += n

    def do(self, F, *sections):
        """run the sections one by one; one whose constructs cannot be found or followed is undecided (noted), not violated"""
        for s in sections:
            n = len(self.obl)
            try: s(F, self)
            except Exception as e:
                if os.environ.get("SA_DEBUG"): raise
                self.notes.append("section %s not decided beyond %d obligations: %s: %s" % (s.__name__, len(self.obl) - n, type(e).__name__, str(e)[:160]))

    def where(self, f, line=None):
        return "%s:%s %s" % (f.file, line if line is not None else f.line, f.id)

    def finish(self, key):
        tier = os.environ.get("VERIF_TIER", "quick")
        if tier not in ("quick", "thorough"): tier = "quick"
        seed = int(os.environ.get("VERIF_SEED", "0") or 0)
        kf = known_findings(self.prop)
        if not self.obl: self.bad("floor", "none", "?", "no construct of the property was found in the tree")
        new, kn = [], []
        seen = set()
        for v in self.viol:
            if v["key"] in seen: continue
            seen.add(v["key"])
            (kn if v["key"] in kf else new).append(v)
        ed = os.path.join(VERIF, "evidence")
        os.makedirs(ed, exist_ok=True)
        byrule = {}
        for r, c, o in self.obl:
            d = byrule.setdefault(r, {"rule": self.rules.get(r, ""), "obligations": 0, "discharged": 0})
            d["obligations"] += 1
            d["discharged"] += 1 if o else 0
        samples = []
        per = {}
        for r, c, o in self.obl:
            if per.get(r, 0) < 4:
                per[r] = per.get(r, 0) + 1
                samples.append("%s: %s [%s]" % (r, c, "holds" if o else "violated"))
        ev = {"property": self.prop, "tier": tier, "seed": seed, "level": "other",
              "coverage": {
                  "explanation": "Static analysis of the type-checked program (rustc MIR of every workspace crate of /repo's current tree, "
                                 "plus the templates, tables and grammar it embeds). Each obligation is one construct (call site, path class, "
                                 "match arm, table row) to which a rule was applied; a violation names the construct.",
                  "tree": key, "obligations": len(self.obl), "discharged": sum(1 for o in self.obl if o[2]),
                  "distinct_constructs": len({(r, c) for r, c, _ in self.obl}),
                  "functions_analysed": len(self.analysed), "functions": sorted(self.analysed)[:400],
                  "paths_explored": self.npaths, "rules": byrule, "samples": samples, "known_findings": [v["key"] for v in kn], "notes": self.notes,
                  "violation_list": new},
              "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        p = os.path.join(ed, self.prop + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(p + ".tmp", p)
        vp = os.path.join(ed, self.prop + ".violations.txt")
        with open(vp, "w") as f:
            for v in new:
                f.write("[%s] %s\n    at %s\n    key %s\n" % (v["rule"], v["msg"], v["where"], v["key"]))
        for v in kn:
            print("KNOWN-FINDING: property=%s %s (%s)" % (self.prop, kf[v["key"]], v["key"]))
        for v in new:
            print("  [%s] %s\n      at %s" % (v["rule"], v["msg"], v["where"]))
        print("%s: %d obligations, %d discharged, %d known, %d new violations" %
              (self.prop, len(self.obl), sum(1 for o in self.obl if o[2]), len(kn), len(new)))
        if new:
            print("VIOLATION property=%s replay=%s" % (self.prop, vp))
            return 1
        return 0
