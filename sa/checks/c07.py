"""C07: I/O errors on the output files reach the exit code; what is written is flushed before it is announced."""
from ..exec_model import *
from .. import errflow, maps
from ..ev import Budget
from ..writers import Writers

CRATES = ("constraint_writers", "code_producers", "compiler", "circom", "constraint_list", "dag")
IO = re.compile(r"(io::|fs::|File::|Write>?::|BufWriter|LineWriter)")


def run(F, r):
    r.do(F, propagate, flush, announce, short, log)


def outside(f):
    return f.crate in CRATES or f.id == "constraint_generation::build_circuit"


def propagate(F, r):
    r.rule("io-error", "when a fallible call made while producing output (create, write, seek, flush, remove, or a function doing so) fails, the caller fails too: "
                       "it returns an error, panics or ends the process; no path returns normally after the failure")
    n = 0
    for f in sorted(F.fns.values(), key=lambda f: f.id):
        if f.derived or f.kind != "fn" or "{closure" in f.id or not outside(f): continue
        names = errflow.fallible_calls(F, f)
        if not names: continue
        r.fn(f); n += 1
        if "core::result::Result<" not in f.locals[0][0] and f.id != "circom::main":
            # nothing to return an error with: every failure has to end in a panic or the end of the process
            pass
        try:
            ps, names, E = errflow.lost(F, f)
        except (Budget, Anchor) as e:
            un = {}
            for c, line in errflow.unconsumed(F, f): un.setdefault(c, line)
            for c in names:
                r.check("io-error", "%s: %s" % (f.id, c), c not in un, r.where(f, un.get(c)), "the result of %s is never looked at, so its failure is dropped" % c)
            r.notes.append("%s: paths not enumerated (%s); decided by use of the results" % (f.id, str(e)[:60] or type(e).__name__))
            continue
        r.paths(len(ps))
        bad = {}
        for p in ps:
            g = p.st.mem.get(("G", "failed"))
            if g is None or p.variant() == "Err": continue
            if f.id == "circom::main" and p.events(r"process::exit|^exit$"): continue
            for t in g.a: bad.setdefault(t.a[0].a[0], (t.a[1].a[0], p))
        for c in names:
            b = bad.get(c)
            r.check("io-error", "%s: %s" % (f.id, c), b is None, r.where(f, b[0] if b else None),
                    b and "%s returns normally although %s failed (path: %s)" % (f.id.rsplit("::", 1)[-1], c, b[1].show()))
    r.floor("io-error", n, 40, "functions with fallible output operations")


def flush(F, r):
    r.rule("flush", "a buffered writer, or an object holding one, is flushed, returned, or handed to a function that takes it over before any normal return "
                    "(what is dropped unflushed loses its write error)")
    W = Writers(F); n = 0
    for f in sorted(F.fns.values(), key=lambda f: f.id):
        if f.derived or f.kind not in ("fn", "closure"): continue
        if not any(W.holder(l[0]) for l in f.locals): continue
        n += 1; r.fn(f)
        bad = set()
        for i, s in W.flow(f).items():
            if s.get("err"): continue
            bad |= {f.locals[k][1] or re.sub(r"[\w]+::", "", f.locals[k][0]) for k, v in s.items() if v == "dirty" and k != 0 and k != "err"}
        r.check("flush", f.id, not bad, r.where(f), "%s may be dropped with unflushed data: an error of that last write is lost" % ", ".join(sorted(bad)))
    r.floor("flush", n, 35, "functions owning a buffered writer")
    r.notes.append("objects holding a buffered writer: %s" % ", ".join(sorted(W.hold)))


def texts(t):
    return "".join(x.a[0] for x in subterms(t) if x.op == "str")


def announce(F, r):
    r.rule("announce", "a file is announced as written only on paths where the call that was given its name came before and no earlier step failed")
    n = 0
    say = {f.id for f in F.fns.values() if announces(F, f)}
    helpers = {i for i in say if not errflow.fallible_calls(F, F.fns[i])}        # they only print: judged in their callers
    cg = F.callgraph()
    for f in sorted(F.fns.values(), key=lambda f: f.id):
        if f.derived or f.kind != "fn" or "{closure" in f.id: continue
        if f.id in helpers or not (f.id in say or cg[f.id] & helpers): continue
        names = errflow.fallible_calls(F, f)
        try: ps, names, E = errflow.lost(F, f, track=(r"^(?!core::fmt|alloc::fmt|ansi_term|core::option|core::result).*",), keep=["^%s$" % re.escape(h) for h in helpers])
        except (Budget, Anchor): continue
        r.fn(f)
        for p in ps:
            failed = False; seen = []
            for e in p.evs:
                if e[0] == "print" and "ritten" in texts(e[1][0]):
                    files = [x for x in e[1][0].a if isinstance(x, T)] if e[1][0].op == "cat" else []
                    fs = [x for x in message_files(e[1][0])]
                    n += 1
                    r.check("announce", "%s: nothing failed before the message" % f.id, not failed, r.where(f), "a file is announced as written after %s failed" % failed)
                    for x in fs:
                        ok = any(names_file(a, x) for c, args in seen for a in args)
                        r.check("announce", "%s: %s" % (f.id, show(x)), ok, r.where(f), "%s is announced as written although no call before it was given that file (path: %s)" % (show(x), p.show()))
                elif e[0].startswith("failed:"): failed = e[0][7:]
                elif e[0] not in ("print", "eprint"): seen.append((e[0], e[1]))
    r.floor("announce", n, 8, "messages announcing a written file")


def announces(F, f):
    """does f print a text containing "ritten" """
    if f.derived or f.kind not in ("fn",) or not any(cname_(c).endswith("stdio::_print") for _, c, *_ in f.calls()): return False

    def consts(g):
        for b in g.bbs:
            yield from walk(b["s"]); yield from walk(b["t"])

    def walk(x):
        if isinstance(x, dict):
            if x.get("k") in ("bytes", "str"):
                v = x["v"]; yield bytes(v).decode("latin1") if isinstance(v, list) else str(v)
            elif x.get("k") == "promoted" or "of" in x:
                g = F.promoted(x) if "i" in x else None
                if g: yield from consts(g)
        elif isinstance(x, list):
            for y in x: yield from walk(y)
    return any("ritten" in t for t in consts(f))


def cname_(c): return (c.get("r") or c.get("p") or "") if c else ""


def message_files(t):
    """the parameters (or fields of parameters) a message prints"""
    if t.op in ("param", "field") and not (t.op == "field" and texts(t)): yield t
    else:
        for x in t.a:
            if isinstance(x, T): yield from message_files(x)
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, T): yield from message_files(y)


def names_file(a, x):
    if contains(a, lambda y: y is x): return True
    while x.op == "field":
        x = x.a[0]
        if a is x: return True
    return a is x


def short(F, r):
    r.rule("whole", "data is written with write_all (or its count is used): Write::write, which may write less, is used only for the fixed-width encoding of one number")
    n = 0
    for f in sorted(F.fns.values(), key=lambda f: f.id):
        if f.derived or f.kind not in ("fn", "closure") or f.crate not in CRATES: continue
        for bb, c, args, dest, line in f.calls():
            nm = cname_(c)
            if re.search(r"Write>?::write_all$", nm): n += 1
            if not re.search(r"Write>?::write$", nm): continue
            n += 1; r.fn(f)
            src = origin(f, args[1])
            r.check("whole", "%s: write" % f.id, src is not None, r.where(f, line), "Write::write may write only a part of the data and its count is not used")
    r.floor("whole", n, 40, "writes of output data")


def origin(f, op, depth=0):
    """is the data the encoding of a single number (into_format, bigint_as_bytes, to_le_bytes...)"""
    if depth > 12 or op[0] not in ("cp", "mv"): return None
    l = op[1][0]
    for b in f.bbs:
        for pl, rv, *_ in b["s"]:
            if pl == [l]:
                for x in rv[1:]:
                    if isinstance(x, list) and x:
                        q = ["cp", x] if isinstance(x[0], int) else x if x[0] in ("cp", "mv") else None
                        o = q and origin(f, q, depth + 1)
                        if o: return o
        t = b["t"]
        if t[0] == "call" and t[3] == [l]:
            n = cname_(t[1][1]) if t[1][0] == "c" else ""
            if re.search(r"bigint_as_bytes$|into_format$|to_[lb]e_bytes$", n): return n
            if re.search(r"deref$|as_ref$|as_slice$|index$|borrow$", n) and t[2]: return origin(f, t[2][0], depth + 1)
    return None


def log(F, r):
    r.rule("log", "every substitution handed to the log is written, and a failure to write one is not ignored")
    f = F.find("constraint_simplification::log_substitutions"); r.fn(f)
    s = [PARAM("sub1"), PARAM("sub2")]
    for w, present in ((SOME(PARAM("writer")), True), (NONE, False)):
        ps, names, E = errflow.lost(F, f, track=("write_substitution",), keep=())
        break
    bad = None; n = 0
    names = {}
    I = {r"write_substitution$": oracle([OK(UNIT)]), r"port_substitution$": pure(lambda x: mk("tup", mk("from", x), mk("to", x)))}
    st0 = None
    E0 = Ev(F)
    ps, E = explore(F, f, [mk("array", *s), SOME(PARAM("writer"))], intr={**I, **maps.intrinsics()}, loop_visits=5, keep_refs=True)
    r.paths(len(ps))
    for p in ps:
        ev = p.events("write_substitution")
        got = [[x for x in s if contains(e[1][1], x) and contains(e[1][2], x)] for e in ev]
        n += 1
        r.check("log", "log_substitutions", got == [[s[0]], [s[1]]], r.where(f), "two substitutions are logged as %s" % [show(e[1][1]) for e in ev])
    r.floor("log", n, 1, "paths of log_substitutions")
