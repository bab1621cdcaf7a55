"""C16: every intermediate instruction is implemented alike by the C and WASM generators."""
import itertools, re
from .. import export
from ..ev import mk, St
from ..exec_model import Anchor, INT, PARAM, STR, SOME, NONE, TRUE, FALSE, UNIT, build, adt_id, ADT
from ..paths import explore


def run(F, r):
    r.do(F, dispatch, branches, loops, asserts, logs, returns, values, loads, stores, calls, creations)


FIXED = {"get_string_list_start": 90000, "get_size_of_message_in_bytes": 240, "get_constant_numbers_start": 40960, "get_message_buffer_start": 70000, "get_message_buffer_counter_position": 69996}
CODE, RES = "«%s»", "res_%s"
arr = lambda *x: mk("array", *x)


def subcode(kinds):
    """the code of a child instruction: a marker, and in C the name of its result"""
    def name_of(E, st, a):
        v = E.deref(st, a)
        for k in range(4):
            if v.op == "param" and v.a[0] in kinds: return v.a[0]
            v = E.deref(st, v)
        return None
    def wasm(E, st, name, args, fn, line):
        n = name_of(E, st, args[0])
        return NotImplemented if n is None else [(st, arr(STR(CODE % n)))]
    def c(E, st, name, args, fn, line):
        n = name_of(E, st, args[0])
        return NotImplemented if n is None else [(st, mk("tuple", arr(STR(CODE % n)), STR(RES % n)))]
    return {r"WriteWasm>::produce_wasm$|Instruction::produce_wasm$": wasm, r"WriteC>::produce_c$|Instruction::produce_c$": c}


def method(F, ty, m):
    fs = [f for k, f in F.fns.items() if k.endswith("::" + m) and re.search(r"\b%s as .*>::%s$" % (ty, m), k)]
    if len(fs) != 1: raise Anchor("%s::%s" % (ty, m))
    return fs[0]


def producer(F, r, ty, **over):
    f = method(F, ty, "default"); ps, E = explore(F, f, [], intr=export.intrinsics(), loop_visits=60); r.paths(len(ps))
    if len(ps) != 1: raise Anchor(ty)
    v = ps[0].E.deref(ps[0].st, ps[0].v)
    if v.op != "adt": raise Anchor(ty)
    return ADT(v.a[0], v.a[1], tuple((k, over.get(k, ps[0].E.deref(ps[0].st, x))) for k, x in v.a[2]))


def shown(E, st, name, args, fn, line):
    """the text of a boolean"""
    v = E.deref(st, args[0])
    return [(st, STR("true" if v is TRUE else "false"))] if v is TRUE or v is FALSE else NotImplemented


def produced(F, r, ty, bucket, names, be, prod):
    """the texts generated for the bucket: [(lines, result)] of every path"""
    f = method(F, ty, "produce_" + be); r.fn(f)
    args = [bucket, prod] if be == "wasm" else [bucket, prod, SOME(FALSE)]
    ps, E = explore(F, f, args, intr={**subcode(names), r"fmt::rt::Argument::<'_>::new_display$": shown, **{r"WASMProducer::%s$" % k: (lambda E, st, name, args, fn, line, v=v: [(st, INT(v))]) for k, v in FIXED.items()}, **export.intrinsics()}, loop_visits=60, max_paths=400); r.paths(len(ps)); out = []
    for p in ps:
        v = p.E.deref(p.st, p.v); res = ""
        if be == "c":
            if v.op != "tuple" or len(v.a) != 2: raise Anchor("C code of " + ty)
            s = p.E.deref(p.st, v.a[1]); v = p.E.deref(p.st, v.a[0])
            if s.op != "str": raise Anchor("the result of the C code of " + ty)
            res = s.a[0]
        if v.op != "array": raise Anchor("code of " + ty)
        ls = [p.E.deref(p.st, x) for x in v.a]
        if any(x.op != "str" for x in ls): raise Anchor("code of %s: %s" % (ty, [str(x)[:60] for x in ls if x.op != "str"][0]))
        out.append(([x.a[0] for x in ls], res))
    if not out: raise Anchor("code of " + ty)
    return f, out


# ---------------------------------------------------------------- what the generated code does
class Stop(Exception): pass


def run_wasm(lines, script, mem=None, ram=None, final=None):
    """trace of the generated WASM: the children in the order they are executed, calls with an effect, and the value returned"""
    toks = [t for l in lines for t in [x.strip() for x in l.split("\n")] if t and not t.startswith(";;")]
    match, stack, els = {}, [], {}
    for i, t in enumerate(toks):
        if t in ("block", "loop") or t.split()[0] == "if": stack.append(i)
        elif t == "else":
            if not stack or toks[stack[-1]].split()[0] != "if": raise Stop("unbalanced")
            els[stack[-1]] = i
        elif t == "end":
            if not stack: raise Stop("unbalanced")
            match[stack.pop()] = i
    if stack: raise Stop("unbalanced")
    script = {k: list(v) for k, v in script.items()}; mem = dict(mem or {}); st, ctl, trace, i, steps = [], [], [], 0, 0
    pop = lambda: st.pop() if st else (_ for _ in ()).throw(Stop("the stack is empty"))
    def br(n):
        if n >= len(ctl): raise Stop("branch to an unknown block")
        for _ in range(n): ctl.pop()
        b = ctl[-1]
        if toks[b] == "loop": return b + 1
        ctl.pop(); return match[b] + 1
    while i < len(toks):
        steps += 1
        if steps > 400: trace.append("runs for ever"); return trace
        t = toks[i]; w = t.split()
        m = re.fullmatch("«(.*)»", t)
        if m:
            k = m.group(1); trace.append(k); v = script[k].pop(0) if script.get(k) else None; st.append(v if type(v) is int else ("val", k, v))
        elif w[0] == "i32.const": st.append(int(w[1], 0))
        elif w[0] == "local.get": st.append(mem.get(w[1], ("local", w[1])))
        elif w[0] == "local.set": mem[w[1]] = pop()
        elif w[0] == "local.tee": mem[w[1]] = st[-1]
        elif t == "i32.eqz":
            v = pop(); st.append(int(not v) if isinstance(v, int) else ("not", v))
        elif t in ("i32.add", "i32.sub", "i32.mul"):
            b, a = pop(), pop()
            if not isinstance(a, int) or not isinstance(b, int): raise Anchor("arithmetic on %s" % (a,))
            st.append({"add": a + b, "sub": a - b, "mul": a * b}[t[4:]])
        elif t == "drop": pop()
        elif w[0] == "i32.load":
            a = pop() ; o = int(w[1].split("=")[1], 0) if len(w) > 1 else 0
            if not isinstance(a, int) or ram is None or a + o not in ram: raise Stop("an address outside the tables is read")
            st.append(ram[a + o])
        elif t == "i32.store": v, a = pop(), pop(); trace.append(("store", a, v))
        elif w[0] == "i32.store" and ram is not None:
            v, a = pop(), pop()
            if not isinstance(a, int) or not isinstance(v, int): raise Stop("an address outside the tables is written")
            ram[a + int(w[1].split("=")[1], 0)] = v
        elif t in ("i32.eq", "i32.lt_u"):
            b, a = pop(), pop()
            if not isinstance(a, int) or not isinstance(b, int): raise Anchor("comparison of %s" % (a,))
            st.append(int(a == b if t == "i32.eq" else a < b))
        elif w[0] == "call_indirect" and w[1] == "$runsmap": k, a = pop(), pop(); trace.append(("run", k, a)); st.append(script["run"].pop(0))
        elif w[0] == "call":
            if w[1] == "$Fr_isTrue":
                v = pop()
                if not isinstance(v, tuple) or v[0] != "val" or v[2] is None: raise Stop("the condition is %s" % (v,))
                st.append(int(v[2]))
            elif w[1] == "$Fr_copy": s, d = pop(), pop(); trace.append(("copy", d, s))
            elif w[1] == "$Fr_copyn": n, s, d = pop(), pop(), pop(); trace.append(("copyn", d, s, n))
            elif w[1] == "$buildBufferMessage": b, a = pop(), pop(); trace.append(("message", a, b))
            elif w[1] in ("$buildLogMessage", "$copyFr2SharedRWMemory"): trace.append((w[1], pop()))
            elif w[1] in ("$printErrorMessage", "$showSharedRWMemory", "$writeBufferMessage"): trace.append((w[1],))
            elif re.fullmatch(r"\$\w+_create", w[1]): trace.append(("create", w[1][1:-7], pop())); st.append(script["create"].pop(0))
            elif w[1] == "$fun": k, d = pop(), pop(); trace.append(("call", d, k)); st.append(script["fun"].pop(0))
            elif re.fullmatch(r"\$\w+_run", w[1]): trace.append(("run", w[1][1:-4], pop())); st.append(script["run"].pop(0))
            else: raise Anchor("call %s" % w[1])
        elif t in ("block", "loop"): ctl.append(i)
        elif w[0] == "if":
            c = pop()
            if not isinstance(c, int): raise Stop("the condition is %s" % (c,))
            if c: ctl.append(i)
            elif i in els: ctl.append(i); i = els[i]
            else: i = match[i]
        elif t == "else": b = ctl.pop(); i = match[b]
        elif t == "end": ctl.pop()
        elif w[0] == "br": i = br(int(w[1])); continue
        elif w[0] == "br_if":
            c = pop()
            if not isinstance(c, int): raise Stop("the condition is %s" % (c,))
            if c: i = br(int(w[1])); continue
        elif t == "return": trace.append(("return", st[-1] if st else None)); return trace
        else: raise Anchor("WASM instruction %s" % t)
        i += 1
    if final is not None: final.extend(st)
    return trace


def run_c(lines, script, host=None):
    """trace of the generated C code"""
    src = "\n".join(l for l in "\n".join(lines).split("\n") if not l.strip().startswith("//"))
    src = re.sub(r"std::map<int,\s*int> (\w+) (\{[^;]*\});", lambda m: "sizes %s %s;" % (m.group(1), "_".join(["S"] + re.findall(r"\d+", m.group(2)))), src)
    src = re.sub(r"(?:uint|bool) (\w+) ?\[\d+\] ?= ?\{([\w, ]*)\};", lambda m: "listof %s %s;" % (m.group(1), "_".join(["S"] + [{"true": "1", "false": "0"}.get(x.strip(), x.strip()) for x in m.group(2).split(",") if x.strip()])), src)
    src = re.sub(r"\w+->ntcvs\.wait\(\w+, \[\w+\]\(\) ?\{[^}]*\}\);", "waiting;", src)
    toks = re.findall(r"«[^»]*»|\"(?:\\.|[^\"\\])*\"|\w+|\S", src); pos = [0]
    def peek(k=0): return toks[pos[0] + k] if pos[0] + k < len(toks) else None
    def eat(t=None):
        x = peek()
        if x is None or t is not None and x != t: raise Anchor("C code: %s instead of %s in %s" % (x, t, src[:80]))
        pos[0] += 1; return x
    def block():
        out = []
        while peek() not in (None, "}"): out.append(stmt())
        return out
    def inner():
        eat("("); d, out = 1, []
        while d:
            x = eat()
            d += (x == "(") - (x == ")")
            if d: out.append(x)
        return "".join(out)
    def stmt():
        x = peek()
        if x == "{": eat(); b = block(); eat("}"); return ("block", b)
        if x and x[0] == "«": return ("code", eat()[1:-1])
        if x == ";": eat(); return ("block", [])
        if x == "if":
            eat(); c = inner(); a = stmt(); b = None
            if peek() == "else": eat(); b = stmt()
            return ("if", c, a, b)
        if x == "for":
            eat(); m = re.fullmatch(r"(?:uint|int)(\w+)=0;\1<(\d+);(?:\1\+\+|\+\+\1)", inner())
            if not m: raise Anchor("C loop")
            return ("for", m.group(1), int(m.group(2)), stmt())
        if x == "while": eat(); c = inner(); return ("while", c, stmt())
        out = []
        while peek() not in (None, ";", "{", "}"): out.append(eat())
        if peek() == ";": eat()
        return ("do", out)
    prog = block()
    if peek() is not None: raise Stop("unbalanced")
    script = {k: list(v) for k, v in script.items()}; val, trace, steps = {}, [], [0]
    def cond(c):
        if host is not None: return host.cond(c)
        m = re.fullmatch(r"(!?)Fr_isTrue\(res_(\w+)\)", c)
        if not m: raise Anchor("C condition %s" % c)
        if val.get(m.group(2)) is None: raise Stop("the condition is read before it is computed")
        v = val[m.group(2)]; return not v if m.group(1) else v
    def ex(s):
        steps[0] += 1
        if steps[0] > 400: raise Stop("runs for ever")
        if s[0] == "block":
            for x in s[1]: ex(x)
        elif s[0] == "code": trace.append(s[1]); val[s[1]] = script[s[1]].pop(0) if script.get(s[1]) else None; host is not None and host.made(s[1])
        elif s[0] == "if":
            if cond(s[1]): ex(s[2])
            elif s[3]: ex(s[3])
        elif s[0] == "for":
            if host is None: raise Anchor("C loop")
            for k in range(s[2]): host.env[s[1]] = k; ex(s[3])
        elif s[0] == "while":
            while cond(s[1]): ex(s[2])
        elif host is not None: host.do(" ".join(s[1]), trace)
        else: trace.append(("do", s[1]))
    for x in prog: ex(x)
    return trace


def compare(F, r, rule, key, ty, bucket, names, cases, prods, view):
    """run the generated code of both back ends on the scripts; view(be, trace) -> what must be equal to the expected list"""
    for be in ("wasm", "c"):
        f, outs = produced(F, r, ty, bucket, names, be, prods[be]); bad = []
        for lines, res in outs:
            for script, want in cases:
                try: got = view(be, run_wasm(lines, script) if be == "wasm" else run_c(lines, script))
                except Stop as e: bad.append(str(e)); continue
                if got != want: bad.append("with conditions %s it does %s, not %s" % (script, got, want))
        r.check(rule, "%s:%s" % (be, key), not bad, r.where(f), "; ".join(sorted(set(bad)))[:300])


def prods(F, r, style=2, **k): return {"wasm": producer(F, r, "WASMProducer", sanity_check_style=INT(style)), "c": producer(F, r, "CProducer", sanity_check_style=INT(style))}


children = lambda be, t: [x for x in t if isinstance(x, str)]


def lists(): return [(), ("b0",), ("b0", "b1"), ("b0", "b1", "b2")]


def branches(F, r):
    r.rule("branch", "the condition of a branch is evaluated once, then exactly the chosen branch, in order")
    P = prods(F, r); n = 0
    for a in lists():
        for b in [tuple(x.replace("b", "e") for x in l) for l in lists()]:
            if not a and not b: continue      # removed before: a conditional without code is not translated
            bk = build(F, "BranchBucket", None, "bk", line=INT(7), message_id=INT(1), cond=PARAM("c"), if_branch=arr(*[PARAM(x) for x in a]), else_branch=arr(*[PARAM(x) for x in b])); n += 1
            compare(F, r, "branch", "%d/%d" % (len(a), len(b)), "BranchBucket", bk, {"c", *a, *b}, [({"c": [True]}, ["c", *a]), ({"c": [False]}, ["c", *b])], P, children)
    r.floor("branch", n, 10, "branches")


def loops(F, r):
    r.rule("loop", "the condition of a loop is evaluated before each round, and the body, in order, exactly when it holds")
    P = prods(F, r)
    for a in lists():
        bk = build(F, "LoopBucket", None, "bk", line=INT(7), message_id=INT(1), continue_condition=PARAM("c"), body=arr(*[PARAM(x) for x in a]))
        compare(F, r, "loop", str(len(a)), "LoopBucket", bk, {"c", *a}, [({"c": [True] * k + [False]}, ["c", *a] * k + ["c"]) for k in range(4)], P, children)


def asserts(F, r):
    r.rule("assert", "an assertion evaluates its condition and stops the execution exactly when it is false; that of a constraint is left out only without sanity checks")
    for style in (0, 1, 2):
        P = prods(F, r, style)
        for eq in (False, True):
            bk = build(F, "AssertBucket", None, "bk", line=INT(7), message_id=INT(3), evaluate=PARAM("c"), is_constraint_equality=TRUE if eq else FALSE)
            for be in ("wasm", "c"):
                f, outs = produced(F, r, "AssertBucket", bk, {"c"}, be, P[be]); bad = []
                for lines, res in outs:
                    for v in (True, False):
                        try: t = run_wasm(lines, {"c": [v]}) if be == "wasm" else run_c(lines, {"c": [v]})
                        except Stop as e: bad.append(str(e)); continue
                        if eq and style == 0 and not t: continue
                        if children(be, t) != ["c"]: bad.append("the condition is evaluated %d times" % len(children(be, t)))
                        stops = any(x[0] == "return" and x[1] != 0 for x in t if isinstance(x, tuple)) if be == "wasm" else any(x[0] == "do" and x[1][:2] == ["assert", "("] for x in t)
                        if be == "wasm" and stops == v: bad.append("with the condition %s it %s" % (v, "stops" if stops else "goes on"))
                        if be == "wasm" and not v and ("message", 3, 7) not in t: bad.append("the message of another line")
                        if be == "c":
                            a = ["".join(x[1]) for x in t if x[0] == "do" and x[1][0] == "assert"]
                            if a != ["assert(Fr_isTrue(res_c))"]: bad.append("it asserts %s" % a)
                            if not v and not any("printf" in x[1] or "7" in " ".join(x[1]) for x in t if x[0] == "do"): bad.append("the failure is not announced")
                            if v and any("Failed" in " ".join(x[1]) for x in t if x[0] == "do"): bad.append("a failure is announced when it holds")
                r.check("assert", "%s:%s, sanity check %d" % (be, "constraint" if eq else "assert", style), not bad, r.where(f), "; ".join(sorted(set(bad)))[:300])


def logs(F, r):
    r.rule("log", "the arguments of a log are printed in order, followed by a new line")
    i = adt_id(F, "LogBucketArg"); tab = ["zero", "one", "two"]
    P = prods(F, r)
    C = ADT(P["c"].a[0], P["c"].a[1], tuple((k, arr(*[STR(x) for x in tab]) if k == "string_table" else v) for k, v in P["c"].a[2]))
    if "string_table" not in dict(P["c"].a[2]): raise Anchor("the string table")
    for k in ("get_string_list_start", "get_size_of_message_in_bytes"): method_any(F, "WASMProducer", k)
    s0, sz = FIXED["get_string_list_start"], FIXED["get_size_of_message_in_bytes"]
    for items in ((), ("a",), (0,), ("a", "b"), (1, "a", 2), ("a", 2, 0, "b"), (2, 2, "a", "a")):
        bk = build(F, "LogBucket", None, "bk", line=INT(7), message_id=INT(3), argsprint=arr(*[ADT(i, "LogStr", (("0", INT(x)),)) if isinstance(x, int) else ADT(i, "LogExp", (("0", PARAM(x)),)) for x in items]))
        f, outs = produced(F, r, "LogBucket", bk, {"a", "b"}, "wasm", P["wasm"]); bad = []
        for lines, res in outs:
            try: t = run_wasm(lines, {})
            except Stop as e: bad.append(str(e)); continue
            got = []
            for x in t:
                if isinstance(x, tuple) and x[0] == "$copyFr2SharedRWMemory": got.append(x[1][1] if isinstance(x[1], tuple) else "?")
                elif isinstance(x, tuple) and x[0] == "$buildLogMessage": got.append((x[1] - s0) // sz if (x[1] - s0) % sz == 0 else "?")
            if got != list(items): bad.append("%s are printed as %s" % (list(items), got))
            if not any(isinstance(x, tuple) and x[0] == "store" and x[2] == 10 for x in t): bad.append("the line is not ended")
        r.check("log", "wasm:%s" % (items,), not bad, r.where(f), "; ".join(bad))
        f, outs = produced(F, r, "LogBucket", bk, {"a", "b"}, "c", C); bad = []
        for lines, res in outs:
            try: t = run_c(lines, {})
            except Stop as e: bad.append(str(e)); continue
            got = [x[1] for x in t if x[0] == "do" and x[1][0] == "printf"]; seen = []; cur = None
            for x in t:
                if isinstance(x, str): continue
                m = re.search(r"Fr_element2str\(res_(\w+)\)", "".join(x[1]))
                if m: cur = m.group(1)
                if x[1][0] == "printf":
                    s = x[1][2]
                    if s == '"%s"': seen.append(cur)
                    elif s.strip('"') in tab: seen.append(tab.index(s.strip('"')))
                    elif s == '"\\n"': seen.append("\n")
            if seen != list(items) + ["\n"]: bad.append("%s are printed as %s" % (list(items), seen))
            if children("c", t) != [x for x in items if isinstance(x, str)]: bad.append("the arguments are evaluated as %s" % children("c", t))
        r.check("log", "c:%s" % (items,), not bad, r.where(f), "; ".join(bad))


def method_any(F, ty, m):
    fs = [f for k, f in F.fns.items() if k.endswith("%s::%s" % (ty, m))]
    if len(fs) != 1: raise Anchor("%s::%s" % (ty, m))
    return fs[0]


def value(F, r, f, *args):
    ps, E = explore(F, f, list(args), intr=export.intrinsics(), loop_visits=60); r.paths(len(ps)); v = [p.E.deref(p.st, p.v) for p in ps]
    if len(v) != 1 or v[0].op != "int": raise Anchor(f.id)
    return v[0].a[0]


def returns(F, r):
    r.rule("return", "a return copies as many elements as the destination and the value have, from the first on, and leaves the function")
    P = prods(F, r); g = method_any(F, "WASMProducer", "get_size_32_bit"); s = (value(F, r, g, P["wasm"]) + 2) * 4
    W = {k: v.a[0] for k, v in P["wasm"].a[2] if v.op == "str"}
    for size in (1, 2, 5):
        bk = build(F, "ReturnBucket", None, "bk", line=INT(7), message_id=INT(3), with_size=INT(size), value=PARAM("v"))
        f, outs = produced(F, r, "ReturnBucket", bk, {"v"}, "wasm", P["wasm"]); bad = []
        for lines, res in outs:
            for dest in ((1,) if size == 1 else (1, size)):
                ls = [l if l != CODE % "v" else "local.get $theval" for l in lines]
                try: t = run_wasm(ls, {}, {W["result_address_tag"]: 1000, W["result_size_tag"]: dest, "$theval": 50000, W["cstack_tag"]: 7777, W["lvar_tag"]: 8888})
                except Stop as e: bad.append(str(e)); continue
                want = [(1000 + k * s, 50000 + k * s) for k in range(dest)]
                got = sorted((x[1], x[2]) for x in t if isinstance(x, tuple) and x[0] == "copy")
                if got != want: bad.append("a destination of %d elements receives %s" % (dest, got))
                if not t or t[-1] != ("return", 0): bad.append("it ends with %s" % (t[-1:],))
        r.check("return", "wasm:%d" % size, not bad, r.where(f), "; ".join(bad)[:300])
        f, outs = produced(F, r, "ReturnBucket", bk, {"v"}, "c", P["c"]); bad = []
        for lines, res in outs:
            t = run_c(lines, {}); got = ["".join(x[1]) for x in t if not isinstance(x, str)]
            want = ["Fr_copy(destination,res_v)"] if size == 1 else ["Fr_copyn(destination,res_v,std::min(%d,destination_size))" % size]
            norm = [x.replace("std::min(destination_size,%d)" % size, "std::min(%d,destination_size)" % size) for x in got]
            if children("c", t) != ["v"] or norm != want + ["return"]: bad.append("it does %s" % got)
        r.check("return", "c:%d" % size, not bad, r.where(f), "; ".join(bad)[:300])


def values(F, r):
    r.rule("value", "a number stands for itself and a constant for its entry of the table of constants, in both back ends")
    P = prods(F, r); g = method_any(F, "WASMProducer", "get_size_32_bit"); s = (value(F, r, g, P["wasm"]) + 2) * 4
    method_any(F, "WASMProducer", "get_constant_numbers_start"); start = FIXED["get_constant_numbers_start"]; vt = adt_id(F, "intermediate_representation::types::ValueType")
    for kind in ("U32", "BigInt"):
        for n in (0, 1, 41):
            bk = build(F, "ValueBucket", None, "bk", line=INT(7), message_id=INT(3), parse_as=ADT(vt, kind, ()), op_aux_no=INT(0), value=INT(n))
            f, outs = produced(F, r, "ValueBucket", bk, set(), "wasm", P["wasm"])
            want = n if kind == "U32" else start + n * s
            got = [[x for x in l if not x.strip().startswith(";;")] for l, _ in outs]
            ok = all(len(x) == 1 and re.fullmatch(r"i32\.const \d+", x[0]) and int(x[0].split()[1]) == want for x in got)
            r.check("value", "wasm:%s %d" % (kind, n), ok, r.where(f), "%s %d is generated as %s" % (kind, n, got[:1]))
            f, outs = produced(F, r, "ValueBucket", bk, set(), "c", P["c"])
            w = str(n) if kind == "U32" else "&circuitConstants[%d]" % n
            r.check("value", "c:%s %d" % (kind, n), all(not [x for x in l if not x.strip().startswith("//")] and x.replace(" ", "") == w for l, x in outs), r.where(f), "%s %d is generated as %s" % (kind, n, [x for l, x in outs][:1]))


def dispatch(F, r):
    r.rule("dispatch", "an instruction is generated, located and described by its own kind's code, with the same arguments")
    i = adt_id(F, "ir_interface::Instruction"); vs = [v[0] for v in F.adts[i]["variants"]]; pay = {v[0]: v[2] for v in F.adts[i]["variants"]}; n = 0
    for m, extra in (("produce_wasm", [PARAM("prod")]), ("produce_c", [PARAM("prod"), SOME(PARAM("par"))]), ("get_line", []), ("get_message_id", [])):
        fs = [f for k, f in F.fns.items() if re.search(r"\bInstruction as .*>::%s$" % m, k)]
        if len(fs) != 1: raise Anchor("Instruction::" + m)
        f = fs[0]; r.fn(f)
        for v in vs:
            ty = str(pay[v][0][1]).rsplit("::", 1)[-1].strip(")]'\" ") if pay[v] else None
            def take(E, st, name, args, fn, line):
                if re.search(r"\bInstruction as", name): return NotImplemented
                E.event(st, "made", (STR(name),) + tuple(E.deref(st, a) for a in args), line, fn); return [(st, mk("made"))]
            ps, E = explore(F, f, [ADT(i, v, (("0", PARAM("bucket")),))] + extra, intr={r"::%s$" % m: take}); r.paths(len(ps)); bad = []
            if not ps: bad.append("no code")
            for p in ps:
                ev = p.events(r"^made$"); n += 1
                if len(ev) != 1: bad.append("%d kinds of code are generated" % len(ev)); continue
                if p.E.deref(p.st, ev[0][1][1]) is not PARAM("bucket") or list(ev[0][1][2:]) != extra: bad.append("with other arguments")
                if ty and ty not in ev[0][1][0].a[0]: bad.append("generated as %s" % ev[0][1][0].a[0])
                if p.v is not mk("made"): bad.append("the code is changed")
            r.check("dispatch", "%s:%s" % (m, v), not bad, r.where(f), "; ".join(sorted(set(bad)))[:200])
    r.floor("dispatch", n, 40, "kinds of instruction")


# ---------------------------------------------------------------- locations
FIXED.update(get_template_instance_to_io_signal_start=200000, get_bus_instance_to_field_start=300000)


class Def:
    """an entry of the tables of signals or fields: offset, lengths of the dimensions, size of an element, fields of its bus"""
    def __init__(self, offset, dims, size, bus=None): self.offset, self.dims, self.size, self.bus = offset, dims, size, bus


class Obj:
    def __init__(self, **k): self.__dict__.update(k)


class Put:
    """an array of which only what is stored is of interest"""
    def __init__(self): self.d = {}
    def __setitem__(self, k, v): self.d[k] = v


class At:
    def __init__(self, f): self.f = f
    def __getitem__(self, k): return self.f(k)


BUSES = {4: {0: Def(0, [], 1), 2: Def(3, [4, 5], 2, 6)}, 6: {1: Def(1, [], 1), 3: Def(7, [3], 1)}}
SIGNALS = {0: Def(2, [], 1), 1: Def(5, [7], 1), 3: Def(11, [3, 4, 6], 1), 5: Def(90, [], 60, 4), 6: Def(160, [2, 3], 60, 4)}
CMP, T, SUBSTART, MYSTART, LVAR, CHILD = 9, 13, 3000, 500, 64000, 8


def ram_of(s, sig0, cmp_in, sub_in, mysignals):
    """the tables as the WASM module keeps them"""
    ram, free = {}, [400000]
    OFF, CB = 10000, 20000
    def put(d):
        a = free[0]; ws = [d.offset * s]
        if d.dims: ws += d.dims[1:] + [d.size]
        if d.bus is not None: ws += [d.bus] if d.dims else [d.bus]
        for k, w in enumerate(ws): ram[a + 4 * k] = w
        free[0] += 4 * len(ws); return a
    ram[OFF + sub_in + CMP * 4] = CB; ram[CB] = T; ram[CB + sig0] = SUBSTART * s
    L = free[0]; free[0] += 4 * 16; ram[FIXED["get_template_instance_to_io_signal_start"] + 4 * T] = L
    for c, d in SIGNALS.items(): ram[L + 4 * c] = put(d)
    for b, fs in BUSES.items():
        L = free[0]; free[0] += 4 * 16; ram[FIXED["get_bus_instance_to_field_start"] + 4 * b] = L
        for c, d in fs.items(): ram[L + 4 * c] = put(d)
    return OFF, ram


def c_env(sub):
    d = lambda x: Obj(offset=x.offset, lengths=At(lambda k: x.dims[k + 1] if 0 <= k < len(x.dims) - 1 else (_ for _ in ()).throw(Stop("a length that is not in the tables"))), size=x.size, busId=x.bus)
    look = lambda tab, what: At(lambda k: d(tab[k]) if k in tab else (_ for _ in ()).throw(Stop("an unknown " + what)))
    ctx = Obj(componentMemory=At(lambda k: sub if k == 77 else (_ for _ in ()).throw(Stop("another component"))), templateInsId2IOSignalInfo=At(lambda k: Obj(defs=look(SIGNALS if k == T else {}, "signal"))),
              busInsId2FieldInfo=At(lambda k: Obj(defs=look(BUSES.get(k, {}), "field"))), signalValues=At(lambda k: ("signal", k)))
    return {"ctx": ctx, "mySubcomponents": At(lambda k: 77 if k == CMP else 78), "mySignalStart": MYSTART, "signalValues": ctx.signalValues, "lvar": At(lambda k: ("var", k)), "__builtins__": {}}


def c_index(text):
    """the element an expression of the generated C code denotes"""
    env = c_env(Obj(templateId=T, signalStart=SUBSTART)); env["res_cmp"] = CMP
    for n, v in VALS.items(): env["res_" + n] = v
    try: return eval(text.replace("->", ".").lstrip("&").strip(), env)
    except (Stop, Anchor): raise
    except Exception as e: raise Anchor("C expression %s: %s" % (text[:80], e))


VALS = {"loc": 8, "i0": 2, "i1": 1, "i2": 2, "j0": 3, "j1": 2, "k0": 1}


class Host:
    """the state the generated C code of a store works on"""
    def __init__(self, counter, par):
        self.sub = Obj(templateId=T, signalStart=SUBSTART, inputCounter=counter); self.env = c_env(self.sub); self.trace = None; e = self.env
        e["ctx"].componentMemory = At(lambda k: self.sub if k == 77 else (_ for _ in ()).throw(Stop("another component")))
        e["mySubcomponentsParallel"] = At(lambda k: par if k == CMP else not par)
        e["Fr_copy"] = lambda d, s: self.copy(d, s, 1); e["Fr_copyn"] = self.copy; e["min"] = min
        e["fun"] = self.fun; e["myId"] = 5
        e["_functionTable"] = At(lambda t: lambda c, x: self.ran(t, c, False)); e["_functionTableParallel"] = At(lambda t: ("table", t))
    def copy(self, d, s, n): self.trace += [("copy", (d[0], d[1] + k), (s[0], s[1] + k)) for k in range(n)]
    def fun(self, ctx, args, me, d, n):
        if ctx is not self.env["ctx"] or args is not self.args or me != 5: raise Stop("the function is called with other arguments")
        self.trace.append(("call", d, n))
    def ran(self, what, c, par):
        if c != 77: raise Stop("another component is run")
        self.trace.append(("run", what, par))
    def made(self, n): self.env["res_" + n] = {"cmp": CMP, "cmp2": CMP, "src": ("src", 0), **{"a%d" % i: ("a%d" % i, 0) for i in range(3)}, **VALS}[n]
    def py(self, t):
        t = t.replace("- >", ".").replace("std : : min", "min").replace("ctx_index", "0"); t = re.sub(r"!\s*(?!=)", " not ", t)
        return re.sub(r"\(\s*\*\s*(_functionTable)", r"(\1", t.replace("&", "")).strip()
    def eval(self, t, f=eval):
        try: return f(self.py(t), self.env)
        except (Stop, Anchor): raise
        except NameError as e: raise Stop("%s is used before it is computed" % e.name if str(e.name).startswith("res_") else str(e)) if str(e.name).startswith("res_") else Anchor("C code %s: %s" % (t[:80], e))
        except Exception as e: raise Anchor("C code %s: %s" % (t[:80], e))
    def cond(self, t):
        m = re.fullmatch(r"(!?)\((.*)\.inputCounter-=(.*)\)", t)
        if m:
            self.eval("%s.inputCounter -= %s" % (m.group(2).replace("->", "."), m.group(3).replace("->", ".")), exec); v = self.sub.inputCounter
            return not v if m.group(1) else bool(v)
        return bool(self.eval(t.replace("->", ".")))
    def do(self, t, trace):
        self.trace = trace; m = re.fullmatch(r"sizes (\w+) S((?:_\d+)*)", t)
        if m: v = [int(x) for x in m.group(2).split("_")[1:]]; self.env[m.group(1)] = At(lambda k, d=dict(zip(v[::2], v[1::2])): d.get(k, 0)); return
        m = re.fullmatch(r"listof (\w+) S((?:_\d+)*)", t)
        if m: self.env[m.group(1)] = [int(x) for x in m.group(2).split("_")[1:]]; return
        if t in ("waiting", "ctx - > numThread + +") or t.startswith("std : : unique_lock"): return
        m = re.fullmatch(r"FrElement (\w+) \[ \d+ \]", t)
        if m: self.env[m.group(1)] = At(lambda k: ("arg", k)); self.args = self.env[m.group(1)]; return
        m = re.fullmatch(r"uint (\w+) \[ \d+ \]", t)
        if m: self.env[m.group(1)] = {}; return
        m = re.fullmatch(r"assert \( (.*) \)", t)
        if m:
            if not self.eval(m.group(1)): raise Stop("an assertion about the inputs left fails")
            return
        m = re.fullmatch(r".*sbct \[ (.*?) \] = std : : thread \( (.*?) , (mySub.*) , ctx \)", t)
        if m:
            if self.eval(m.group(1)) != CMP: raise Stop("the thread of another component")
            w = re.fullmatch(r"(\w+)_run_parallel", m.group(2)); v = w.group(1) if w else self.eval(m.group(2))
            if not w and (not isinstance(v, tuple) or v[0] != "table"): raise Stop("a thread runs %s" % m.group(2))
            self.ran(v if w else v[1], self.eval(m.group(3)), True); return
        m = re.fullmatch(r"(\w+)_run \( (.*) , ctx \)", t)
        if m: self.ran(m.group(1), self.eval(m.group(2)), False); return
        self.eval(re.sub(r"^(uint|int|bool|std : : string|PFrElement|IOFieldDef \*) (?=\w+ =)", "", t).replace("- =", "-=").replace("+ =", "+="), exec)


def stores(F, r):
    r.rule("store", "a store copies as many elements as both sides have to the place its location stands for, takes them off the inputs its component waits for, and runs the component when none is left, in both back ends")
    P = {k: prods(F, r, k) for k in (0, 2)}; g = method_any(F, "WASMProducer", "get_size_32_bit"); s = (value(F, r, g, P[2]["wasm"]) + 2) * 4
    W = {k: v.a[0] for k, v in P[2]["wasm"].a[2] if v.op == "str"}; so, info, si = adt_id(F, "SizeOption"), adt_id(F, "InputInformation"), adt_id(F, "StatusInput")
    sig0, sub_in, cnt = (value(F, r, method_any(F, "WASMProducer", k), P[2]["wasm"]) for k in ("get_signal_start_address_in_component", "get_sub_component_start_in_component", "get_input_counter_address_in_component"))
    names = {"loc", "cmp", "cmp2", "src", *VALS}; SRC = 800000; n = 0
    def size(v): return build(F, "InstrContext", None, "x", size=ADT(so, "Single", (("0", INT(v)),)) if isinstance(v, int) else ADT(so, "Multiple", (("0", arr(*[mk("tuple", INT(a), INT(b)) for a, b in v])),)))
    num = lambda v: v if isinstance(v, int) else dict(v).get(T, 0)
    small, two, more = (("Unknown", True),), [(1, 1), (3, 3), (2, 3)], [(0, 0), (0, 1), (1, 0), (3, 1), (((12, 5), (T, 2)), 4), (4, ((T, 3), (20, 1))), (((T, 4),), ((T, 3),))]
    every = [(a, b) for a in ("NoLast", "Last", "Unknown") for b in (True, False) if (a, b) != ("Unknown", False)]
    for status, need in every:
        inf = ADT(info, "Input", (("status", ADT(si, status, ())), ("needs_decrement", TRUE if need else FALSE)))
        for par in ((FALSE,), (TRUE,), ()):
            for nm, rule, at, want, ch in places(F, input_information=inf, uniform_parallel_value=SOME(par[0]) if par else NONE):
                sub = "cmp" in ch; full = nm in ("subcomponent", "mapped array")
                if not full and ((status, need) not in small or par != (FALSE,)): continue
                if rule.a[1] == "Indexed": rule = ADT(rule.a[0], rule.a[1], tuple((k, SOME(STR("Tpl_13")) if k == "template_header" else v) for k, v in rule.a[2]))
                for d, sc in two + (more if full and par == (FALSE,) else more[:3] if nm == "signal" else []):
                    k = min(num(d), num(sc)); src = () if isinstance(sc, int) else ("cmp2",)
                    bk = build(F, "StoreBucket", None, "bk", line=INT(7), message_id=INT(3), context=size(d), src_context=size(sc), dest_is_output=FALSE, dest_address_type=at,
                               src_address_type=SOME(PARAM("cmp2")) if src else NONE, dest=rule, src=PARAM("src")); n += 1
                    key = "%s, %s elements from %s, %s%s%s" % (nm, d if isinstance(d, int) else "its", sc if isinstance(sc, int) else "its", status, "" if need else " uncounted", "" if par == (FALSE,) else ", parallel" if par else ", maybe parallel")
                    counters = [k + 2] if status == "NoLast" else [k] if status == "Last" else [k, k + 1]
                    kids = sorted([*ch, "src", *src])
                    # WASM: once for each count of the inputs that are left
                    if par == (FALSE,):
                        f, outs = produced(F, r, "StoreBucket", bk, names, "wasm", P[2]["wasm"]); bad = []
                        for lines, res in outs:
                            for c, err in [(c, e) for c in counters for e in ((0, 5) if sub else (0,))]:
                                OFF, ram = ram_of(s, sig0, CMP, sub_in, MYSTART); ram[20000 + cnt] = c
                                try: t = run_wasm(lines, {**{x: [v] for x, v in VALS.items()}, "cmp": [CMP], "cmp2": [CMP], "src": [SRC], "run": [err]}, {W["lvar_tag"]: LVAR * s, W["signal_start_tag"]: MYSTART * s, W["offset_tag"]: OFF}, ram, left := [])
                                except Stop as e: bad.append(str(e)); continue
                                base = (LVAR + want[1] if want[0] == "var" else want[1]) * s
                                ev = [x for x in t if not isinstance(x, str)]; exp = [("copy", base + i * s, SRC + i * s) for i in range(k)]
                                if sub and k and c == k: exp += [("run", "Tpl_13" if nm == "subcomponent" else T, 20000)] + ([("message", 3, 7), ("$printErrorMessage",), ("return", 5)] if err else [])
                                if ev != exp: bad.append("with %d inputs left it does %s, not %s" % (c, ev, exp))
                                if left: bad.append("%d values are left on the stack" % len(left))
                                if k and sorted(x for x in t if isinstance(x, str)) != kids: bad.append("it evaluates %s" % [x for x in t if isinstance(x, str)])
                                if sub and ram[20000 + cnt] != c - k: bad.append("%d inputs of %d are left after storing %d" % (ram[20000 + cnt], c, k))
                        r.check("store", "wasm:" + key, not bad, r.where(f), "; ".join(sorted(set(bad)))[:300])
                    for style in ((0, 2) if sub else (2,)):
                        f, outs = produced(F, r, "StoreBucket", bk, names, "c", P[style]["c"]); bad = []
                        for lines, res in outs:
                            for c, mine in [(c, m) for c in counters for m in (((par[0] is TRUE,) if par else (True, False)) if sub else (False,))]:
                                h = Host(c, mine)
                                try: t = run_c(lines, {}, h)
                                except Stop as e: bad.append(str(e)); continue
                                ev = [x for x in t if not isinstance(x, str)]; exp = [("copy", (want[0], want[1] + i), ("src", i)) for i in range(k)]
                                if sub and k and c == k: exp.append(("run", "Tpl_13" if nm == "subcomponent" else T, mine))
                                if ev != exp: bad.append("with %d inputs left it does %s, not %s" % (c, ev, exp))
                                if k and sorted(children("c", t)) != kids: bad.append("it evaluates %s" % children("c", t))
                                if sub and need and status != "Last" and h.sub.inputCounter != c - k: bad.append("%d inputs of %d are left after storing %d" % (h.sub.inputCounter, c, k))
                        r.check("store", "c:%s, sanity check %d" % (key, style), not bad, r.where(f), "; ".join(sorted(set(bad)))[:300])
    r.floor("store", n, 60, "stores")


def calls(F, r):
    r.rule("call", "a call copies its arguments one after the other into the frame of the function, passes the place of the result and its size, and counts the inputs stored, in both back ends")
    P = prods(F, r); g = method_any(F, "WASMProducer", "get_size_32_bit"); s = (value(F, r, g, P["wasm"]) + 2) * 4
    W = {k: v.a[0] for k, v in P["wasm"].a[2] if v.op == "str"}; so, info, si, rt = adt_id(F, "SizeOption"), adt_id(F, "InputInformation"), adt_id(F, "StatusInput"), adt_id(F, "ReturnType")
    sig0, sub_in, cnt, li = (value(F, r, method_any(F, "WASMProducer", k), P["wasm"]) for k in ("get_signal_start_address_in_component", "get_sub_component_start_in_component", "get_input_counter_address_in_component", "get_local_info_size_u32"))
    names = {"loc", "cmp", "a0", "a1", "a2", *VALS}; n = 0; TOP = 900000; AT = {"a%d" % i: 700000 + 10000 * i for i in range(3)}
    def size(v): return build(F, "InstrContext", None, "x", size=ADT(so, "Single", (("0", INT(v)),)) if isinstance(v, int) else ADT(so, "Multiple", (("0", arr(*[mk("tuple", INT(a), INT(b)) for a, b in v])),)))
    for status in ("Unknown", "NoLast", "Last"):
        inf = ADT(info, "Input", (("status", ADT(si, status, ())), ("needs_decrement", TRUE)))
        for nm, rule, at, want, ch in places(F, input_information=inf):
            sub = "cmp" in ch; full = nm in ("subcomponent", "mapped array")
            if status != "Unknown" and not full: continue
            if rule.a[1] == "Indexed": rule = ADT(rule.a[0], rule.a[1], tuple((k, SOME(STR("Tpl_13")) if k == "template_header" else v) for k, v in rule.a[2]))
            for sizes, d in (((1,), 1), ((), 3), ((1, 3, 1), 1), ((3, 0, 1), 2), ((1, 1, 0), 1)) + ((((2,), ((12, 5), (T, 2))),) if full else ()):
                k = d if isinstance(d, int) else dict(d)[T]; n += 1
                fin = build(F, "FinalData", None, "d", context=size(d), dest_is_output=FALSE, dest_address_type=at, dest=rule)
                bk = build(F, "CallBucket", None, "bk", line=INT(7), message_id=INT(3), symbol=STR("fun"), argument_types=arr(*[size(x) for x in sizes]), arguments=arr(*[PARAM("a%d" % i) for i in range(len(sizes))]),
                           arena_size=INT(30), return_info=ADT(rt, "Final", (("0", fin),)))
                copies = [("a%d" % i, e, sum(sizes[:i]) + e) for i, x in enumerate(sizes) for e in range(x)]; kids = sorted([*ch, *["a%d" % i for i in range(len(sizes))]])
                key = "%s, arguments of %s, result of %s, %s" % (nm, list(sizes), d if isinstance(d, int) else "its size", status); counters = [k + 2] if status == "NoLast" else [k] if status == "Last" else [k, k + 1]
                for be in ("wasm", "c"):
                    f, outs = produced(F, r, "CallBucket", bk, names, be, P[be]); bad = []
                    for lines, res in outs:
                        for c, e1, e2 in [(c, a, b) for c in counters for a, b in (((0, 0), (4, 0), (0, 5)) if be == "wasm" else ((0, 0),))]:
                            run = ("run", "Tpl_13" if nm == "subcomponent" else T)
                            if be == "wasm":
                                OFF, ram = ram_of(s, sig0, CMP, sub_in, MYSTART); ram[20000 + cnt] = c; ram[0] = TOP; left = []
                                try: t = run_wasm(lines, {**{x: [v] for x, v in VALS.items()}, "cmp": [CMP], **{x: [v] for x, v in AT.items()}, "run": [e2], "fun": [e1]}, {W["lvar_tag"]: LVAR * s, W["signal_start_tag"]: MYSTART * s, W["offset_tag"]: OFF}, ram, left)
                                except Stop as e: bad.append(str(e)); continue
                                if left: bad.append("%d values are left on the stack" % len(left))
                                err = lambda v: [("message", 3, 7), ("$printErrorMessage",), ("return", v)]
                                exp = [("copy", TOP + li * 4 + p * s, AT[a] + e * s) for a, e, p in copies] + [("call", (LVAR + want[1] if want[0] == "var" else want[1]) * s, k)] + (err(e1) if e1 else [(*run, 20000)] + (err(e2) if e2 else []) if sub and c == k else [])
                                count = ram[20000 + cnt] if not e1 else c - k
                            else:
                                h = Host(c, False)
                                try: t = run_c(lines, {}, h)
                                except Stop as e: bad.append(str(e)); continue
                                exp = [("copy", ("arg", p), (a, e)) for a, e, p in copies] + [("call", want, k)] + ([(*run, False)] if sub and c == k else []); count = h.sub.inputCounter
                            ev = [x for x in t if not isinstance(x, str)]
                            if ev != exp: bad.append("with %d inputs left it does %s, not %s" % (c, ev, exp))
                            if sorted(x for x in t if isinstance(x, str)) != kids: bad.append("it evaluates %s" % [x for x in t if isinstance(x, str)])
                            if sub and count != c - k: bad.append("%d inputs of %d are left after storing %d" % (count, c, k))
                    r.check("call", be + ":" + key, not bad, r.where(f), "; ".join(sorted(set(bad)))[:300])
    r.floor("call", n, 40, "calls")


def creations(F, r):
    r.rule("create", "the components of an array that exist are created in order with their signals one after the other, kept at their positions, and run when they have no inputs, in both back ends")
    P = prods(F, r); g = method_any(F, "WASMProducer", "get_size_32_bit"); s = (value(F, r, g, P["wasm"]) + 2) * 4; n = 0
    W = {k: v.a[0] for k, v in P["wasm"].a[2] if v.op == "str"}; sub_in = value(F, r, method_any(F, "WASMProducer", "get_sub_component_start_in_component"), P["wasm"])
    SO, SJ, CO, CJ = 20, 6, 4, 3
    for N, pos in ((1, [0]), (3, [0, 1, 2]), (4, [0, 2]), (4, [1, 2]), (4, [3]), (6, [0, 1, 4, 5])):
        for uni in (FALSE, TRUE, None):
            for inputs in (True, False):
                if inputs is False and uni is not FALSE: continue
                flags = [uni is TRUE if uni is not None else k % 2 == 0 for k in range(len(pos))]
                for mixed in ((False, True) if uni is not None else (False,)):
                    bk = build(F, "CreateCmpBucket", None, "bk", line=INT(7), message_id=INT(3), symbol=STR("Tpl"), sub_cmp_id=PARAM("cmp"), name_subcomponent=STR("c"), defined_positions=arr(*[mk("tuple", INT(p), TRUE if f else FALSE) for p, f in zip(pos, flags)]),
                               is_part_mixed_array_not_uniform_parallel=TRUE if mixed else FALSE, uniform_parallel=NONE if uni is None else SOME(uni), dimensions=arr(INT(N)) if N > 1 else arr(), signal_offset=INT(SO), signal_offset_jump=INT(SJ),
                               component_offset=INT(CO), component_offset_jump=INT(CJ), number_of_cmp=INT(N), has_inputs=TRUE if inputs else FALSE)
                    n += 1; key = "%s of %d, %s%s%s" % (pos, N, "with inputs" if inputs else "without inputs", {"None": ", mixed parallelism", "True": ", parallel", "False": ""}[str(None if uni is None else uni is TRUE)], ", part of a mixed array" if mixed else "")
                    if uni is not TRUE and not mixed:
                        f, outs = produced(F, r, "CreateCmpBucket", bk, {"cmp"}, "wasm", P["wasm"]); bad = []
                        for lines, res in outs:
                            for fail in (None, *((0, len(pos) - 1) if not inputs else ())):
                                left = []; ptr = [50000 + 100 * k for k in range(len(pos))]
                                try: t = run_wasm(lines, {"cmp": [CMP], "create": ptr, "run": [6 if k == fail else 0 for k in range(len(pos))]}, {W["offset_tag"]: 10000, W["signal_start_tag"]: MYSTART * s}, {}, left)
                                except Stop as e: bad.append(str(e)); continue
                                exp = []
                                for k, p in enumerate(pos):
                                    exp += [("create", "Tpl", (MYSTART + SO + k * SJ) * s), ("store", 10000 + sub_in + (CMP + p) * 4, ptr[k])]
                                    if not inputs: exp.append(("run", "Tpl", ptr[k]))
                                    if k == fail: exp += [("message", 3, 7), ("$printErrorMessage",), ("return", 6)]; break
                                ev = [x for x in t if not isinstance(x, str)]
                                if ev != exp: bad.append("it does %s, not %s" % (ev, exp))
                                if left: bad.append("%d values are left on the stack" % len(left))
                                if [x for x in t if isinstance(x, str)] != ["cmp"]: bad.append("it evaluates %s" % [x for x in t if isinstance(x, str)])
                        r.check("create", "wasm:" + key, not bad, r.where(f), "; ".join(sorted(set(bad)))[:300])
                    f, outs = produced(F, r, "CreateCmpBucket", bk, {"cmp"}, "c", P["c"]); bad = []
                    for lines, res in outs:
                        h = Host(0, False); e = h.env; subs, pars, made = Put(), Put(), []; e.update(mySubcomponents=subs, mySubcomponentsParallel=pars, true=True, false=False, myId=5)
                        def name(d, l, i):
                            if d != [N] or l != 1: raise Stop("the dimensions of the array are %s" % (d,))
                            return "[%d]" % i
                        e["ctx"].generate_position_array = name
                        for q in (False, True): e["Tpl_create" + ("_parallel" if q else "")] = lambda so, co, x, nm, me, q=q: made.append((q, so, co, nm, me))
                        try: t = run_c(lines, {}, h)
                        except Stop as x: bad.append(str(x)); continue
                        exp = [(f, MYSTART + SO + k * SJ, CO + 1 + k * CJ, "c" if N == 1 else "c[%d]" % p, 5) for k, (p, f) in enumerate(zip(pos, flags))]
                        if made != exp: bad.append("it creates %s, not %s" % (made, exp))
                        if subs.d != {CMP + p: CO + 1 + k * CJ for k, p in enumerate(pos)}: bad.append("the components are kept as %s" % subs.d)
                        want = {CMP + p: f for p, f in zip(pos, flags)}
                        if (uni is None or mixed) and {k: bool(v) for k, v in pars.d.items()} != want: bad.append("their parallelism is kept as %s" % pars.d)
                        if any(bool(v) != want.get(k) for k, v in pars.d.items()): bad.append("the parallelism of another component is written")
                        if children("c", t) != ["cmp"]: bad.append("it evaluates %s" % children("c", t))
                    r.check("create", "c:" + key, not bad, r.where(f), "; ".join(sorted(set(bad)))[:300])
    r.floor("create", n, 20, "creations")


def places(F, **over):
    """(name, rule, address type, expected element, children)"""
    lr, at, ac = adt_id(F, "LocationRule"), adt_id(F, "AddressType"), adt_id(F, "AccessType"); info = adt_id(F, "location_rule::IndexedInfo")
    here = ADT(lr, "Indexed", (("location", PARAM("loc")), ("template_header", NONE)))
    V, Sg = ADT(at, "Variable", ()), ADT(at, "Signal", ())
    vs = next(v for v in F.adts[at]["variants"] if v[0] == "SubcmpSignal")
    def sub(**k): return build(F, "AddressType", "SubcmpSignal", "a", cmp_address=PARAM("cmp"), is_output=FALSE, is_anonymous=FALSE, cmp_name=STR("c"), **{"uniform_parallel_value": SOME(FALSE), **over, **k})
    S = sub()
    yield "variable", here, V, ("var", 8), ["loc"]
    yield "signal", here, Sg, ("signal", MYSTART + 8), ["loc"]
    yield "subcomponent", here, S, ("signal", SUBSTART + 8), ["cmp", "loc"]
    def mapped(code, *acc):
        out, d, off, ch = [], SIGNALS[code], SIGNALS[code].offset, ["cmp"]
        for a in acc:
            if isinstance(a, int): out.append(ADT(ac, "Qualified", (("0", INT(a)),))); d = BUSES[d.bus][a]; off += d.offset
            else:
                vs = [VALS[x] for x in a]; n = 0; ch += a
                for x, l in zip(vs, d.dims): n = n * l + x
                for l in d.dims[len(a):]: n *= l
                off += n * d.size
                out.append(ADT(ac, "Indexed", (("0", ADT(info, "IndexedInfo", (("indexes", arr(*[PARAM(x) for x in a])), ("symbol_dim", INT(len(d.dims)))))),)))
        return ADT(lr, "Mapped", (("signal_code", INT(code)), ("indexes", arr(*out)))), S, ("signal", SUBSTART + off), ch
    for nm, c, acc in (("scalar", 0, ()), ("array", 1, (["i0"],)), ("three dimensions", 3, (["i0", "i1", "i2"],)), ("a row", 3, (["i0", "i1"],)), ("a plane", 3, (["i1"],)), ("field", 5, (0,)), ("array field", 5, (2, ["j0", "j1"])),
                       ("row of a field", 5, (2, ["j1"])), ("field of a field", 5, (2, ["j0", "j1"], 1)), ("element of a field of a field", 5, (2, ["j0", "j1"], 3, ["k0"])), ("bus of an array", 6, (["i1", "i0"],)), ("field of a bus of an array", 6, (["i1", "i0"], 2, ["j0", "j1"])), ("row of buses", 6, (["i1"],))):
        rule, a, want, ch = mapped(c, *acc); yield "mapped " + nm, rule, a, want, ch


def loads(F, r):
    r.rule("load", "a read denotes the same element in both back ends: the variable, signal or signal of a subcomponent its location stands for")
    P = prods(F, r); g = method_any(F, "WASMProducer", "get_size_32_bit"); s = (value(F, r, g, P["wasm"]) + 2) * 4
    W = {k: v.a[0] for k, v in P["wasm"].a[2] if v.op == "str"}; n = 0
    sig0, sub_in = (value(F, r, method_any(F, "WASMProducer", k), P["wasm"]) for k in ("get_signal_start_address_in_component", "get_sub_component_start_in_component"))
    OFF, ram = ram_of(s, sig0, CMP, sub_in, MYSTART); names = {"loc", "cmp", *VALS}
    for nm, rule, at, want, ch in places(F):
        ctx = build(F, "InstrContext", None, "x", size=ADT(adt_id(F, "SizeOption"), "Single", (("0", INT(1)),)))
        bk = build(F, "LoadBucket", None, "bk", line=INT(7), message_id=INT(3), address_type=at, src=rule, context=ctx); n += 1
        f, outs = produced(F, r, "LoadBucket", bk, names, "wasm", P["wasm"]); bad = []
        for lines, res in outs:
            fin = []
            try: t = run_wasm(lines, {**{k: [v] for k, v in VALS.items()}, "cmp": [CMP]}, {W["lvar_tag"]: LVAR * s, W["signal_start_tag"]: MYSTART * s, W["offset_tag"]: OFF}, ram, fin)
            except Stop as e: bad.append(str(e)); continue
            w = (LVAR + want[1] if want[0] == "var" else want[1]) * s
            if fin != [w]: bad.append("it leaves %s, the element is at %s" % (fin, w))
            if sorted(x for x in t if isinstance(x, str)) != sorted(ch): bad.append("it evaluates %s" % t)
        r.check("load", "wasm:" + nm, not bad, r.where(f), "; ".join(bad)[:300])
        f, outs = produced(F, r, "LoadBucket", bk, names, "c", P["c"]); bad = []
        for lines, res in outs:
            try: got = c_index(res)
            except Stop as e: bad.append(str(e)); continue
            if got != want: bad.append("it denotes %s, the element is %s" % (got, want))
            t = children("c", run_c(lines, {}))
            if sorted(t) != sorted(ch): bad.append("it evaluates %s" % t)
        r.check("load", "c:" + nm, not bad, r.where(f), "; ".join(bad)[:300])
    r.floor("load", n, 10, "locations")
