"""C17: calls, blocks, loops and conditionals restore the caller's context; scoping of names in the executor, the static passes and the
translation to the intermediate representation."""
from ..exec_model import *
from .. import maps
from .c04 import oracle, failed_steps, call_args
from .c05 import obj, after, KW

R_ = r"RawEnvironment::<T, CC, SC, VC, BC>::"


def run(F, r):
    r.do(F, environments, calls, function_body, definition_bodies, blocks, sequences, passes, vec_scopes, typed_calls, inference, ir, ir_memory)


# ------------------------------------------------------------------ environments: representation independent, by traces of operations
def trace(F, ops):
    """abstract execution of a sequence of operations on a new environment; last value read per path"""
    st = St(); a = mk("ref", ("T", PARAM("env")), ())
    E0, s0 = None, None
    ps, E = explore(F, F.find(R_.replace("\\", "").rstrip("$") + "new") if False else find(F, "new"), [], intr=maps.intrinsics(), **KW)
    if len(ps) != 1: raise Anchor("environment constructor")
    v = ps[0].v
    states = [(ps[0].st, v)]
    st = ps[0].st; st.mem[("T", PARAM("env"))] = v
    cur = [(st, None)]
    for op in ops:
        nxt = []
        for s, _ in cur:
            f = find(F, op[0])
            E = Ev(F, intrinsics={**maps.intrinsics(), **iters.intrinsics()}, **KW)
            for s2, val in E.call_fn(f, [a] + [x for x in op[1:]], s):
                if val.op == "ref": val = E.deref(s2, val)
                if op[0].startswith("get_mut"):
                    w = getf(downcast(val, val.a[1]), "0") if val.op == "adt" and val.a[1] in ("Some", "Ok") else None
                    if w is not None:
                        if w.op != "ref": raise Anchor("mutable access of an environment")
                        E.store_through(s2, w, PARAM("written"))
                nxt.append((s2, E.deref(s2, val) if val.op == "ref" else val))
        cur = nxt
    return [x for _, x in cur]


def find(F, name):
    fs = [f for k, f in F.fns.items() if k.endswith("RawEnvironment::<T, CC, SC, VC, BC>::" + name)]
    if len(fs) != 1: raise Anchor("RawEnvironment::" + name)
    return fs[0]


def unref(v):
    if v.op == "adt" and v.a[1] in ("Some", "Ok"): return getf(downcast(v, v.a[1]), "0")
    return None if v.op == "adt" else v


def environments(F, r):
    r.rule("environment", "a name is looked up from the innermost open block outwards, declared in the innermost one, and forgotten with it; a write reaches the declaration that is read")
    X, Y = STR("x"), STR("y"); v1, v2 = PARAM("v1"), PARAM("v2")
    add = lambda n, v: ("add_variable", n, v)
    op, cl = ("add_variable_block",), ("remove_variable_block",)
    get = ("get_variable", X)
    cases = [("undeclared", [], None), ("declared", [add(X, v1)], v1), ("outer visible inside", [add(X, v1), op], v1), ("outer visible two inside", [add(X, v1), op, op], v1),
             ("inner shadows", [add(X, v1), op, add(X, v2)], v2), ("inner shadows deeper", [add(X, v1), op, add(X, v2), op], v2), ("shadowing ends", [add(X, v1), op, add(X, v2), cl], v1),
             ("inner forgotten", [op, add(X, v2), cl], None), ("inner forgotten among others", [add(Y, v1), op, add(X, v2), cl, op], None),
             ("outer kept", [add(X, v1), op, add(Y, v2), cl], v1), ("write reaches outer", [add(X, v1), op, ("get_mut_variable", X), cl], PARAM("written")),
             ("write stays inside", [add(X, v1), op, add(X, v2), ("get_mut_variable", X), cl], v1), ("write seen inside", [add(X, v1), op, add(X, v2), ("get_mut_variable", X)], PARAM("written")),
             ("other name untouched by write", [add(X, v1), add(Y, v2), ("get_mut_variable", Y)], v1), ("redeclared in the same block", [add(X, v1), add(X, v2)], v2),
             ("sibling blocks", [op, add(X, v1), cl, op, add(Y, v2)], None)]
    f = find(F, "get_variable"); r.fn(f)
    for what, ops, want in cases:
        for g in ("get_variable", "get_variable_res", "has_variable", "get_mut_variable", "get_mut_variable_mut"):
            got = trace(F, ops + [(g, X)]) if g[:7] != "get_mut" else trace(F, ops + [(g, X)] if want is None else ops + [(g, X), ("get_variable", X)])
            r.paths(len(got))
            for x in got:
                if g == "has_variable": ok = x is BOOL(want is not None)
                elif g.startswith("get_mut") and want is not None: ok = unref(x) is PARAM("written")
                else: ok = unref(x) is want
                r.check("environment", "%s %s" % (what, g), ok, r.where(find(F, g)), "%s: after %s, %s of x gives %s" % (what, [o[0] + (":" + o[1].a[0] if len(o) > 1 else "") for o in ops], g, show(x)[:80]))
    for g, kind in [("component", "component"), ("input", "signal"), ("output", "signal"), ("intermediate", "signal"), ("input_bus", "bus"), ("output_bus", "bus"), ("intermediate_bus", "bus")]:
        for nm, want in ((X, v1), (Y, None)):
            for q in ("get_" + g, "get_" + kind, "get_mut_" + kind):
                for x in trace(F, [("add_" + g, X, v1), (q, nm)]):
                    y = unref(x)
                    if q.startswith("get_mut") and want is not None: ok = y is not None
                    else: ok = y is want
                    r.check("environment", "%s by %s %s" % (g, q, nm.a[0]), ok, r.where(find(F, q)), "%s of %s after declaring %s x gives %s" % (q, nm.a[0], g, show(x)[:80]))
            for x in trace(F, [("add_" + g, X, v1), ("has_" + kind, nm)]):
                r.check("environment", "%s has %s" % (g, nm.a[0]), x is BOOL(want is not None), r.where(find(F, "has_" + kind)), "has_%s wrong after declaring %s" % (kind, g))


# ------------------------------------------------------------------ calls
FIELDS = ("environment", "current_file", "block_type", "anonymous_components", "call_trace", "conditions_state", "unknown_counter")


def scramble(E, st, ref):
    """what the callee may do to the runtime: everything in its own context, then return"""
    pass


def runtime(F, st, block="Unknown", **over):
    root = PARAM("rtobj")
    d = dict(block_type=unit_variant(F, "BlockType", block), call_trace=mk("array", STR("main")), conditions_state=mk("array", mk("tuple", INT(3), TRUE)))
    d.update(over)
    st.mem[("T", root)] = build(F, "RuntimeInformation", None, "rt", **d)
    return mk("ref", ("T", root), ())


def callee(outcomes):
    """oracle that records the runtime and then changes its environment and anonymous components as a body does"""
    def h(E, st, name, args, fn, line):
        vals = tuple(E.deref(st, a) for a in args)
        ref = next((a for a in args if a.op == "ref" and E.deref(st, a).op in ("adt", "with") and (E.deref(st, a).a[0] if E.deref(st, a).op == "adt" else "x").endswith("RuntimeInformation")), None)
        if ref is None: ref = next(a for a in args if a.op == "ref" and a.a[0] == ("T", PARAM("rtobj")))
        out = []
        for o in outcomes:
            s = st.fork(); E.event(s, name, vals, line, fn)
            root, path = maps.loc(E, s, ref)
            v = E.deref(s, ref)
            for k in ("environment", "anonymous_components"):
                E.write_loc(s, root, path + (("f", k),), mk("touched", getf(v, k)))
            if o.a[1] == "Err": _mark(s, name)
            out.append((s, o))
        return out
    return h


def _mark(s, name):
    g = s.mem.get(("G", "failed"), mk("array")); s.mem[("G", "failed")] = mk("array", *(g.a + (PARAM(name),)))


def rt_arg(e): return next((x for x in e[1] if x.op in ("adt", "with") and contains(x, lambda y: y.op == "adt" and isinstance(y.a[0], str) and y.a[0].endswith("RuntimeInformation"))), None)


def refvals(E, st, name, args, fn, line): return [(st, mk("array", mk("cell", E.deref(st, args[0]), INT(0))))]


def calls(F, r):
    r.rule("call", "the body of a callee runs in the environment of its parameters, a known context, an empty anonymous-component table, its own file and a call trace extended by its name; when it returns, all of them are the caller's again")
    ID = STR("callee")
    is_ = {"function": "contains_function", "template": "contains_template", "bus": "contains_bus"}
    for kind, fn, inner in (("function", "execute::execute_call", "execute_function_call"), ("template", "execute::execute_template_call_complete", "execute_template_call"), ("bus", "execute::execute_bus_call_complete", "execute_bus_call")):
        f = F.find(fn); r.fn(f)
        for block in ("Known", "Unknown"):
            st0 = St(); rt = runtime(F, st0, block)
            before = st0.mem[("T", PARAM("rtobj"))]
            I = {r"ProgramArchive::%s$" % m: pure(lambda p, i, k=k: BOOL(k == kind)) for k, m in is_.items()}
            I.update({r"execute::prepare_environment_for_call$": pure(lambda i, a, p: mk("callee_env", i, a)), r"execute::execute_expression$": fold_expr, r"get_reference_values$": refvals,
                      r"is_number$": pure(lambda x: TRUE), r"ProgramArchive::get_(function|template|bus)_data$": pure(lambda p, i: mk("data", i)), r"Data::get_file_id$": pure(lambda d: mk("file_of", d)),
                      r"execute::%s$" % inner: callee(([OK(mk("tuple", PARAM("res"), b)) for b in (TRUE, FALSE)] if kind == "function" else [OK(PARAM("res"))]) + [UNITERR]), **maps.intrinsics()})
            A = call_args(F, f, {re.compile(r"\bString$"): ID, "Vec<program_structure::abstract_syntax_tree::ast::Expression": mk("array", PARAM("e0"), PARAM("e1")), "RuntimeInformation": rt, "ast::Expression": mk("array", PARAM("e0"), PARAM("e1")),
                                 "MemorySlice": mk("array", PARAM("s0"), PARAM("s1"))})
            ps, E = explore(F, f, A, stop=STOP, intr={**TREAT, **UNWRAP, **I}, st=st0)
            r.paths(len(ps)); seen = 0
            for p in ps:
                for e in p.events(r"execute::%s$" % inner):
                    seen += 1
                    v = rt_arg(e)
                    env = getf(v, "environment")
                    r.check("call", "%s environment" % kind, env.op == "callee_env" and env.a[0] is ID, r.where(f), "the body of a %s runs in environment %s" % (kind, show(env)[:100]))
                    if env.op == "callee_env":
                        want = [mk("slice", mk("fold", PARAM("e0"))), mk("slice", mk("fold", PARAM("e1")))] if kind != "template" else [PARAM("s0"), PARAM("s1")]
                        r.check("call", "%s arguments" % kind, env.a[1].op == "array" and list(env.a[1].a) == want, r.where(f), "a %s is called with arguments %s" % (kind, show(env.a[1])[:120]))
                    b = getf(v, "block_type")
                    r.check("call", "%s context" % kind, b.op == "adt" and b.a[1] == "Known", r.where(f), "the body of a %s called in a %s context runs in context %s" % (kind, block, show(b)))
                    an = getf(v, "anonymous_components")
                    r.check("call", "%s anonymous" % kind, an.op == "array" and not an.a, r.where(f), "the body of a %s starts with anonymous components %s" % (kind, show(an)[:80]))
                    fi = getf(v, "current_file")
                    r.check("call", "%s file" % kind, fi is mk("file_of", mk("data", ID)), r.where(f), "the body of a %s runs with current file %s" % (kind, show(fi)[:80]))
                    tr = getf(v, "call_trace")
                    r.check("call", "%s trace" % kind, tr is mk("array", STR("main"), ID), r.where(f), "the body of a %s runs with call trace %s" % (kind, show(tr)[:80]))
                if p.variant() == "Ok" and p.events(r"execute::%s$" % inner):
                    v = after(p, "rtobj")
                    for k in FIELDS:
                        r.check("call", "%s restores %s" % (kind, k), getf(v, k) is getf(before, k), r.where(f), "after a %s call, %s is %s, it was %s" % (kind, k, show(getf(v, k))[:80], show(getf(before, k))[:60]))
                    r.check("call", "%s result" % kind, contains(p.v, PARAM("res")), r.where(f), "the result of a %s call is %s" % (kind, show(p.v)[:80]))
                if failed_steps(p): r.check("call", "%s failure" % kind, p.variant() == "Err", r.where(f), "a failing %s call succeeds" % kind)
            # a template that needs no call here is covered by its own entry; a function must be called
            if kind != "template" or block == "Known": r.check("call", "%s executed %s" % (kind, block), seen > 0, r.where(f), "the body of a %s is never executed" % kind)


def function_body(F, r):
    r.rule("function", "a function body runs in a known context without conditions whatever the caller's are, and the caller's are restored; its result is what the body returned")
    f = F.find("execute::execute_function_call"); r.fn(f)
    for block in ("Known", "Unknown"):
        st0 = St(); rt = runtime(F, st0, block); before = st0.mem[("T", PARAM("rtobj"))]
        I = {r"execute::execute_sequence_of_statements$": callee([OK(mk("tuple", SOME(PARAM("ret")), b)) for b in (TRUE, FALSE)] + [UNITERR]), r"ProgramArchive::get_function_data$": pure(lambda p, i: mk("data", i)),
             r"FunctionData::get_body_as_vec$": pure(lambda d: mk("body", d)), r"FoldedValue::valid_": pure(lambda *a: TRUE), r"ProgramArchive::contains_function$": pure(lambda p, i: TRUE)}
        ps, E = explore(F, f, call_args(F, f, {re.compile(r"\bstr$"): STR("fun"), "RuntimeInformation": rt}), stop=STOP, intr={**TREAT, **I}, st=st0)
        r.paths(len(ps))
        for p in ps:
            es = p.events("execute_sequence_of_statements$")
            r.check("function", "body executed once", len(es) == 1 and es[0][1][0] is mk("body", mk("data", STR("fun"))), r.where(f), "a function call executes %s" % [show(e[1][0])[:60] for e in es])
            for e in es:
                v = rt_arg(e)
                b = getf(v, "block_type"); cs = getf(v, "conditions_state")
                r.check("function", "known context", b.op == "adt" and b.a[1] == "Known", r.where(f), "a function body runs in context %s" % show(b))
                r.check("function", "no conditions", cs.op == "array" and not cs.a, r.where(f), "a function body runs under the caller's conditions %s" % show(cs)[:80])
                r.check("function", "complete", e[1][-1] is TRUE, r.where(f), "a function body is executed as a part of another one")
            if p.variant() == "Ok":
                v = after(p, "rtobj")
                for k in ("block_type", "conditions_state", "call_trace", "current_file"):
                    r.check("function", "restores " + k, getf(v, k) is getf(before, k), r.where(f), "after a function body, %s is %s" % (k, show(getf(v, k))[:80]))
                pay = getf(downcast(p.v, "Ok"), "0")
                r.check("function", "result", getf(pay, "0") is PARAM("ret"), r.where(f), "a function call yields %s" % show(pay)[:80])
            if failed_steps(p): r.check("function", "failure", p.variant() == "Err", r.where(f), "a function whose body fails succeeds")


def definition_bodies(F, r):
    r.rule("definition", "the body of a new template or bus instance is executed with an analysis of its own, which is stored with the instance, and the caller's analysis is restored; an instance that exists is not executed again")
    for kind, fn, body, ident, addn in (("template", "execute::execute_template_call", "execute_sequence_of_statements", "identify_node", "add_node_to_scheme"), ("bus", "execute::execute_bus_call", "execute_sequence_of_bus_statements", "identify_bus_node", "add_bus_node_to_scheme")):
        f = F.find(fn); r.fn(f)
        for known in (True, False):
            st0 = St(); rt = runtime(F, st0, "Known", analysis=PARAM("caller_analysis")); before = st0.mem[("T", PARAM("rtobj"))]
            def run_body(E, st, name, args, fn_, line):
                vals = tuple(E.deref(st, a) for a in args)
                ref = next(a for a in args if a.op == "ref" and maps.loc(E, st, a)[0] == ("T", PARAM("rtobj")))
                out = []
                for o in ([OK(mk("tuple", NONE, TRUE)), UNITERR] if kind == "template" else [OK(UNIT), UNITERR]):
                    s = st.fork(); E.event(s, name, vals, line, fn_)
                    root, path = maps.loc(E, s, ref); v = E.deref(s, ref)
                    E.write_loc(s, root, path + (("f", "analysis"),), mk("filled", getf(v, "analysis")))
                    if o.a[1] == "Err": _mark(s, name)
                    out.append((s, o))
                return out
            I = {**maps.intrinsics(), r"execute::%s$" % body: run_body, r"ExecutedProgram::%s$" % ident: pure(lambda *a: SOME(PARAM("old")) if known else NONE, event=True), r"ExecutedProgram::%s$" % addn: pure(lambda *a: PARAM("new"), event=True),
                 r"Analysis::new$": pure(lambda n: PARAM("own_analysis")), r"ProgramArchive::get_(template|bus)_data$": pure(lambda p, i: mk("data", i)), r"Data::get_name_of_params$": pure(lambda d: mk("array", STR("p"))),
                 r"Data::get_body_as_vec$": pure(lambda d: mk("body", d)), r"environment_check_all_components_assigned$": pure(lambda e: OK(UNIT)), r"Executed(Template|Bus)::new$": pure(lambda *a: build(F, "ExecutedTemplate", None, "node", outputs=mk("array")) if kind == "template" else PARAM("node"))}
            A = call_args(F, f, {re.compile(r"\bstr$"): STR("def"), "RuntimeInformation": rt, "HashMap": mk("array"), "MemorySlice": mk("array", PARAM("s0"))})
            ps, E = explore(F, f, A, stop=STOP, intr={**TREAT, **I}, st=st0)
            r.paths(len(ps))
            for p in ps:
                es, ad = p.events("%s$" % body), p.events("%s$" % addn)
                if known:
                    r.check("definition", "%s reused" % kind, not es and not ad and p.variant() == "Ok", r.where(f), "an existing instance of a %s is executed again" % kind)
                    r.check("definition", "%s reused pointer" % kind, contains(p.v, PARAM("old")), r.where(f), "the instance used is %s" % show(p.v)[:80])
                else:
                    r.check("definition", "%s body" % kind, len(es) == 1 and es[0][1][0] is mk("body", mk("data", STR("def"))), r.where(f), "a new instance of a %s executes %s" % (kind, [show(e[1][0])[:60] for e in es]))
                    for e in es: r.check("definition", "%s own analysis" % kind, getf(rt_arg(e), "analysis") is PARAM("own_analysis"), r.where(f), "the body of a %s runs with analysis %s" % (kind, show(getf(rt_arg(e), "analysis"))[:80]))
                    if p.variant() == "Ok":
                        r.check("definition", "%s stored once" % kind, len(ad) == 1, r.where(f), "a new instance of a %s is stored %d times" % (kind, len(ad)))
                        for e in ad: r.check("definition", "%s analysis stored" % kind, e[1][-1] is mk("filled", PARAM("own_analysis")), r.where(f), "the instance is stored with analysis %s" % show(e[1][-1])[:80])
                        r.check("definition", "%s pointer" % kind, contains(p.v, PARAM("new")), r.where(f), "the instance used is %s" % show(p.v)[:80])
                if p.variant() == "Ok": r.check("definition", "%s analysis restored" % kind, getf(after(p, "rtobj"), "analysis") is PARAM("caller_analysis"), r.where(f), "after instantiating a %s the analysis is %s" % (kind, show(getf(after(p, "rtobj"), "analysis"))[:80]))


# ------------------------------------------------------------------ blocks in the executor
def push_env(E, st, name, args, fn, line):
    E.store_through(st, args[0], mk("inside", E.deref(st, args[0]))); return [(st, UNIT)]


def pop_env(E, st, name, args, fn, line):
    v = E.deref(st, args[0])
    E.store_through(st, args[0], v.a[0] if v.op == "inside" else mk("popped", v)); return [(st, UNIT)]


SCOPE = {R_ + "add_variable_block$": push_env, R_ + "remove_variable_block$": pop_env}


def blocks(F, r):
    r.rule("block", "the statements of a block are executed inside one more variable block, which is closed when they end, by reaching the end or by a return; declarations of an initialisation are made in the current block, loops and conditionals open none themselves")
    f = F.find("execute::execute_statement"); r.fn(f)
    none = OK(mk("tuple", NONE, PARAM("simp"))); ret = OK(mk("tuple", SOME(PARAM("ret")), PARAM("simp")))
    for v, depth in (("Block", 1), ("InitializationBlock", 0), ("While", 0), ("IfThenElse", 0)):
        st0 = St(); rt = runtime(F, st0, "Known", environment=PARAM("env"))
        co = lambda k: OK(mk("tuple", NONE, PARAM("simp"), k))
        cr = OK(mk("tuple", SOME(PARAM("ret")), PARAM("simp"), SOME(TRUE)))
        I = {**TREAT, **ASSIGN, **UNWRAP, **SCOPE, r"execute::execute_conditional_statement$": oracle([co(NONE), co(SOME(TRUE)), co(SOME(FALSE)), cr, UNITERR], most=2), r"execute::execute_sequence_of_statements$": oracle([none, ret, UNITERR])}
        ps, E = explore(F, f, [build(F, "Statement", v), PARAM("pa"), rt, SOME(PARAM("node")), PARAM("flags")], stop=[x for x in STOP if x != r"ExecutionEnvironment::"], intr=I, st=st0, loop_visits=6)
        r.paths(len(ps)); seen = 0
        for p in ps:
            for e in p.events(r"execute_(sequence_of_statements|conditional_statement)$"):
                seen += 1
                env = getf(rt_arg(e), "environment")
                r.check("block", "%s inside" % v, env is (mk("inside", PARAM("env")) if depth else PARAM("env")), r.where(f), "the body of %s runs in environment %s" % (v, show(env)[:80]))
                if "sequence" in e[0]: r.check("block", "%s is not a whole body" % v, e[1][-1] is FALSE, r.where(f), "the statements of %s are executed as a whole template" % v)
            if p.variant() == "Ok":
                env = getf(after(p, "rtobj"), "environment")
                r.check("block", "%s closed" % v, env is PARAM("env"), r.where(f), "after %s the environment is %s" % (v, show(env)[:80]))
                rets = [e for e in p.events(r"execute_(sequence_of_statements|conditional_statement)$")]
            if failed_steps(p): r.check("block", "%s failure" % v, p.variant() == "Err", r.where(f), "a failing body of %s is ignored" % v)
        r.check("block", "%s executed" % v, seen > 0, r.where(f), "the body of %s is never executed" % v)
    # the conditional itself
    c = F.find("execute::execute_conditional_statement"); r.fn(c)
    for known in (True, False, None):
        st0 = St(); rt = runtime(F, st0, "Known", environment=PARAM("env")); before = st0.mem[("T", PARAM("rtobj"))]
        I = {**TREAT, **ASSIGN, **UNWRAP, **SCOPE, **slices_of(), r"execute::execute_expression$": fold_expr, r"execute::execute_statement$": oracle([none, ret, UNITERR]), r"get_boolean_equivalence$": pure(lambda a, p: NONE if known is None else SOME(BOOL(known)))}
        ps, E = explore(F, c, [PARAM("cond"), PARAM("then"), SOME(PARAM("else")), PARAM("pa"), rt, PARAM("node"), PARAM("flags")], stop=[x for x in STOP if x != r"ExecutionEnvironment::"], intr=I, st=st0)
        r.paths(len(ps))
        for p in ps:
            if p.variant() == "Ok":
                v = after(p, "rtobj")
                for k in ("environment", "current_file", "anonymous_components", "call_trace", "block_type", "conditions_state"):
                    r.check("block", "conditional keeps %s (%s)" % (k, known), getf(v, k) is getf(before, k), r.where(c), "after a conditional, %s is %s" % (k, show(getf(v, k))[:80]))


def sequences(F, r):
    r.rule("sequence", "statements are executed in order until one returns; the delayed declarations of anonymous components are made at the end of a whole body only")
    f = F.find("execute::execute_sequence_of_statements"); r.fn(f)
    none = OK(mk("tuple", NONE, TRUE)); ret = OK(mk("tuple", SOME(PARAM("ret")), TRUE))
    for whole in (TRUE, FALSE):
        st0 = St(); rt = runtime(F, st0, "Known", environment=PARAM("env"))
        I = {**TREAT, r"execute::execute_statement$": oracle([none, ret, UNITERR]), r"execute::execute_delayed_declarations$": oracle([OK(UNIT), UNITERR])}
        S = [PARAM("s0"), PARAM("s1"), PARAM("s2")]
        ps, E = explore(F, f, [mk("array", *S), PARAM("pa"), rt, PARAM("node"), PARAM("flags"), whole], stop=STOP, intr=I, st=st0, loop_visits=6)
        r.paths(len(ps))
        for p in ps:
            es = p.events("execute_statement$"); ran = [e[1][0] for e in es]
            d = p.events("execute_delayed_declarations$")
            r.check("sequence", "order", ran == S[:len(ran)] and ran, r.where(f), "statements are executed in the order %s" % [show(x) for x in ran])
            if p.variant() == "Ok":
                val = getf(getf(downcast(p.v, "Ok"), "0"), "0")
                returned = val.op == "adt" and val.a[1] == "Some"
                if not returned: r.check("sequence", "complete", len(ran) == 3, r.where(f), "a sequence without return executes %d of 3 statements" % len(ran))
                if not returned: r.check("sequence", "delayed whole=%s" % show(whole), len(d) == (1 if whole is TRUE else 0), r.where(f), "delayed declarations are made %d times at the end of a %s" % (len(d), "body" if whole is TRUE else "block"))
                if returned: r.check("sequence", "return value", val is SOME(PARAM("ret")), r.where(f), "a sequence returns %s" % show(val))
            if failed_steps(p): r.check("sequence", "failure", p.variant() == "Err", r.where(f), "a failing statement is ignored")
        # a return ends the sequence: no path executes a statement after one that returned
        for p in ps:
            if p.variant() != "Ok": continue
            val = getf(getf(downcast(p.v, "Ok"), "0"), "0")
            rets = sum(1 for e in p.events("execute_statement$"))
    n = {len(p.events("execute_statement$")) for p in ps if p.variant() == "Ok" and getf(getf(downcast(p.v, "Ok"), "0"), "0").a[1] == "Some"}
    r.check("sequence", "returns early", {1, 2, 3} == n, r.where(f), "sequences that return execute %s statements" % sorted(n))
    g = F.find("execute::execute_sequence_of_bus_statements"); r.fn(g)
    st0 = St(); rt = runtime(F, st0, "Known")
    ps, E = explore(F, g, [mk("array", PARAM("s0"), PARAM("s1")), PARAM("pa"), rt, PARAM("node"), PARAM("flags")], stop=STOP, intr={r"execute::execute_bus_statement$": oracle([OK(UNIT), UNITERR])}, st=st0, loop_visits=6)
    for p in ps:
        ran = [e[1][0] for e in p.events("execute_bus_statement$")]
        r.check("sequence", "bus order", ran == [PARAM("s0"), PARAM("s1")][:len(ran)] and (p.variant() != "Ok" or len(ran) == 2), r.where(g), "bus statements are executed as %s" % [show(x) for x in ran])
        if failed_steps(p): r.check("sequence", "bus failure", p.variant() == "Err", r.where(g), "a failing bus statement is ignored")


# ------------------------------------------------------------------ static passes and hir
def g_push(E, st, name, args, fn, line):
    st.mem[("G", "scope")] = INT(st.mem.get(("G", "scope"), INT(0)).a[0] + 1); return [(st, UNIT)]


def g_pop(E, st, name, args, fn, line):
    st.mem[("G", "scope")] = INT(st.mem.get(("G", "scope"), INT(0)).a[0] - 1); return [(st, UNIT)]


PASSES = ["type_inference::infer_type_stmt", "merger::produce_vcf_stmt", "merger::link_stmt", "translate::translate_statement", "unknown_known_analysis::analyze", "type_check::type_statement",
          "constants_handler::statement_constant_inference", "constants_handler::statement_invariant_check", "constants_handler::expand_statement"]


def stmt(F, v, s0, s1):
    vec = mk("array", s0, s1)
    if v == "Block": return build(F, "Statement", v, None, stmts=vec)
    if v == "InitializationBlock": return build(F, "Statement", v, None, initializations=vec)
    if v == "While": return build(F, "Statement", v, None, stmt=s0)
    return build(F, "Statement", v, None, if_case=s0, else_case=SOME(s1))


def passes(F, r):
    r.rule("scope", "every pass visits the statements of a block inside one more variable block and closes it; those of an initialisation, loop or conditional in the current one")
    for name in PASSES:
        try: f = F.find(name)
        except Anchor as e:
            r.notes.append("pass %s not found" % name); continue
        r.fn(f)
        for v in ("Block", "InitializationBlock", "While", "IfThenElse"):
            if name.endswith("translate_statement") and v == "InitializationBlock": continue
            kids = [build(F, "Statement", "Return", "k0"), build(F, "Statement", "Return", "k1")]
            if v == "InitializationBlock": kids = [build(F, "Statement", "Declaration", "k0"), build(F, "Statement", "Substitution", "k1")]
            I = {R_ + "add_variable_block$": g_push, R_ + "remove_variable_block$": g_pop}
            # statements visited: any call receiving one of the nested statements
            A = call_args(F, f, {"ast::Statement": stmt(F, v, *kids)})
            own = re.escape(f.id) + "$"
            ps, E = explore(F, f, A, intr={**I, own: record(kids)}, loop_visits=6, inline=on_statements(F))
            r.paths(len(ps))
            want = 1 if v == "Block" else 0
            seen = 0
            for p in ps:
                sc = p.st.mem.get(("G", "scope"), INT(0)).a[0]
                r.check("scope", "%s %s closed" % (name, v), sc == 0, r.where(f), "%s leaves %+d variable blocks open after %s" % (name, sc, v))
                for e in p.events("^visit$"):
                    seen += 1
                    r.check("scope", "%s %s inside" % (name, v), e[1][1].a[0] == want, r.where(f), "%s visits the statements of %s inside %d variable blocks, not %d" % (name, v, e[1][1].a[0], want))
            if not seen and not (v == "InitializationBlock"): r.notes.append("%s: no visit of the statements of %s followed" % (name, v))


def on_statements(F):
    """follow only functions that work on statements (and closures)"""
    def h(fid, depth):
        g = F.fns.get(fid)
        return g is not None and ("{closure" in fid or any("ast::Statement" in g.locals[i][0] for i in range(1, g.nargs + 1)))
    return h


def record(kids):
    def h(E, st, name, args, fn, line):
        vals = [E.deref(st, x) for x in args]
        E.event(st, "visit", (next((x for x in vals if x in kids), PARAM("?")), st.mem.get(("G", "scope"), INT(0))), line, fn)
        return [(st, mk("visited", PARAM(name)))]
    return h


def vec_scopes(F, r):
    r.rule("names", "the passes that keep their own stack of names open one more block for the statements of a block and close it; a name is found in any open block and declared once per block")
    for name in ("symbol_analysis::analyze_statement", "type_given_function::look_for_return_in_statement"):
        try: f = F.find(name)
        except Anchor: r.notes.append("pass %s not found" % name); continue
        r.fn(f)
        for v in ("Block", "InitializationBlock", "While", "IfThenElse"):
            if v == "InitializationBlock" and "type_given" in name: continue
            kids = [build(F, "Statement", "Return", "k0"), build(F, "Statement", "Return", "k1")]
            st0 = St(); env = obj(st0, "scopes", mk("array", PARAM("b0")))
            A = call_args(F, f, {"ast::Statement": stmt(F, v, *kids), re.compile(r"Vec<std::collections::(hash::)?(map::|set::)?Hash(Set|Map)<"): env, "Vec<std::collections::Hash": env})
            if env not in A: raise Anchor("stack of names of %s" % name)
            def visit(E, st, nm, args, fn, line):
                vals = [E.deref(st, x) for x in args]
                k = next((x for x in vals if x in kids), PARAM("?"))
                E.event(st, "visit", (k, after_(st, "scopes")), line, fn)
                if "type_given" not in name: return [(st, UNIT)]
                s2 = st.fork(); return [(st, NONE), (s2, SOME(PARAM("ty")))]
            ps, E = explore(F, f, A, intr={re.escape(f.id) + "$": visit}, st=st0, loop_visits=6, inline=on_statements(F))
            r.paths(len(ps)); seen = 0
            for p in ps:
                b = after(p, "scopes")
                r.check("names", "%s %s closed" % (name, v), b.op == "array" and list(b.a) == [PARAM("b0")], r.where(f), "%s leaves the names %s after %s" % (name, show(b)[:80], v))
                for e in p.events("^visit$"):
                    seen += 1; d = len(e[1][1].a) if e[1][1].op == "array" else -1
                    r.check("names", "%s %s inside" % (name, v), d == (2 if v == "Block" else 1), r.where(f), "%s visits the statements of %s with %d open blocks" % (name, v, d))
            if not seen: r.notes.append("%s: no visit of the statements of %s followed" % (name, v))
    g = F.find("symbol_analysis::symbol_in_environment"); r.fn(g)
    for blocks_, want in (((("x",), ()), True), (((), ("x",)), True), (((), ()), False), ((("y",), ("z",)), False), ((("y", "x"), ("z",)), True)):
        envt = mk("array", *[mk("array", *[STR(n) for n in b]) for b in blocks_])
        ps, E = explore(F, g, [envt, STR("x")], intr=maps.intrinsics(), **KW)
        for p in ps: r.check("names", "lookup %s" % (blocks_,), p.v is BOOL(want), r.where(g), "looking x up in %s gives %s" % (blocks_, show(p.v)))
    g = F.find("symbol_analysis::add_symbol_to_block"); r.fn(g)
    for blocks_, want in (((("x",), ()), True), (((), ("x",)), False), (((), ("y",)), True)):
        st0 = St(); env = obj(st0, "scopes", mk("array", *[mk("array", *[STR(n) for n in b]) for b in blocks_]))
        ps, E = explore(F, g, [env, STR("x")], intr=maps.intrinsics(), st=st0, **KW)
        for p in ps:
            b = after(p, "scopes")
            r.check("names", "declare %s" % (blocks_,), p.v is BOOL(want), r.where(g), "declaring x in %s gives %s" % (blocks_, show(p.v)))
            r.check("names", "declared %s" % (blocks_,), b.op == "array" and len(b.a) == 2 and STR("x") in b.a[1].a and b.a[0] is mk("array", *[STR(n) for n in blocks_[0]]), r.where(g), "declaring x in %s gives %s" % (blocks_, show(b)[:80]))


def after_(st, name): return st.mem[("T", PARAM(name))]


def typed_calls(F, r):
    r.rule("typecheck", "type checking a call leaves the caller's environment and return type as they were, and the callee is checked in the environment of its parameters")
    f = F.find("type_check::type_expression"); r.fn(f)
    for v, kind in (("Call", "function"), ("Call", "template"), ("BusCall", "bus")):
        st0 = St(); root = PARAM("info")
        st0.mem[("T", root)] = build(F, "type_check::AnalysisInformation", None, "info", environment=PARAM("env"), return_type=PARAM("ret"))
        a = mk("ref", ("T", root), ())
        def body(E, st, name, args, fn, line):
            v_ = next(x for x in (E.deref(st, y) for y in args) if x.op in ("adt", "with") and contains(x, lambda y: y.op == "adt" and str(y.a[0]).endswith("AnalysisInformation")))
            E.event(st, "body", (getf(v_, "environment"),), line, fn)
            ref = next(x for x in args if x.op == "ref" and maps.loc(E, st, x)[0] == ("T", root))
            ro, pa = maps.loc(E, st, ref); E.write_loc(st, ro, pa + (("f", "environment"),), mk("touched", getf(v_, "environment")))
            if name.endswith("type_template"): return [(st, STR("t"))]
            s2 = st.fork(); return [(st, OK(PARAM("ty"))), (s2, UNITERR)]
        I = {r"type_check::(type_function|type_template|type_bus)$": body, r"type_check::prepare_environment_for_call$": oracle([OK(PARAM("callee_env")), UNITERR]), r"type_check::type_array_of_expressions$": oracle([OK(mk("array", PARAM("at0"))), UNITERR]),
             r"ProgramArchive::contains_function$": pure(lambda p, i: BOOL(kind == "function")), r"ProgramArchive::contains_template$": pure(lambda p, i: BOOL(kind == "template")), r"ProgramArchive::contains_bus$": pure(lambda p, i: BOOL(kind == "bus")),
             r"type_check::add_report_and_end$": pure(lambda *x: UNITERR), r"type_check::add_report$": pure(lambda *x: UNIT), **maps.intrinsics()}
        ps, E = explore(F, f, call_args(F, f, {"ast::Expression": build(F, "Expression", v), "AnalysisInformation": a}), stop=(r"FoldedType", r"(Template|Function|Bus)Data::", r"ProgramArchive::", r"Meta::", r"HashSet"), intr=I, st=st0)
        r.paths(len(ps)); seen = 0
        for p in ps:
            for e in p.events("^body$"):
                seen += 1
                r.check("typecheck", "%s environment" % kind, e[1][0] is PARAM("callee_env"), r.where(f), "a %s is type checked in environment %s" % (kind, show(e[1][0])[:80]))
            for k, w in (("environment", PARAM("env")), ("return_type", PARAM("ret"))):
                x = getf(p.st.mem[("T", root)], k)
                r.check("typecheck", "%s restores %s" % (kind, k), x is w, r.where(f), "after type checking a %s call, %s is %s" % (kind, k, show(x)[:80]))
        if not seen: r.notes.append("type checking of a %s call not followed" % kind)
    g = F.find("type_check::type_function"); r.fn(g)
    st0 = St(); root = PARAM("info")
    st0.mem[("T", root)] = build(F, "type_check::AnalysisInformation", None, "info", environment=PARAM("env"), return_type=PARAM("ret"))
    def seq(E, st, name, args, fn, line):
        v_ = E.deref(st, mk("ref", ("T", root), ()))
        E.event(st, "body", (getf(v_, "return_type"),), line, fn)
        return [(st, UNIT)]
    ps, E = explore(F, g, call_args(F, g, {"AnalysisInformation": mk("ref", ("T", root), ()), re.compile(r"\bstr$"): STR("fun")}), stop=(r"RegisteredCalls", r"CallRegister", r"FunctionData::", r"ProgramArchive::", r"Meta::"),
                    intr={r"type_check::treat_sequence_of_statements$": seq, r"type_check::type_statement$": seq, r"type_given_function$": oracle([SOME(PARAM("given")), NONE]), r"add_report_and_end$": pure(lambda *x: UNITERR)}, st=st0)
    r.paths(len(ps))
    for p in ps:
        for e in p.events("^body$"): r.check("typecheck", "return type inside", e[1][0] is SOME(PARAM("given")), r.where(g), "a function body is checked against return type %s" % show(e[1][0])[:60])
        x = getf(p.st.mem[("T", root)], "return_type")
        r.check("typecheck", "return type restored", x is PARAM("ret"), r.where(g), "after checking a function the expected return type is %s" % show(x)[:60])


def inference(F, r):
    r.rule("inference", "inferring the result of a call leaves the caller's variable blocks and open calls as they were, whatever is found; the arguments are inferred in the caller's context")
    f = F.find("type_inference::infer_type_call"); r.fn(f)
    st0 = St(); root = PARAM("ctx")
    st0.mem[("T", root)] = build(F, "type_inference::SearchInfo", None, "ctx", environment=PARAM("env"), open_calls=mk("array", STR("caller")))
    a = mk("ref", ("T", root), ())
    def note(outs):
        def h(E, st, name, args, fn, line):
            v = E.deref(st, a)
            out = []
            for o in outs:
                s = st.fork(); E.event(s, name, (getf(v, "environment"), getf(v, "open_calls")), line, fn); out.append((s, o))
            return out
        return h
    I = {**SCOPE, **maps.intrinsics(), R_ + "add_variable$": pure(lambda *x: UNIT), r"type_inference::infer_args$": note([NONE, SOME(mk("array", PARAM("t0")))]), r"type_inference::infer_type_expresion$": note([NONE, SOME(PARAM("t0"))]), r"type_inference::infer_type_stmt$": note([NONE, SOME(PARAM("ty"))])}
    for who, opened in (("callee", False), ("caller", True)):
        e = build(F, "Expression", "Call", None, id=STR(who), args=mk("array", PARAM("x0")))
        ps, E = explore(F, f, call_args(F, f, {"ast::Expression": e, "SearchInfo": a}), intr=I, st=st0.fork(), loop_visits=6)
        r.paths(len(ps))
        for p in ps:
            v = p.st.mem[("T", root)]
            oc = getf(v, "open_calls")
            r.check("inference", "blocks closed", getf(v, "environment") is PARAM("env"), r.where(f), "after inferring a call the environment is %s" % show(getf(v, "environment"))[:80])
            r.check("inference", "calls closed", oc is mk("array", STR("caller")), r.where(f), "after inferring a call the open calls are %s" % show(oc)[:80])
            for ev in p.events("infer_(args|type_expresion)$"):
                r.check("inference", "arguments of the caller", STR(who) not in ev[1][1].a or opened, r.where(f), "the arguments of a call are inferred as if they were part of its body")
            for ev in p.events("infer_type_stmt$"):
                r.check("inference", "body marked open", STR(who) in ev[1][1].a, r.where(f), "the body of a call is inferred without marking the call open")
            if opened: r.check("inference", "recursion ends", not p.events("infer_type_stmt$"), r.where(f), "a recursive call is followed again")


# ------------------------------------------------------------------ intermediate representation
def state(F, st, **o):
    root = PARAM("state")
    d = dict(code=mk("array", PARAM("before")), environment=PARAM("env"), variable_stack=INT(5), max_stack_depth=INT(9)); d.update(o)
    st.mem[("T", root)] = build(F, "translate::State", None, "s", **d)
    return mk("ref", ("T", root), ())


def ir(F, r):
    r.rule("ir", "translating a conditional or loop adds one instruction holding the code of the condition and of each branch, nothing of the branches ends up outside it and the code translated before stays; the variables of a block live only inside it")
    f = F.find("translate::translate_statement"); r.fn(f)
    kids = [build(F, "Statement", "Return", "k0"), build(F, "Statement", "Return", "k1")]
    def nested(E, st, name, args, fn, line):
        vals = [E.deref(st, x) for x in args]
        k = next((i for i, x in enumerate(kids) if x in vals), None)
        ref = mk("ref", ("T", PARAM("state")), ())
        v = E.deref(st, ref); c = getf(v, "code")
        if k is None or c.op != "array": raise Anchor("translation of nested statements")
        E.event(st, "visit", (kids[k], getf(v, "environment")), line, fn)
        E.write_loc(st, ref.a[0], (("f", "code"),), mk("array", *(c.a + (mk("codeof", INT(k)),))))
        E.write_loc(st, ref.a[0], (("f", "variable_stack"),), INT(getf(v, "variable_stack").a[0] + 1))
        return [(st, UNIT)]
    for v, els in (("IfThenElse", True), ("IfThenElse", False), ("While", False), ("Block", False)):
        s = stmt(F, v, *kids)
        if v == "IfThenElse" and not els: s = build(F, "Statement", v, None, if_case=kids[0], else_case=NONE, cond=PARAM("cond"))
        elif v == "IfThenElse": s = build(F, "Statement", v, None, if_case=kids[0], else_case=SOME(kids[1]), cond=PARAM("cond"))
        elif v == "While": s = build(F, "Statement", v, None, stmt=kids[0], cond=PARAM("cond"))
        st0 = St(); a = state(F, st0)
        I = {**SCOPE, re.escape(f.id) + "$": nested, r"translate::translate_expression$": pure(lambda e, *x: mk("ir", e)), r"FileLibrary::get_line$": pure(lambda *x: SOME(PARAM("line"))), r"Allocate.*::allocate$|::allocate$": pure(lambda x: mk("instr", x))}
        ps, E = explore(F, f, call_args(F, f, {"ast::Statement": s, "translate::State": a}), stop=(r"Meta::",), intr=I, st=st0, loop_visits=6)
        r.paths(len(ps))
        for p in ps:
            t = after(p, "state"); c = getf(t, "code"); what = v + (" with else" if els else "")
            ok = c.op == "array" and c.a and c.a[0] is PARAM("before")
            r.check("ir", what + " keeps the code before", ok, r.where(f), "after %s the code is %s" % (v, show(c)[:120]))
            r.check("ir", what + " environment", getf(t, "environment") is PARAM("env"), r.where(f), "after %s the environment is %s" % (v, show(getf(t, "environment"))[:80]))
            vs = getf(t, "variable_stack")
            r.check("ir", what + " variable memory", vs.op == "int" and vs.a[0] >= 5, r.where(f), "after %s the next variable is at %s, below the variables of the enclosing block (5)" % (v, show(vs)))
            if not ok: continue
            K = [mk("codeof", INT(i)) for i in (0, 1)]
            if v == "Block":
                r.check("ir", what + " code", list(c.a[1:]) == K, r.where(f), "a block is translated to %s" % show(mk("array", *c.a[1:]))[:100]); continue
            b = c.a[1] if len(c.a) == 2 else None
            if b is not None and b.op == "instr": b = b.a[0]
            if b is None or b.op != "adt": r.check("ir", what + " one instruction", False, r.where(f), "%s is translated to %s" % (v, show(c)[:120])); continue
            r.check("ir", what + " kind", b.a[0].endswith("BranchBucket" if v == "IfThenElse" else "LoopBucket"), r.where(f), "%s is translated to %s" % (v, b.a[0]))
            if v == "IfThenElse": got = [getf(b, "cond"), getf(b, "if_branch"), getf(b, "else_branch")]; want = [mk("ir", PARAM("cond")), mk("array", K[0]), mk("array", K[1]) if els else mk("array")]
            else: got = [getf(b, "continue_condition"), getf(b, "body")]; want = [mk("ir", PARAM("cond")), mk("array", K[0])]
            r.check("ir", what + " parts", got == want, r.where(f), "%s is translated to %s" % (v, [show(x)[:60] for x in got]))


def ir_memory(F, r):
    r.rule("memory", "a declared variable gets memory of its size that no live variable occupies, and the memory declared for the template covers it; it is declared in the current block")
    f = F.find("translate::translate_statement")
    for dims, size in (((), 1), ((3,), 3), ((2, 3), 6)):
        st0 = St(); a = state(F, st0)
        def decl(E, st, name, args, fn, line):
            E.event(st, "declare", tuple(E.deref(st, x) for x in args[1:]), line, fn); return [(st, UNIT)]
        I = {R_ + "add_variable$": decl, r"FileLibrary::get_line$": pure(lambda *x: SOME(PARAM("line"))), r"::allocate$": pure(lambda x: mk("instr", x)), r"get_concrete_dimensions$": pure(lambda m: mk("array", *[INT(d) for d in dims]))}
        ps, E = explore(F, f, call_args(F, f, {"ast::Statement": build(F, "Statement", "Declaration", None, name=STR("x")), "translate::State": a}), stop=(r"Meta::",), intr=I, st=st0, loop_visits=6)
        r.paths(len(ps))
        for p in ps:
            t = after(p, "state"); es = p.events("^declare$"); what = "dimensions %s" % (dims,)
            r.check("memory", what + " declared", len(es) == 1 and es[0][1][0] is STR("x"), r.where(f), "a declaration declares %s" % [show(e[1][0]) for e in es])
            vs, md = getf(t, "variable_stack"), getf(t, "max_stack_depth")
            for e in es:
                i = getf(e[1][1], "access_instruction")
                if i.op == "instr": i = i.a[0]
                ad = getf(i, "value")
                r.check("memory", what + " address", ad.op == "int" and ad.a[0] >= 5 and vs.op == "int" and vs.a[0] >= ad.a[0] + size, r.where(f), "a variable of size %d declared above 5 is put at %s and the next at %s" % (size, show(ad), show(vs)))
                r.check("memory", what + " covered", md.op == "int" and vs.op == "int" and md.a[0] >= max(9, vs.a[0]), r.where(f), "the memory reserved is %s for variables up to %s" % (show(md), show(vs)))
                r.check("memory", what + " dimensions", getf(e[1][1], "dimensions") is mk("array", *[INT(d) for d in dims]), r.where(f), "the variable gets dimensions %s" % show(getf(e[1][1], "dimensions")))
