"""C19: instances of templates and buses are shared only when they are the same; parameters are bound in order."""
from ..exec_model import *
from .. import maps
from .c04 import oracle, failed_steps, call_args, rt_of
from .c05 import obj, after, KW, arr, ms


def run(F, r):
    r.do(F, equality, samples, value_equality, lookup, insertion, calls, instances, parameters, requested, connexions, exported, buses)


def eqs(p):
    """decisions a == b of the path, as {frozenset of shown sides: bool}"""
    out = {}
    for c in p.conds:
        if c[0] != "bool": continue
        t, v = c[1], c[2]
        if t.op == "not": t, v = t.a[0], not v
        head = str(t.a[0]).rsplit("::", 1)[-1].lower() if t.a and not isinstance(t.a[0], T) else ""
        if "eq" in (t.op.lower(), head) or "ne" in (t.op.lower(), head):
            xs = [x for x in t.a if isinstance(x, T)][-2:]
            out[frozenset(show(x) for x in xs)] = v != ("ne" in (t.op.lower(), head))
    return out


def conj(r, rule, f, ps, pairs, what):
    """the result is true exactly when every pair is equal"""
    r.paths(len(ps)); ok = 0
    known = {frozenset((show(a), show(b))) for n, a, b in pairs}
    for p in ps:
        if any(c[0] != "bool" for c in p.conds) or len(eqs(p)) < len(p.conds) or set(eqs(p)) - known: raise Anchor("equality of %s decided in another way" % what)
    for p in ps:
        d = eqs(p); got = {n: d.get(frozenset((show(a), show(b)))) for n, a, b in pairs}
        if p.v.op == "bool" and p.v is TRUE: res = True
        elif p.v is FALSE: res = False
        else:
            # the last comparison is the result itself
            t = p.v; neg_ = False
            if t.op == "not": t, neg_ = t.a[0], True
            k = frozenset(show(x) for x in [x for x in t.a if isinstance(x, T)][-2:])
            n = next((n for n, a, b in pairs if frozenset((show(a), show(b))) == k), None)
            if n is None: raise Anchor("result %s of %s" % (show(p.v)[:80], f.id))
            rest = [m for m in got if m != n]
            if not r.check(rule, what + " all compared", all(got[m] is True for m in rest) and not neg_, r.where(f), "%s: equal although %s not compared" % (what, [m for m in rest if got[m] is not True])): continue
            ok += 1; continue
        if res: r.check(rule, what + " all compared", all(v is True for v in got.values()), r.where(f), "%s: taken for equal although %s may differ" % (what, [m for m, v in got.items() if v is not True])); ok += 1
        else: r.check(rule, what + " different", any(v is False for v in got.values()), r.where(f), "%s: taken for different although nothing differs" % what)
    r.check(rule, what + " can be equal", ok > 0, r.where(f), "%s: never taken for equal" % what)


def equality(F, r):
    r.rule("same", "an existing instance stands for a new one exactly when name, parameter values and (for templates) tags with their values are all equal")
    f = F.find("ExecutedTemplate::is_equal"); r.fn(f)
    me = build(F, "ExecutedTemplate", None, "me")
    ps, E = explore(F, f, [me, PARAM("name"), PARAM("params"), PARAM("tags")], stop=(r"PartialEq",))
    conj(r, "same", f, ps, [("name", PARAM("me.template_name"), PARAM("name")), ("parameters", PARAM("me.parameter_instances"), PARAM("params")), ("tags", PARAM("me.tag_instances"), PARAM("tags"))], "template instance")
    g = F.find("ExecutedBus::is_equal"); r.fn(g)
    me = build(F, "ExecutedBus", None, "me")
    ps, E = explore(F, g, [me, PARAM("name"), PARAM("params")], stop=(r"PartialEq",))
    conj(r, "same", g, ps, [("name", PARAM("me.bus_name"), PARAM("name")), ("parameters", PARAM("me.parameter_instances"), PARAM("params"))], "bus instance")


def known_eq(E, st, name, args, fn, line):
    a, b = E.deref(st, args[0]), E.deref(st, args[1])
    if contains(a, lambda t: t.op == "param") or contains(b, lambda t: t.op == "param") or a.op not in ("array", "int", "str", "adt") or b.op not in ("array", "int", "str", "adt"): return NotImplemented
    same = set(a.a) == set(b.a) if a.op == b.op == "array" and all(x.op == "tuple" for x in a.a + b.a) else a is b
    return [(st, BOOL(same != name.rstrip(">").endswith("::ne")))]


def samples(F, r):
    """the same question put with values that are known and differ in one respect"""
    num = lambda n: build(F, "MemorySlice", None, "x", route=arr(), values=mk("array", build(F, "ArithmeticExpression", "Number", "n", value=INT(n))))
    vec = lambda *n: build(F, "MemorySlice", None, "x", route=arr(len(n)), values=mk("array", *[build(F, "ArithmeticExpression", "Number", "n", value=INT(i)) for i in n]))
    wire = lambda fields=NONE, **t: build(F, "TagWire", None, "w", tags=pairs_(*[(STR(k), v) for k, v in t.items()]), fields=fields)
    P = {"none": pairs_(), "p=1": pairs_((STR("p"), num(1))), "p=2": pairs_((STR("p"), num(2))), "p=1,q=2": pairs_((STR("p"), num(1)), (STR("q"), num(2))), "p=1,q=3": pairs_((STR("p"), num(1)), (STR("q"), num(3))),
         "p=[1,2]": pairs_((STR("p"), vec(1, 2))), "p=[1,3]": pairs_((STR("p"), vec(1, 3)))}
    G = {"untagged": pairs_((STR("i"), wire())), "t": pairs_((STR("i"), wire(t=NONE))), "t=1": pairs_((STR("i"), wire(t=SOME(INT(1))))), "t=2": pairs_((STR("i"), wire(t=SOME(INT(2))))), "u": pairs_((STR("i"), wire(u=NONE))),
         "field t=1": pairs_((STR("i"), wire(SOME(pairs_((STR("f"), wire(t=SOME(INT(1))))))))), "field t=2": pairs_((STR("i"), wire(SOME(pairs_((STR("f"), wire(t=SOME(INT(2)))))))))}
    def ask(f, a, b, want, what):
        ps, E = explore(F, f, [a] + b, intr={**maps.intrinsics(), r"PartialEq(<[^>]*>)?>?::(eq|ne)$": known_eq}, **KW)
        r.paths(len(ps))
        for p in ps:
            if p.v.op != "bool": raise Anchor("%s of known values" % f.id)
            r.check("same", what, (p.v is TRUE) == want, r.where(f), "%s: taken for %s" % (what, "equal" if p.v is TRUE else "different"))
    f = F.find("ExecutedTemplate::is_equal"); g = F.find("ExecutedBus::is_equal")
    base = ("T", "p=1,q=2", "t=1")
    for n, pk, gk in [("T", k, "t=1") for k in P] + [("T", "p=1,q=2", k) for k in G] + [("U", "p=1,q=2", "t=1")] + [("T", k, k2) for k, k2 in (("none", "untagged"), ("p=[1,2]", "field t=1"))]:
        for n2, pk2, gk2 in {base, (n, pk, gk), (n, "p=[1,3]" if pk == "p=[1,2]" else pk, "field t=2" if gk == "field t=1" else gk)}:
            ask(f, build(F, "ExecutedTemplate", None, "me", template_name=STR(n), parameter_instances=P[pk], tag_instances=G[gk]), [STR(n2), P[pk2], G[gk2]], (n, pk, gk) == (n2, pk2, gk2), "template %s(%s) with %s and %s(%s) with %s" % (n, pk, gk, n2, pk2, gk2))
            if gk == gk2: ask(g, build(F, "ExecutedBus", None, "me", bus_name=STR(n), parameter_instances=P[pk]), [STR(n2), P[pk2]], (n, pk) == (n2, pk2), "bus %s(%s) and %s(%s)" % (n, pk, n2, pk2))


def impl_eq(F, ty):
    fs = [f for k, f in F.fns.items() if k.endswith("::eq") and re.search(r"<(\w+::)*%s(<\w+>)? as .*PartialEq" % ty, k)]
    if len(fs) != 1: raise Anchor("equality of %s (%d)" % (ty, len(fs)))
    return fs[0]


def value_equality(F, r):
    r.rule("values", "values are equal only when all their parts are: dimensions and cells of arrays, tags and fields of tagged wires, numbers")
    f = impl_eq(F, "TagWire"); r.fn(f)
    a, b = build(F, "TagWire", None, "l"), build(F, "TagWire", None, "m")
    ps, E = explore(F, f, [a, b], stop=(r"(BTreeMap|Option|HashMap).*PartialEq",))
    conj(r, "values", f, ps, [("tags", PARAM("l.tags"), PARAM("m.tags")), ("fields", PARAM("l.fields"), PARAM("m.fields"))], "tagged wire")
    f = impl_eq(F, "MemorySlice"); r.fn(f)
    a, b = build(F, "MemorySlice", None, "l"), build(F, "MemorySlice", None, "m")
    ps, E = explore(F, f, [a, b], stop=(r"Vec.*PartialEq",))
    conj(r, "values", f, ps, [("dimensions", PARAM("l.route"), PARAM("m.route")), ("cells", PARAM("l.values"), PARAM("m.values"))], "array value")
    f = impl_eq(F, "ArithmeticExpression"); r.fn(f)
    kinds = {"Number": ["value"], "Signal": ["symbol"], "Linear": ["coefficients"], "Quadratic": ["a", "b", "c"], "NonQuadratic": []}
    for k1 in kinds:
        for k2 in kinds:
            a, b = build(F, "ArithmeticExpression", k1, "l"), build(F, "ArithmeticExpression", k2, "m")
            ps, E = explore(F, f, [a, b], stop=(r"(BigInt|HashMap).*PartialEq",))
            if k1 == k2 and kinds[k1]: conj(r, "values", f, ps, [(x, PARAM("l." + x), PARAM("m." + x)) for x in kinds[k1]], "expression " + k1)
            elif k1 != k2: r.check("values", "%s and %s" % (k1, k2), all(p.v is FALSE for p in ps), r.where(f), "a %s equals a %s" % (k1, k2))


COPY = {r"MemorySlice.*Clone>?::clone$": pure(lambda x: x)}


def program(F, **o):
    return build(F, "ExecutedProgram", None, "prog", **o)


def pairs_(*kv): return mk("array", *[mk("tuple", k, v) for k, v in kv])


CASES = (("template", "identify_node", "add_node_to_scheme", "template_to_nodes", "model", "ExecutedTemplate", "template_name", 3), ("bus", "identify_bus_node", "add_bus_node_to_scheme", "bus_to_nodes", "model_buses", "ExecutedBus", "bus_name", 2))


def lookup(F, r):
    r.rule("lookup", "an existing instance is used only if it was found equal, and is found if there is one")
    for kind, idn, addn, table, model, ty, nm, k in CASES:
        f = F.find("ExecutedProgram::" + idn); r.fn(f)
        M = mk("array", *[PARAM("node%d" % i) for i in range(4)])
        for listed in ((), (1,), (0, 2), (3, 1)):
            prog = program(F, **{table: pairs_((STR("T"), arr(*listed)), (STR("U"), arr(0))) if listed else pairs_((STR("U"), arr(0))), model: M})
            args = [PARAM("params"), PARAM("tags")][:k - 1]
            ps, E = explore(F, f, [prog, STR("T")] + args, intr={**maps.intrinsics(), r"%s::is_equal$" % ty: oracle([TRUE, FALSE], bad=lambda x: False)}, **KW)
            r.paths(len(ps)); hits = set()
            for p in ps:
                es = p.events("is_equal$")
                for e in es: r.check("lookup", "%s compared with the request" % kind, list(e[1][1:]) == [STR("T")] + args, r.where(f), "an existing %s is compared with %s" % (kind, [show(x) for x in e[1][1:]]))
                got = getf(downcast(p.v, "Some"), "0") if p.variant() == "Some" else None
                if got is not None:
                    ok = got.op == "int" and es and es[-1][1][0] is PARAM("node%d" % got.a[0])
                    r.check("lookup", "%s found %s" % (kind, listed), ok, r.where(f), "instance %s is used, compared %s" % (show(got), [show(e[1][0]) for e in es]))
                    if ok: hits.add(got.a[0])
                else: r.check("lookup", "%s none %s" % (kind, listed), {show(e[1][0]) for e in es} == {"$node%d" % i for i in listed}, r.where(f), "no instance is found after comparing %s of %s" % ([show(e[1][0]) for e in es], listed))
            r.check("lookup", "%s each found %s" % (kind, listed), hits == set(listed), r.where(f), "only instances %s of %s can be found" % (sorted(hits), listed))


def insertion(F, r):
    r.rule("insertion", "a new instance is stored under its own index, listed for its name, unless an instance with its own name, parameters and tags exists")
    for kind, idn, addn, table, model, ty, nm, k in CASES:
        f = F.find("ExecutedProgram::" + addn); r.fn(f)
        node = build(F, ty, None, "new", **{nm: STR("T")})
        for known in (True, False):
            for listed in (False, True):
                st0 = St(); a = obj(st0, "prog", program(F, **{table: pairs_((STR("T"), arr(1))) if listed else pairs_((STR("U"), arr(0))), model: mk("array", PARAM("node0"), PARAM("node1"))}))
                I = {**maps.intrinsics(), r"ExecutedProgram::%s$" % idn: pure(lambda *x: SOME(INT(1)) if known else NONE, event=True), r"filters::apply_(unused|computed)$": pure(lambda *x: UNIT, event=True)}
                I.update(entry_intrinsics())
                ps, E = explore(F, f, call_args(F, f, {ty: node, "ExecutedProgram": a, "Analysis": PARAM("analysis")}), intr=I, st=st0, **KW)
                r.paths(len(ps)); r.check("insertion", "%s decided" % kind, len(ps) > 0, r.where(f), "inserting a %s never returns" % kind)
                for p in ps:
                    for e in p.events(idn + "$"):
                        own = [STR("T"), PARAM("new.parameter_instances"), PARAM("new.tag_instances")][:k]
                        r.check("insertion", "%s compared" % kind, [x for x in e[1][1:]] == own, r.where(f), "a new %s is compared as %s" % (kind, [show(x)[:40] for x in e[1][1:]]))
                    P_ = after(p, "prog"); m, t = getf(P_, model), getf(P_, table)
                    if known:
                        r.check("insertion", "%s existing" % kind, p.v is INT(1) and len(m.a) == 2, r.where(f), "an existing %s is stored again" % kind); continue
                    r.check("insertion", "%s index" % kind, p.v is INT(2), r.where(f), "a new %s gets index %s" % (kind, show(p.v)))
                    r.check("insertion", "%s stored" % kind, m.op == "array" and len(m.a) == 3 and list(m.a[:2]) == [PARAM("node0"), PARAM("node1")] and getf(m.a[2], nm) is STR("T"), r.where(f), "the instances are %s" % show(m)[:120])
                    l = next((x.a[1] for x in t.a if x.a[0] is STR("T")), None) if t.op == "array" else None
                    r.check("insertion", "%s listed" % kind, l is not None and l is arr(*([1, 2] if listed else [2])), r.where(f), "the instances listed for the %s are %s" % (kind, show(l) if l is not None else None))
                    r.check("insertion", "%s others" % kind, listed or (t.op == "array" and any(x.a[0] is STR("U") and x.a[1] is arr(0) for x in t.a)), r.where(f), "other instances are lost")


def entry_intrinsics():
    def entry(E, st, name, args, fn, line):
        root, path = maps.loc(E, st, args[0])
        return [(st, mk("entry", mk("ref", root, path), E.deref(st, args[1])))]

    def or_insert(E, st, name, args, fn, line):
        e = args[0]; m = E.deref(st, e.a[0]); k = e.a[1]
        if not maps.known(m): return NotImplemented
        i = maps.pos(m, k)
        if i is None:
            last = name.rsplit("::", 1)[-1]
            if last == "or_insert": vs = [(st, args[1])]
            elif last == "or_default": vs = [(st, mk("array"))]
            else: vs = [(st, mk("array"))] if isinstance(args[1], T) else None
            if vs is None: return NotImplemented
            for s, v in vs: E.store_through(s, e.a[0], mk("array", *(m.a + (mk("tuple", k, v),))))
            i = len(m.a)
        return [(st, mk("ref", e.a[0].a[0], e.a[0].a[1] + (("i", INT(i)), ("f", "1"))))]
    return {r"(HashMap|BTreeMap).*::entry$": entry, r"Entry.*::or_(insert|default|insert_with)$": or_insert}


# ------------------------------------------------------------------ execution of instances
def zip_map(names, vals): return pairs_(*zip(names, vals))


def same(a, b):
    """the same map, in whatever order its entries are kept"""
    return a is b or (a.op == b.op == "array" and len(a.a) == len(b.a) and set(a.a) == set(b.a))


def instances(F, r):
    r.rule("instance", "the parameters an instance is looked up with and stored with are the declared names bound to the values passed, in order, and its tags are those passed")
    for kind, fn, idn, addn, ty in (("template", "execute::execute_template_call", "identify_node", "add_node_to_scheme", "ExecutedTemplate"), ("bus", "execute::execute_bus_call", "identify_bus_node", "add_bus_node_to_scheme", "ExecutedBus")):
        f = F.find(fn); r.fn(f)
        for n in (0, 1, 3):
            names = [STR(x) for x in ("p", "q", "a")][:n]; vals = [PARAM("v%d" % i) for i in range(n)]
            tags = pairs_((STR("in"), build(F, "TagWire", None, "w", tags=pairs_((STR("t"), NONE), (STR("u"), SOME(PARAM("tv")))))))
            I = {**maps.intrinsics(), r"execute::execute_sequence_of_(bus_)?statements$": oracle([OK(mk("tuple", NONE, PARAM("simp")) if kind == "template" else UNIT)]), r"ExecutedProgram::%s$" % idn: pure(lambda *a: NONE, event=True),
                 r"ExecutedProgram::%s$" % addn: pure(lambda *a: PARAM("new"), event=True), r"ProgramArchive::get_(template|bus)_data$": pure(lambda p, i: mk("data", i)), r"Data::get_name_of_params$": pure(lambda d: mk("array", *names)),
                 r"Data::get_body_as_vec$": pure(lambda d: mk("body", d)), r"Data::(is_parallel|is_custom_gate|is_extern_c)$": lambda E, st, name, args, fn_, line: [(st, PARAM(name.rsplit("::", 1)[-1]))],
                 r"environment_check_all_components_assigned$": pure(lambda e: OK(UNIT)), r"environment_get_value_tags_": pure(lambda *a: mk("array"))}
            A = call_args(F, f, {re.compile(r"\bstr$"): STR("T"), "HashMap": tags, "MemorySlice": mk("array", *vals), "RuntimeInformation": build(F, "RuntimeInformation", None, "rt", public_inputs=PARAM("public"))})
            ps, E = explore(F, f, A, stop=[x for x in STOP if x not in (r"ExecutedTemplate::", r"ExecutedBus::", r"ExecutedProgram::")], intr={**TREAT, **COPY, **I}, loop_visits=8)
            r.paths(len(ps)); seen = 0
            want = zip_map(names, vals)
            for p in ps:
                for e in p.events(idn + "$"):
                    seen += 1
                    r.check("instance", "%s %d looked up name" % (kind, n), e[1][1] is STR("T"), r.where(f), "the %s is looked up as %s" % (kind, show(e[1][1])))
                    r.check("instance", "%s %d looked up parameters" % (kind, n), same(e[1][2], want), r.where(f), "the %s is looked up with parameters %s, passed %s" % (kind, show(e[1][2])[:150], show(want)[:100]))
                    if kind == "template": r.check("instance", "%s looked up tags" % kind, e[1][3] is tags, r.where(f), "the template is looked up with tags %s" % show(e[1][3])[:120])
                for e in p.events(addn + "$"):
                    node = next((x for x in e[1] if x.op in ("adt", "with") and contains(x, lambda y: y.op == "adt" and str(y.a[0]).endswith(ty))), None)
                    if node is None: raise Anchor("instance stored by %s" % fn)
                    r.check("instance", "%s %d stored name" % (kind, n), getf(node, kind + "_name") is STR("T"), r.where(f), "the %s is stored as %s" % (kind, show(getf(node, kind + "_name"))))
                    r.check("instance", "%s %d stored parameters" % (kind, n), same(getf(node, "parameter_instances"), want), r.where(f), "the %s is stored with parameters %s" % (kind, show(getf(node, "parameter_instances"))[:150]))
                    if kind == "template":
                        r.check("instance", "template stored tags", getf(node, "tag_instances") is tags, r.where(f), "the template is stored with tags %s" % show(getf(node, "tag_instances"))[:120])
                        for k in ("is_parallel", "is_custom_gate", "is_extern_c"): r.check("instance", "template stored " + k, getf(node, k) is PARAM(k), r.where(f), "the template is stored with %s = %s" % (k, show(getf(node, k))))
            r.check("instance", "%s %d looked up" % (kind, n), seen > 0, r.where(f), "a %s is executed without looking for an existing instance" % kind)


def calls(F, r):
    r.rule("call", "a callee's environment and instance are made from its own name and from the values of the arguments, in the order written")
    ID = STR("callee")
    for kind, fn, inner in (("function", "execute::execute_call", None), ("template", "execute::execute_call", "preexecute_template_call"), ("template", "execute::execute_template_call_complete", "execute_template_call"), ("bus", "execute::execute_bus_call_complete", "execute_bus_call")):
        f = F.find(fn); r.fn(f)
        I = {r"ProgramArchive::contains_%s$" % k: pure(lambda p, i, k=k: BOOL(k == kind)) for k in ("function", "template", "bus")}
        I.update({r"execute::prepare_environment_for_call$": pure(lambda i, a, p: mk("callee_env", i, a), event=True), r"execute::execute_expression$": fold_expr, r"get_reference_values$": lambda E, st, name, args, fn, line: [(st, mk("array", mk("cell", E.deref(st, args[0]))))],
                  r"ArithmeticExpression::<C>::is_number$": pure(lambda x: TRUE), r"ProgramArchive::get_(function|template|bus)_data$": pure(lambda p, i: mk("data", i)), r"Data::get_file_id$": pure(lambda d: mk("file_of", d)),
                  r"execute::execute_function_call$": oracle([OK(mk("tuple", PARAM("res"), PARAM("simp")))]), r"execute::(preexecute_template_call|execute_template_call|execute_bus_call)$": oracle([OK(PARAM("res"))]), **maps.intrinsics()})
        slices = [PARAM("s0"), PARAM("s1"), PARAM("s2")]; es = [PARAM("e0"), PARAM("e1"), PARAM("e2")]
        A = call_args(F, f, {re.compile(r"\bString$"): ID, "HashMap": PARAM("tags"), "ast::Expression": mk("array", *es), "RuntimeInformation": rt_of(F, "Known"), "MemorySlice": mk("array", *slices)})
        ps, E = explore(F, f, A, stop=STOP, intr={**TREAT, **UNWRAP, **COPY, **I}, loop_visits=8)
        r.paths(len(ps)); n = 0
        want = mk("array", *(slices if fn.endswith("complete") and kind == "template" else [mk("slice", mk("fold", x)) for x in es]))
        for p in ps:
            for e in p.events("prepare_environment_for_call$"):
                n += 1
                r.check("call", kind + " environment", e[1][0] is ID and e[1][1] is want, r.where(f), "%s called with %s runs with parameters of %s = %s" % (kind, show(want)[:60], show(e[1][0]), show(e[1][1])[:100]))
            if inner:
                for e in p.events(r"execute::%s$" % inner):
                    n += 1
                    r.check("call", kind + " instance", ID in e[1] and want in e[1], r.where(f), "%s called with %s is instantiated with %s" % (kind, show(want)[:60], [show(x)[:50] for x in e[1][:3]]))
                    if kind == "template" and inner == "execute_template_call": r.check("call", "template tags", PARAM("tags") in e[1], r.where(f), "a template is not instantiated with the tags of its inputs")
        r.check("call", "%s %s called" % (kind, fn.rsplit("_", 1)[-1]), n >= (1 if not inner or "pre" in inner else 2), r.where(f), "a %s is never called" % kind)


def parameters(F, r):
    r.rule("parameters", "the body of a callee sees each declared parameter with the value passed at its position")
    f = F.find("execute::prepare_environment_for_call"); r.fn(f)
    for kind in ("function", "template", "bus"):
        for n in (0, 1, 3):
            names = [STR(x) for x in ("p", "q", "a")][:n]; vals = [PARAM("v%d" % i) for i in range(n)]
            has = {k: mk("array", STR("T")) if k == kind else mk("array", STR("Z")) for k in ("function", "template", "bus")}
            def decl(E, st, name, args, fn, line):
                E.event(st, "bind", tuple(E.deref(st, x) for x in args[1:]), line, fn); return [(st, UNIT)]
            def data(E, st, name, args, fn, line):
                k = re.search(r"get_(\w+)_data", name).group(1)
                return [(st, mk("data", PARAM(k)))]
            I = {**maps.intrinsics(), **{r"ProgramArchive::get_%s_names$" % k: pure(lambda p, k=k: has[k]) for k in has}, **{r"ProgramArchive::contains_%s$" % k: pure(lambda p, i, k=k: BOOL(k == kind)) for k in has},
                 r"ProgramArchive::get_(function|template|bus)_data$": data, r"Data::get_name_of_params$": pure(lambda d: mk("array", *names) if d is mk("data", PARAM(kind)) else mk("array", STR("wrong"))),
                 r"RawEnvironment::<T, CC, SC, VC, BC>::add_variable$": decl, r"RawEnvironment::<T, CC, SC, VC, BC>::new$": pure(lambda: PARAM("env"))}
            ps, E = explore(F, f, call_args(F, f, {re.compile(r"\bstr$"): STR("T"), "MemorySlice": mk("array", *vals)}), intr={**COPY, **I}, loop_visits=8)
            r.paths(len(ps)); r.check("parameters", "%s %d returns" % (kind, n), len(ps) > 0, r.where(f), "binding parameters never returns")
            for p in ps:
                es = p.events("^bind$")
                got = [(e[1][0], getf(e[1][1], "1")) for e in es]
                r.check("parameters", "%s %d" % (kind, n), got == list(zip(names, vals)), r.where(f), "parameters %s called with %s are bound as %s" % ([show(x) for x in names], [show(x) for x in vals], [(show(a), show(b)) for a, b in got]))
    for ty in ("FunctionData", "TemplateData", "BusData"):
        g = F.find(ty + "::get_name_of_params"); r.fn(g)
        ps, E = explore(F, g, [build(F, {"FunctionData": "function_data::", "TemplateData": "template_data::", "BusData": "bus_data::"}[ty] + ty, None, "d")])
        for p in ps: r.check("parameters", ty + " names", p.v is PARAM("d.name_of_params"), r.where(g), "the parameters of a %s are %s" % (ty, show(p.v)[:80]))
        h = F.find(ty + "::new"); r.fn(h)


def requested(F, r):
    r.rule("requested", "a component is instantiated from the template and parameters it was declared with and the tags its inputs received, and the component and the circuit refer to the instance obtained")
    f = F.find("execute::preexecute_template_call"); r.fn(f)
    I = {**maps.intrinsics(), r"ProgramArchive::get_template_data$": pure(lambda p, i: mk("data", i)), r"Data::get_(inputs|outputs)$": pure(lambda d: mk("array")), r"ExecutedProgram::add_prenode_to_scheme$": pure(lambda s, n: PARAM("pre"), event=True)}
    vals = [PARAM("v0"), PARAM("v1")]
    ps, E = explore(F, f, call_args(F, f, {re.compile(r"\bstr$"): STR("T"), "MemorySlice": mk("array", *vals)}), intr={**COPY, **I}, stop=[x for x in STOP if x not in (r"ExecutedTemplate::",)])
    r.paths(len(ps))
    for p in ps:
        es = p.events("add_prenode_to_scheme$")
        r.check("requested", "prepared", len(es) == 1 and contains(p.v, PARAM("pre")), r.where(f), "a component declaration prepares %d templates" % len(es))
        for e in es:
            n = e[1][1]
            r.check("requested", "prepared name", getf(n, "template_name") is STR("T"), r.where(f), "prepared template %s" % show(getf(n, "template_name")))
            r.check("requested", "prepared parameters", getf(n, "parameter_instances") is mk("array", *vals), r.where(f), "prepared with %s" % show(getf(n, "parameter_instances"))[:100])
    g = F.find("execute::perform_assign"); r.fn(g)
    n = 0
    for op, rhs, depth in (("AssignVar", "node", 0), ("AssignConstraintSignal", "arith", 1), ("AssignSignal", "arith", 1), ("AssignConstraintSignal", "bus", 1), ("AssignConstraintSignal", "arith", 2)):
        ps, a = assign_paths(F, op, "component", rhs, depth, block="Known")
        ps = ps[0] if isinstance(ps, tuple) else ps
        r.paths(len(ps))
        for p in ps:
            cs = p.events("execute_template_call_complete$"); init = p.events("(?<!pre)initialize_component$"); arrows = p.events("add_arrow$")
            for e in cs:
                n += 1
                nm, pr, tg = e[1][0], e[1][1], e[1][2]
                r.check("requested", "template of the component", "template_name" in show(nm) and "prenode" in show(nm), r.where(g), "the template instantiated is %s" % show(nm)[:120])
                r.check("requested", "parameters of the component", "parameter_instances" in show(pr) and "prenode" in show(pr), r.where(g), "the parameters are %s" % show(pr)[:120])
                r.check("requested", "tags of the component", show(tg).endswith(".inputs_tags") or "inputs_tags" in show(tg), r.where(g), "the tags are %s" % show(tg)[:120])
            if cs and p.variant() == "Ok":
                ptr = [e[1][1] for e in init]
                r.check("requested", "component refers to it", len(init) == len(cs) and all("ptr(" in show(x) or x is getf(PARAM("tres"), "0") for x in ptr), r.where(g), "the component is initialised with %s" % [show(x)[:60] for x in ptr])
                r.check("requested", "connected", len(arrows) == len(cs), r.where(g), "%d instances, %d connexions" % (len(cs), len(arrows)))
                for e, pt in zip(arrows, ptr):
                    d = e[1][-1]
                    r.check("requested", "connexion target", getf(d, "goes_to") is pt, r.where(g), "the circuit refers to instance %s, the component to %s" % (show(getf(d, "goes_to"))[:60], show(pt)[:60]))
                    r.check("requested", "connexion name", getf(d, "name") is PARAM("symbol"), r.where(g), "the connexion is named %s" % show(getf(d, "name"))[:60])
                    r.check("requested", "connexion index", getf(d, "indexed_with") is getf(a, "array_access"), r.where(g), "the connexion is indexed with %s" % show(getf(d, "indexed_with"))[:60])
    r.check("requested", "instantiated", n > 0, r.where(g), "components are never instantiated")


def connexions(F, r):
    r.rule("connexions", "every connexion reaches the constraint graph and the generated code with the instance it refers to, and each instance has its own name")
    f = F.find("ExecutedTemplate::add_arrow"); r.fn(f)
    st0 = St(); a = obj(st0, "t", build(F, "ExecutedTemplate", None, "t", connexions=mk("array", PARAM("c0"))))
    ps, E = explore(F, f, [a, STR("cmp"), PARAM("data")], st=st0)
    for p in ps:
        c = getf(after(p, "t"), "connexions")
        r.check("connexions", "recorded", c.op == "array" and len(c.a) == 2 and c.a[0] is PARAM("c0") and getf(c.a[1], "inspect") is PARAM("data") and getf(c.a[1], "full_name") is STR("cmp"), r.where(f), "a connexion is recorded as %s" % show(c)[:120])


def exported(F, r):
    f = F.find("ExecutedTemplate::export_to_circuit::build_triggers"); r.fn(f)
    def inst(i): return build(F, "TemplateInstance", None, "i%d" % i, wires=mk("array"), template_header=STR("T_%d" % i), is_parallel=FALSE, number_of_inputs=INT(i))
    def cnn(k, to): return build(F, "Connexion", None, "k%d" % k, inspect=build(F, "SubComponentData", None, "d%d" % k, goes_to=INT(to), is_parallel=FALSE, name=STR("c%d" % k)))
    st0 = St(); a = obj(st0, "ins", mk("array", inst(0), inst(1)))
    ps, E = explore(F, f, call_args(F, f, {"TemplateInstance": a, "Connexion": mk("array", cnn(0, 1), cnn(1, 0))}), st=st0, **KW)
    r.paths(len(ps)); r.check("connexions", "exported", len(ps) > 0, r.where(f), "no connexion exported")
    for p in ps:
        ts = p.v
        r.check("connexions", "number exported", ts.op == "array" and len(ts.a) == 2, r.where(f), "2 connexions are exported as %s" % show(ts)[:80])
        for k, (t, to) in enumerate(zip(ts.a, (1, 0))):
            r.check("connexions", "trigger instance", getf(t, "template_id") is INT(to), r.where(f), "connexion to instance %d runs instance %s" % (to, show(getf(t, "template_id"))))
            r.check("connexions", "trigger header", getf(t, "runs") is STR("T_%d" % to), r.where(f), "connexion to instance %d runs %s" % (to, show(getf(t, "runs"))))
            r.check("connexions", "trigger name", getf(t, "component_name") is STR("c%d" % k), r.where(f), "component c%d is exported as %s" % (k, show(getf(t, "component_name"))))
            r.check("connexions", "trigger offset", getf(t, "offset") is PARAM("k%d.dag_offset" % k), r.where(f), "component c%d is exported at %s" % (k, show(getf(t, "offset"))))
            r.check("connexions", "trigger indexes", getf(t, "indexed_with") is PARAM("d%d.indexed_with" % k), r.where(f), "component c%d is exported indexed with %s" % (k, show(getf(t, "indexed_with"))[:60]))
    g = F.find("ExecutedTemplate::build_connexions"); r.fn(g)
    st0 = St(); a = obj(st0, "t", build(F, "ExecutedTemplate", None, "t", connexions=mk("array", cnn(0, 1), cnn(1, 0))))
    I = {r"filter_used_components$": pure(lambda t: mk("tuple", PARAM("cmps"), INT(2))), r"sort_by": pure(lambda *x: UNIT), r"DAG::add_edge$": pure(lambda *x: SOME(PARAM("e")), event=True), r"DAG::get_entry$": pure(lambda d: SOME(PARAM("entry")))}
    ps, E = explore(F, g, [a, PARAM("dag")], intr=I, stop=(r"Node::",), st=st0, **KW)
    r.paths(len(ps))
    for p in ps:
        es = p.events("add_edge$")
        r.check("connexions", "edges", [e[1][1] for e in es] == [INT(1), INT(0)] and [e[1][2] for e in es] == [PARAM("k0.full_name"), PARAM("k1.full_name")], r.where(g), "edges of the graph: %s" % [[show(x)[:30] for x in e[1][1:]] for e in es])
    h = F.find("ExecutedTemplate::export_to_circuit"); r.fn(h)
    me = build(F, "ExecutedTemplate", None, "t", template_name=STR("T"), inputs=mk("array"), outputs=mk("array"), intermediates=mk("array"))
    I = {r"build_triggers$": pure(lambda i, c: mk("triggers", c)), r"build_components$": pure(lambda c: mk("components", c)), r"build_arguments$": pure(lambda c: mk("arguments", c)), r"build_clusters$": pure(lambda *c: PARAM("clusters")), r"TemplateInstance::new$": pure(lambda c: mk("instance", c), event=True)}
    ps, E = explore(F, h, [me, mk("array", PARAM("i0"), PARAM("i1"), PARAM("i2")), PARAM("buses")], intr=I, **KW)
    r.paths(len(ps)); r.check("connexions", "circuit exported", len(ps) > 0, r.where(h), "no instance exported")
    for p in ps:
        for e in p.events("TemplateInstance::new$"):
            c = e[1][0]
            hd = getf(c, "header")
            r.check("connexions", "own header", "T" in show(hd) and ("2" in show(hd) or "3" in show(hd)), r.where(h), "instance 3 of template T is named %s, which does not tell it from other instances" % show(hd)[:80])
            r.check("connexions", "own id", getf(c, "id") is INT(3), r.where(h), "instance 3 gets id %s" % show(getf(c, "id")))
            r.check("connexions", "own code", getf(c, "code") is PARAM("t.code") and getf(c, "arguments") is mk("arguments", PARAM("t.parameter_instances")) and getf(c, "triggers") is mk("triggers", PARAM("t.connexions")), r.where(h), "an instance is exported with the code, arguments or components of another")


def buses(F, r):
    r.rule("bus", "a bus is laid out as its own fields, one after another, each of the size of its own bus instance times its dimensions")
    f = F.find("ExecutedBus::build_bus_info"); r.fn(f)
    W = lambda n, dims, bus: build(F, "type_definitions::WireData", None, n, name=STR(n), length=arr(*dims), is_bus=BOOL(bus))
    C = lambda n, to: build(F, "BusConnexion", None, n, inspect=build(F, "type_definitions::BusData", None, n, goes_to=INT(to)))
    def inst(i, size): return SOME(build(F, "BusInstance", None, "bus%d" % i, size=INT(size)))
    me = build(F, "ExecutedBus", None, "me", bus_name=STR("B"), fields=mk("array", W("x", (2, 3), False), W("b", (2,), True), W("y", (), False), W("c", (), True)), bus_connexions=pairs_((STR("b"), C("b", 1)), (STR("c"), C("c", 2))))
    for here in (NONE, inst(9, 99)):
        st0 = St(); a = obj(st0, "tab", mk("array", here, inst(1, 5), inst(2, 7)))
        ps, E = explore(F, f, [me, INT(0), a, mk("array", PARAM("b0"), PARAM("b1"), PARAM("b2"))], st=st0, intr={**maps.intrinsics()}, **KW)
        r.paths(len(ps)); r.check("bus", "laid out", len(ps) > 0, r.where(f), "a bus is never laid out")
        for p in ps:
            t = after(p, "tab")
            if here is not NONE:
                r.check("bus", "laid out once", t.a[0] is here, r.where(f), "a bus that is laid out is laid out again"); continue
            if t.a[0].op != "adt" or t.a[0].a[1] != "Some": r.check("bus", "stored", False, r.where(f), "the layout of a bus is not stored under its own instance"); continue
            v = getf(downcast(t.a[0], "Some"), "0"); fs = getf(v, "fields")
            r.check("bus", "others untouched", t.a[1] is inst(1, 5) and t.a[2] is inst(2, 7), r.where(f), "laying out a bus changes another one")
            r.check("bus", "size", getf(v, "size") is INT(24) and getf(v, "name") is STR("B"), r.where(f), "a bus of 24 signals has size %s" % show(getf(v, "size")))
            if fs.op != "array": raise Anchor("fields of a bus instance")
            got = {x.a[0]: x.a[1] for x in fs.a}; offs = set()
            for n, size, off, bus, dims in (("x", 6, 0, NONE, (2, 3)), ("b", 10, 6, SOME(INT(1)), (2,)), ("y", 1, 16, NONE, ()), ("c", 7, 17, SOME(INT(2)), ())):
                w = got.get(STR(n))
                if not r.check("bus", "field kept", w is not None, r.where(f), "field %s is missing" % n): continue
                r.check("bus", "field size", getf(w, "size") is INT(size), r.where(f), "field %s takes %s signals, not %d" % (n, show(getf(w, "size")), size))
                r.check("bus", "field offset", getf(w, "offset") is INT(off), r.where(f), "field %s is at %s, not %d" % (n, show(getf(w, "offset")), off))
                r.check("bus", "field instance", getf(w, "bus_id") is bus and getf(w, "dimensions") is arr(*dims), r.where(f), "field %s refers to bus instance %s" % (n, show(getf(w, "bus_id"))))
                offs.add(getf(w, "field_id"))
            r.check("bus", "field ids", len(offs) == 4, r.where(f), "fields share an identifier")
    # a field whose bus is not laid out yet is laid out first
    me = build(F, "ExecutedBus", None, "me", bus_name=STR("B"), fields=mk("array", W("b", (), True)), bus_connexions=pairs_((STR("b"), C("b", 1))))
    def rec(E, st, name, args, fn, line):
        root, path = maps.loc(E, st, args[2]); i = E.deref(st, args[1])
        E.event(st, "nested", (E.deref(st, args[0]), i), line, fn)
        if i.op == "int": E.write_loc(st, root, path + (("i", i),), inst(i.a[0], 5))
        return [(st, UNIT)]
    st0 = St(); a = obj(st0, "tab", mk("array", NONE, NONE))
    top = [True]
    def only_nested(E, st, name, args, fn, line): return rec(E, st, name, args, fn, line)
    ps, E = explore(F, f, [me, INT(0), a, mk("array", PARAM("b0"), PARAM("b1"))], st=st0, intr={**maps.intrinsics(), r"ExecutedBus::build_bus_info$": only_nested}, **KW)
    for p in ps:
        es = p.events("^nested$")
        r.check("bus", "nested bus", len(es) == 1 and es[0][1] == (PARAM("b1"), INT(1)), r.where(f), "a bus inside a bus is laid out as %s" % [[show(x) for x in e[1]] for e in es])
