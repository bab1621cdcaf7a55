"""C09: every pass over the syntax tree visits every nested statement and expression.

One induction step per pass and form of node: the function of the pass that handles a node is explored on that form with its children
as parameters; on every path that neither fails nor reports, each child the pass must know about is handed to a handler of the pass, and
a pass that rewrites its input puts the rewritten child in the place of the original."""
from ..visit import *
from . import c08
from .c04 import static_tags, static_statements

STMT = ("IfThenElse", "While", "Return", "InitializationBlock", "Declaration", "Substitution", "MultSubstitution", "UnderscoreSubstitution",
        "ConstraintEquality", "LogCall", "Block", "Assert")
EXPR = ("InfixOp", "PrefixOp", "InlineSwitchOp", "ParallelOp", "Variable", "Number", "Call", "BusCall", "AnonymousComp", "ArrayInLine", "Tuple", "UniformArray")
NEST = ("IfThenElse", "While", "InitializationBlock", "Block")                 # the forms that hold statements
SUGAR_S, SUGAR_E = ("MultSubstitution",), ("AnonymousComp", "Tuple")           # removed before every other pass (C18)
IMPL = r"(expression_impl|statement_impl)::<impl [^>]*>::"


def run(F, r):
    r.do(F, metadata, has_sugar, interface, sugar_checks, sugar_removal, tuple_removal, constants, reduction, component_types, c08.returns, c08.functions, c08.placement,
         c08.buses, c08.custom, c08.symbols, c08.types, static_tags, static_statements, dead_code, computed, dimensions, preprocess, instances, linking, expansion, loops, inferred, translation)


def only(*names): return lambda v, k: re.match(r"(%s)\d*$" % "|".join(names), k) is not None


META = {IMPL + r"get_meta$": pure(lambda x: mk("meta", x))}


def _mut_meta(E, st, name, args, fn, line):
    n = sum(1 for k in st.mem if k[0] == "META"); root = ("META", n); st.mem[root] = mk("meta", E.deref(st, args[0]))
    return [(st, mk("ref", root, ()))]


META[IMPL + r"get_mut_meta$"] = _mut_meta


def sweep(F, r, rule, fn, kind, forms, need, mod=None, handlers=None, intr=None, stop=(), args=None, changed=False, accept=None, n=2, over=None, lv=5, inline=None, result=None):
    """obligations of one pass: for each form, each child k with need(form, k) is visited by a handler on every continuing path"""
    f = F.find(fn) if isinstance(fn, str) else fn
    r.fn(f)
    if inline is None and handlers: inline = lambda name, child: not re.search(handlers, name)
    V = Visits(F, mod or re.escape(f.id.rsplit("::", 1)[0]) + "::", intr={**META, **(intr or {})}, stop=stop, loop_visits=lv, inline=inline, result=result)
    hs = re.compile(handlers) if handlers else None
    done = 0
    for v in forms:
        try: ps, kids = V.run(f, kind, v, args=args, n=n, **((over or {}).get(v) or {}))
        except (Anchor, Budget) as e:
            r.notes.append("%s on %s: undecided (%s)" % (fn if isinstance(fn, str) else f.id, v, str(e)[:80])); continue
        r.paths(len(ps)); done += 1
        must = {k: t for k, t in kids.items() if need(v, k)}
        nm = f.id.rsplit("::", 1)[-1]
        live = [p for p in ps if not p.events("^failed$") and p.variant() != "Err" and not p.events("^error$")]
        if not ps:
            r.check(rule, "%s on %s" % (nm, v), not must, r.where(f), "%s panics on every %s" % (nm, v)); continue
        for k, t in must.items():
            bad = None
            for p in live:
                if accept and accept(p, t): continue
                if any(e[1][0] is t and (not hs or hs.search(e[1][1].a[0])) for e in p.events("^visit$")): continue
                bad = p; break
            r.check(rule, "%s on %s: %s" % (nm, v, k), bad is None, r.where(f), "%s does not look at %s of %s (path %s)" % (nm, k, v, bad and bad.show()))
            if changed and bad is None and not in_place(f, k):
                for p in live:
                    out = out_of(V, p, f, kind)
                    if out is None: continue
                    if not contains(out, lambda x: x.op in ("after", "res") and x.a[1] is t) and contains(out, t) or not contains(out, t) and changed == "kept": bad = p; break
                r.check(rule, "%s on %s: %s replaced" % (nm, v, k), bad is None, r.where(f), "%s leaves %s of %s as it was (path %s)" % (nm, k, v, bad and bad.show()))
    r.floor(rule, done, max(1, len(forms) - 2), "forms of node handled by %s" % f.id.rsplit("::", 1)[-1])
    return V


def out_of(V, p, f, kind):
    for i in range(f.nargs):
        if re.search(r"^&mut [\w:]*\b%s$" % kind, f.locals[i + 1][0]): return V.arg(p, i)
    return p.v


def in_place(f, k): return stmts_only("", k) and any(re.search(r"^&mut [\w:]*Statement$", f.locals[i + 1][0]) for i in range(f.nargs))


def everything(v, k): return True


def stmts_only(v, k): return k.startswith(("if_case", "else_case", "stmt", "initializations"))


# ------------------------------------------------------------------------------------------------- program_structure
def metadata(F, r):
    r.rule("metadata", "identifiers and file ids are given to every node: fill visits every child of every statement and expression")
    for kind in ("Statement", "Expression"):
        f = [g for g in F.fns.values() if re.search(IMPL.replace("[^>]*", "[^>]*FillMeta for [^>]*%s" % kind) + "fill$", g.id)] or \
            [g for g in F.fns.values() if g.id.endswith("::fill") and "%s_impl" % kind.lower() in g.id and g.nargs == 3]
        if len(f) != 1: raise Anchor("fill of %s" % kind)
        sweep(F, r, "metadata", f[0], kind, STMT if kind == "Statement" else EXPR, everything, mod=r"(expression_impl|statement_impl)::", handlers=r"fill$")
        V = Visits(F, r"(expression_impl|statement_impl)::", intr=META, inline=lambda name, child: not name.endswith("fill"))
        fid, eid = (PARAM("p.%s" % f[0].locals[i][1]) for i in (2, 3)); nxt = mk("bin", "Add", eid, INT(1))
        for v in STMT if kind == "Statement" else EXPR:
            ps, kids = V.run(f[0], kind, v)
            for what, ok in (("takes the next element id", lambda p: any("('elem_id', %s)" % eid in str(x) for x in p.st.mem.values())),
                             ("increments the element id", lambda p: re.sub(r"\s", "", str(V.arg(p, 2))) == "Add(%s,1)" % eid),
                             ("records the file", lambda p: any("('file_id', Option::Some{0:%s})" % fid in str(x) for x in p.st.mem.values())),
                             ("passes the file and the counter on", lambda p: all(fid in e[1][2:] and any(str(x) == "Add(%s,1)" % eid for x in e[1][2:]) for e in p.events("^visit$")))):
                p = next((p for p in ps if not ok(p)), None)
                r.check("metadata", "%s %s" % (v, what), p is None and bool(ps), r.where(f[0]), "fill of a %s does not: %s (path %s)" % (v, what, p and p.show()))


# the trivial questions on a node: anything may be answered for a child that is a parameter
SHAPE = {IMPL + r"(is_|contains_|get_)\w+$": lambda E, st, name, args, fn, line: NotImplemented}


def has_sugar(F, r):
    r.rule("has_sugar", "contains_anonymous_comp and contains_tuple answer yes exactly if the node is one or some child contains one; every child is asked before the answer is no")
    for q, own in (("contains_anonymous_comp", "AnonymousComp"), ("contains_tuple", "Tuple")):
        for kind in ("Statement", "Expression"):
            fs = [g for g in F.fns.values() if re.search(IMPL.replace("[^>]*", "[^>]*%s" % kind) + q + "$", g.id)]
            if not fs: continue
            if len(fs) != 1: r.notes.append("%s of %s: undecided" % (q, kind)); continue
            f = fs[0]; r.fn(f)
            V = Visits(F, r"(expression_impl|statement_impl)::", intr=META, inline=lambda name, child: not name.endswith(q))
            for v in STMT if kind == "Statement" else EXPR:
                ps, kids = V.run(f, kind, v); r.paths(len(ps)); no = yes = None
                for p in ps:
                    ans = {c[1]: c[2] for c in p.conds if c[0] == "child"}
                    some = v == own or any(ans.values())
                    seen = {e[1][0] for e in p.events("^visit$")}
                    if p.v is FALSE and (some or any(t not in seen for t in kids.values())): no = p
                    if p.v is TRUE and not some: yes = p
                    if p.v not in (TRUE, FALSE): raise Anchor("answer of %s on %s" % (q, v))
                r.check("has_sugar", "%s on %s: no" % (q, v), no is None, r.where(f), "%s of a %s answers no without looking at every child (path %s)" % (q, v, no and no.show()))
                r.check("has_sugar", "%s on %s: yes" % (q, v), yes is None, r.where(f), "%s of a %s answers yes although no child contains one (path %s)" % (q, v, yes and yes.show()))


def interface(F, r):
    r.rule("interface", "the inputs, outputs and fields of templates and buses are collected from every nested statement that can declare one")
    sweep(F, r, "interface", "template_data::fill_inputs_and_outputs", "Statement", NEST, stmts_only, changed=False)
    sweep(F, r, "interface", "bus_data::fill_fields", "Statement", ("Block", "InitializationBlock"), stmts_only)


def component_types(F, r):
    r.rule("component_types", "the template of a component is inferred from, and recorded at, every nested statement")
    m = "component_type_inference::"
    sweep(F, r, "component_types", m + "infer_component_types", "Statement", NEST, stmts_only)
    sweep(F, r, "component_types", m + "apply_inference", "Statement", NEST, stmts_only)
    sweep(F, r, "component_types", m + "into_template_inference", "Expression", ("ParallelOp",), everything)
    f = F.find(m + "into_template_inference")
    V = Visits(F, re.escape(m)); ps, kids = V.run(f, "Expression", "InlineSwitchOp")
    for p in ps:
        seen = {e[1][0] for e in p.events("^visit$")}
        if p.variant() == "None" and not {kids["if_true"], kids["if_false"]} <= seen: break
    else: p = None
    r.check("component_types", "conditional", p is None, r.where(f), "the branches of an inline conditional are not both searched for the template (path %s)" % (p and p.show()))


def preprocess(F, r):
    r.rule("preprocess", "statements without code (signals, declarations) are removed at every depth")
    sweep(F, r, "preprocess", "component_preprocess::rm_statement", "Statement", ("IfThenElse", "While", "Block"), stmts_only, n=1)


# ------------------------------------------------------------------------------------------------- instances and code
def no_hidden(v, k): return v != "UnderscoreSubstitution"


def opaque(op): return pure(lambda *a: mk(op, *a))


FRESH = {r"merger::(map_to_params|add_instance|look_for_existing_instance|cast_type_expression|cast_type_variable)$": opaque("made"),
         r"type_inference::infer_function_result$": opaque("made"), r"environment::\w+::<[^>]*>::\w+$": opaque("env"), r"[sS]tate::produce_id$": opaque("id")}
LEFT_S = tuple(v for v in STMT if v not in SUGAR_S + ("UnderscoreSubstitution",))
LEFT_E = tuple(v for v in EXPR if v not in SUGAR_E)


def instances(F, r):
    r.rule("instances", "every call in every expression of every statement is turned into an instance of the function with its parameter types")
    for fn, kind, forms in (("merger::produce_vcf_stmt", "Statement", LEFT_S), ("merger::produce_vcf_expr", "Expression", LEFT_E)):
        sweep(F, r, "instances", fn, kind, forms, no_hidden, handlers=r"produce_vcf_(stmt|expr)$", intr=FRESH)


def linking(F, r):
    r.rule("linking", "every call in every expression of every statement is linked to its instance")
    for fn, kind, forms in (("merger::link_stmt", "Statement", LEFT_S), ("merger::link_expression", "Expression", LEFT_E)):
        sweep(F, r, "linking", fn, kind, forms, no_hidden, handlers=r"link_(stmt|expression)$", intr=FRESH)


# ------------------------------------------------------------------------------------------------- tuples and anonymous components
SUGAR_MOD = r"syntax_sugar_remover::|(expression_impl|statement_impl)::<impl [^>]*(Expression|Statement)>::(contains_\w+|is_\w+)$"
ASK = r"check_(anonymous_components|tuples)_(statement|expression)$|::contains_\w+$"


def is_ask(E, st, name, args, fn, line):
    """is_<form> of a child: unknown, one answer"""
    x = E.deref(st, args[0])
    if x.op == "adt": return NotImplemented
    return E.oracle_bool(st, mk("ask", STR(name), x)) if hasattr(E, "oracle_bool") else [(st, mk("ask", STR(name), x))]


IS = {IMPL + r"is_\w+$": is_ask}


def sugar_checks(F, r):
    r.rule("sugar_checks", "before the sugar is removed, every child of every node is searched for anonymous components and tuples")
    for q in ("anonymous_components", "tuples"):
        for kind, forms in (("Statement", STMT), ("Expression", EXPR)):
            forms = [v for v in forms if v != "UnderscoreSubstitution" and not (v == "AnonymousComp" and q == "tuples")]       # not built yet, gone already
            sweep(F, r, "sugar_checks", "syntax_sugar_remover::check_%s_%s" % (q, kind.lower()), kind, forms, everything, mod=SUGAR_MOD, handlers=ASK, intr=IS)


def pieces(E, st, name, child, vals, ret):
    """what the removal gives for a child: its new form, and the declarations and statements that have to precede it"""
    s2 = st.fork(); E.event(s2, "failed", (child, STR(name)), 0, E.F.fns[name] if name in E.F.fns else None)
    if name.endswith("statement"): v = mk("tuple", mk("new", child), mk("array", mk("decls", child)), mk("array", mk("vars", child)), mk("array", mk("subs", child)))
    else: v = mk("tuple", mk("array", mk("decls", child)), mk("array", mk("subs", child)), mk("new", child))
    return [(st, OK(v)), (s2, ERR(mk("err", STR(name), child)))]


BUILD = {r"ast::build_\w+$|expression_builders::build_\w+$|statement_builders::build_\w+$": pure(lambda *a: mk("node", *a)), r"FileLibrary::get_line$|FileLibrary::\w+$": opaque("lib"),
         r"syntax_sugar_remover::\w+_error$": opaque("report"), r"format$": opaque("text"), r"to_string$": opaque("text")}


def sugar_removal(F, r):
    r.rule("sugar_removal", "anonymous components are removed from every nested statement and every assigned expression; the new form, the declarations and the "
                            "statements a child gives rise to are all part of the result")
    m = "syntax_sugar_remover::"
    H = re.compile(r"remove_anonymous_from_(statement|expression)$")
    for fn, kind, forms, need in (("remove_anonymous_from_statement", "Statement", NEST + ("Substitution", "MultSubstitution"), lambda v, k: stmts_only(v, k) or k == "rhe"),
                                  ("remove_anonymous_from_expression", "Expression", ("ArrayInLine", "Tuple"), everything)):
        f = F.find(m + fn); r.fn(f)
        V = Visits(F, re.escape(m), intr={**META, **IS, **BUILD}, result=pieces, inline=lambda name, child: not H.search(name))
        for v in forms:
            try: ps, kids = V.run(f, kind, v)
            except (Anchor, Budget) as e: r.notes.append("%s on %s: undecided (%s)" % (fn, v, str(e)[:90])); continue
            r.paths(len(ps))
            for k, t in kids.items():
                if not need(v, k): continue
                for p in ps:
                    if p.variant() == "Err" or p.events("^failed$"): continue
                    if not any(e[1][0] is t for e in p.events("^visit$")): msg = "does not look at"; break
                    lost = [w for w in ("new", "decls", "vars", "subs") if (w != "vars" or kind == "Statement" and k != "rhe") and not contains(p.v, lambda x: x.op == w and x.a[0] is t)]
                    if v == "While": lost = [w for w in lost if not (w in ("vars", "subs"))] if any_empty(p, t) else lost
                    if lost: msg = "loses the %s of" % "/".join(lost); break
                else: p = None
                r.check("sugar_removal", "%s on %s: %s" % (fn, v, k), p is None, r.where(f), "%s %s %s of %s (path %s)" % (fn, p and msg, k, v, p and p.show()))


def any_empty(p, t): return any(c[0] in ("bool", "empty") and contains(c[1], lambda x: x.op == "decls") for c in p.conds)


def tuple_removal(F, r):
    r.rule("tuple_removal", "tuples are removed from every nested statement and every assigned expression")
    m = "syntax_sugar_remover::"
    sweep(F, r, "tuple_removal", m + "remove_tuples_from_statement", "Statement", NEST + ("Substitution", "MultSubstitution"),
          lambda v, k: stmts_only(v, k) or k in ("lhe", "rhe"), handlers=r"remove_tuples?_from_(statement|expression)$", changed=True)


# ------------------------------------------------------------------------------------------------- decorators
def constants(F, r):
    r.rule("constants", "the constants of functions and buses are searched, checked and expanded in every nested statement and expression")
    m = "constants_handler::"
    env = {r"environment::\w+(::<[^>]*>)?::\w+$": opaque("env"), r"expression_builders::build_\w+$": pure(lambda *a: mk("node", *a)), r"constants_handler::broken_invariant_error$": opaque("unit"),
           r"constants_handler::apply_inference$": opaque("unit")}
    sweep(F, r, "constants", m + "statement_constant_inference", "Statement", ("IfThenElse", "While", "Block"), stmts_only, handlers="statement_constant_inference$", intr=env)
    sweep(F, r, "constants", m + "statement_invariant_check", "Statement", ("IfThenElse", "While", "Block"), stmts_only, handlers="statement_invariant_check$", intr=env)
    for kind, forms in (("Statement", LEFT_S + ("UnderscoreSubstitution",)), ("Expression", LEFT_E)):
        sweep(F, r, "constants", m + "expand_" + kind.lower(), kind, forms, everything, handlers="expand_(statement|expression)$", intr=env, changed=True)
    f = F.find(m + "has_constant_value")
    V = Visits(F, re.escape(m), intr={**META, **env}, inline=lambda name, child: not name.endswith("has_constant_value")); r.fn(f)
    for v in LEFT_E:
        if v in ("ArrayInLine", "UniformArray", "BusCall", "Variable", "Number"): continue          # never constant; decided by the name; always constant
        ps, kids = V.run(f, "Expression", v)
        for p in ps:
            seen = {e[1][0] for e in p.events("^visit$")}; no = [c for c in p.conds if c[0] == "child" and not c[2]]
            if p.v is TRUE and (no or len(seen) < len(kids)): break
        else: p = None
        r.check("constants", "has_constant_value on %s" % v, p is None, r.where(f), "has_constant_value of a %s answers yes without all its operands being constant (path %s)" % (v, p and p.show()))


def reduction(F, r):
    r.rule("reduction", "the types of symbols are reduced in every nested statement and expression")
    m = "type_reduction::"
    for kind, forms in (("Statement", LEFT_S + ("UnderscoreSubstitution",)), ("Expression", LEFT_E)):
        sweep(F, r, "reduction", m + "reduce_types_in_" + kind.lower(), kind, forms, everything, handlers="reduce_types_in_(statement|expression)$",
              intr={r"environment::\w+(::<[^>]*>)?::\w+$": opaque("env"), r"type_reduction::name_not_found_in_component_error$": opaque("unit")})
    V = Visits(F, re.escape(m), intr={**META, r"environment::\w+(::<[^>]*>)?::\w+$": opaque("env"), r"type_reduction::name_not_found_in_component_error$": opaque("unit")},
               inline=lambda name, child: not re.search("reduce_types_in_(statement|expression)$", name))
    for kind, forms in (("Statement", LEFT_S + ("UnderscoreSubstitution",)), ("Expression", LEFT_E)):
        f = F.find(m + "reduce_types_in_" + kind.lower())
        for v in forms:
            try: ps, kids = V.run(f, kind, v)
            except (Anchor, Budget): continue
            for k, t in kids.items():
                p = next((p for p in ps if any(e[1][0] is t for e in p.events("^visit$")) and not contains(p.v, lambda x: x.op == "res" and x.a[1] is t)), None)
                r.check("reduction", "%s: what is found in %s" % (v, k), p is None, r.where(f), "errors found in %s of a %s are dropped (path %s)" % (k, v, p and p.show()))


# ------------------------------------------------------------------------------------------------- after execution
def dead_code(F, r):
    r.rule("dead_code", "unreached code is removed at every depth and reached code is kept")
    m = "filters::"
    A = {r"Analysis::is_reached$": lambda E, st, name, args, fn, line: NotImplemented}
    sweep(F, r, "dead_code", m + "clean_dead_code", "Statement", ("IfThenElse", "While"), stmts_only, handlers="clean_dead_code$",
          intr={r"modular_arithmetic::as_bool$": opaque("as_bool"), r"UsefulConstants::\w+$": opaque("k")})


def computed(F, r):
    r.rule("computed", "a computed value replaces every expression at every depth; what is inside an expression that is not replaced is visited too")
    m = "filters::"

    def comp(E, st, name, args, fn, line):
        x = E.deref(st, args[-1]); E.event(st, "computed", (x,), line, fn); return [(st, x)]
    for fn, kind, forms in (("apply_computed", "Statement", LEFT_S + ("UnderscoreSubstitution",)), ("apply_computed_expr", "Expression", LEFT_E)):
        V = sweep(F, r, "computed", m + fn, kind, forms, everything, handlers="apply_computed(_expr)?$", intr={r"filters::computed_or_original$": comp})
        f = F.find(m + fn)
        for v in forms:
            try: ps, kids = V.run(f, kind, v)
            except (Anchor, Budget): continue
            for k, t in kids.items():
                if stmts_only(v, k): continue
                p = next((p for p in ps if not any(e[1][0] is t for e in p.events("^computed$"))), None)
                r.check("computed", "%s on %s: value of %s" % (fn, v, k), p is None, r.where(f), "%s does not replace %s of %s by its computed value (path %s)" % (fn, k, v, p and p.show()))


def dimensions(F, r):
    r.rule("dimensions", "dimensions are computed for the declarations of every nested statement")
    m = "compute_constants::"
    st = {r"compute_constants::(treat_dimension|treat_expression|transform_big_int_to_usize|report_invalid_dimension)$": opaque("x")}
    other = lambda p, t: any(c[0] == "notin" and c[1] is t for c in p.conds) and not any(c[0] == "is" and c[1] is t and c[2] in ("Declaration", "Substitution") for c in p.conds)
    sweep(F, r, "dimensions", m + "treat_statement", "Statement", NEST, stmts_only, handlers="treat_(statement|declaration|substitution)$", intr=st, accept=other)
    V = Visits(F, re.escape(m), intr={**META, r"compute_constants::report_invalid_dimension$": opaque("x")}, inline=lambda name, child: not re.search("treat_dimension$", name))
    f = F.find(m + "treat_declaration"); r.fn(f)
    for x in [v[0] for v in F.adts[adt_id(F, "VariableType")]["variants"]]:
        if x == "AnonymousComponent": continue                                # its single dimension is the counter of a loop
        ps, kids = V.run(f, "Statement", "Declaration", xtype=build(F, "VariableType", x)); r.paths(len(ps))
        p = next((p for p in ps if any(not any(e[1][0] is t for e in p.events("^visit$")) for t in kids.values())), None)
        r.check("dimensions", "%s declaration" % x, p is None, r.where(f), "not every dimension of a %s is computed (path %s)" % (x, p and p.show()))


# ------------------------------------------------------------------------------------------------- lowering
def expansion(F, r):
    r.rule("expansion", "calls, arrays and inline conditionals are taken out of every expression of every statement")
    X = {r"sugar_cleaner::(map_substitutions|map_constraint_equalities|map_returns|map_init_blocks|sugar_filter|rmv_sugar|into_block|into_block_with)$": opaque("unit"), r"[sS]tate::produce_id$": opaque("id"),
         r"environment::\w+(::<[^>]*>)?::\w+$": opaque("env"), r"expression_impl::<impl [^>]*>::(is|contains)_\w+$": is_ask}
    m = "sugar_cleaner::"
    sweep(F, r, "expansion", m + "extend_statement", "Statement", tuple(v for v in LEFT_S if v not in ("InitializationBlock", "Declaration")), everything, handlers="extend_(statement|expression)$", intr=X)
    sweep(F, r, "expansion", m + "extend_expression", "Expression", tuple(v for v in LEFT_E if v not in ("BusCall",)), everything, handlers="extend_(statement|expression)$", intr=X)

    r.rule("extraction", "a call, an array or an inline conditional that is an operand, an index, an argument, a condition or an element is taken out into a variable of its own")

    def filt(E, st, name, args, fn, line):
        E.event(st, "filtered", (E.deref(st, args[0]),), line, fn); return [(st, UNIT)]
    Y = {**X}; Y = {k: v for k, v in Y.items() if "sugar_filter" not in k}
    Y[r"sugar_cleaner::sugar_filter$"] = filt
    Y[r"sugar_cleaner::(map_substitutions|map_constraint_equalities|map_returns|map_init_blocks|rmv_sugar|into_block|into_block_with)$"] = opaque("unit")
    single = {"IfThenElse": ("cond",), "While": ("cond",), "LogCall": ("args",), "Assert": ("arg",), "ConstraintEquality": ("lhe", "rhe"), "Substitution": ("access",)}
    V = Visits(F, re.escape(m), intr={**META, **Y}, inline=lambda name, child: not re.search("extend_(statement|expression)$", name))
    for kind, forms in (("Statement", tuple(single)), ("Expression", tuple(v for v in LEFT_E if v not in ("BusCall", "Number")))):
        f = F.find(m + "extend_" + kind.lower()); r.fn(f)
        for v in forms:
            try: ps, kids = V.run(f, kind, v)
            except (Anchor, Budget) as e: r.notes.append("extraction in %s: undecided (%s)" % (v, str(e)[:80])); continue
            r.paths(len(ps))
            for k, t in kids.items():
                if kind == "Statement" and not k.rstrip("0123456789") in single[v]: continue
                p = next((p for p in ps if not any(contains(e[1][0], t) for e in p.events("^filtered$"))
                          and not (v == "ConstraintEquality" and any(c[0] == "bool" and c[2] and c[1].op == "ask" and "is_array" in c[1].a[0].a[0] and contains(c[1], t) for c in p.conds))), None)
                r.check("extraction", "%s: %s" % (v, k), p is None and bool(ps), r.where(f), "%s of a %s is not taken out when it is a call, an array or a conditional (path %s)" % (k, v, p and p.show()))
    g = F.find(m + "sugar_filter"); r.fn(g)
    E_ = adt_id(F, "Expression")
    for v in ("Call", "InlineSwitchOp", "ArrayInLine", "UniformArray"):
        V = Visits(F, re.escape(m), intr={**META, r"[sS]tate::produce_id$": opaque("id"), r"sugar_cleaner::rmv_sugar$": pure(lambda *a: mk("fresh", *a))})
        st = St(); node, _ = children(F, "Expression", v); V.root = node; V.kids = {}
        for n, t in (("e", mk("array", node)), ("s", PARAM("p.state")), ("i", mk("array"))): st.mem[("H", n)] = t
        ps, _e = explore(F, g, [mk("ref", ("H", n), ()) for n in "esi"], intr=V.I, st=st)
        out = [p.st.mem[("H", "e")] for p in ps]
        r.check("extraction", "sugar_filter on %s" % v, bool(out) and all(contains(o, lambda x: x.op == "fresh") for o in out), r.where(g), "sugar_filter does not take out a %s" % v)


def inferred(F, r):
    r.rule("inferred", "the type of the result of a function is searched in every nested statement")
    m = "type_inference::"
    env = {r"environment::\w+(::<[^>]*>)?::\w+$": opaque("env")}
    f = F.find(m + "infer_type_stmt")
    V = Visits(F, re.escape(m), intr={**META, **env}, inline=lambda name, child: not name.endswith("infer_type_stmt")); r.fn(f)
    for v in ("IfThenElse", "While", "Block"):
        ps, kids = V.run(f, "Statement", v); r.paths(len(ps))
        for k, t in kids.items():
            if not stmts_only(v, k): continue
            p = next((p for p in ps if p.variant() == "None" and not any(e[1][0] is t for e in p.events("^visit$"))), None)
            r.check("inferred", "%s: %s" % (v, k), p is None, r.where(f), "infer_type_stmt gives up on a %s without searching %s (path %s)" % (v, k, p and p.show()))


LATE = {r"expression_impl::<impl [^>]*>::is_call$": lambda E, st, name, args, fn, line: [(st, FALSE)] if E.deref(st, args[0]).op != "adt" else NotImplemented,
        r"Meta::get_memory_knowledge$|get_concrete_dimensions$|Iterator>?::fold$": opaque("size"),
        r"ProcessedSymbol::into_\w+$|Bucket as [^>]*>::(allocate|to_string)$|allocate$|FileLibrary::\w+$|translate::(indexing_instructions_filter|get_expression_size|check_tag_access|get_variable_size|bigint_to_cid)$": opaque("code"),
        r"environment::\w+(::<[^>]*>)?::\w+$": opaque("env")}


def translation(F, r):
    r.rule("translation", "every nested statement and every expression and index is translated")
    m = "translate::"
    box = {}

    def symbol(E, st, name, args, fn, line):
        x = E.deref(st, args[0])
        for t in box["V"].kids_in(x): E.event(st, "visit", (t, STR(name)), line, fn)
        return [(st, mk("symbol", x))]
    gone_s, gone_e = ("InitializationBlock", "UnderscoreSubstitution", "MultSubstitution"), ("InlineSwitchOp", "ParallelOp", "BusCall", "ArrayInLine", "UniformArray", "Tuple", "AnonymousComp")
    for kind, forms in (("Statement", tuple(v for v in STMT if v not in gone_s)), ("Expression", tuple(v for v in EXPR if v not in gone_e))):
        f = F.find(m + "translate_" + kind.lower()); r.fn(f)
        V = box["V"] = Visits(F, re.escape(m), intr={**META, **LATE, r"ProcessedSymbol::new$": symbol}, inline=lambda name, child: not re.search("translate_(statement|expression)$", name))
        for v in forms:
            try: ps, kids = V.run(f, kind, v)
            except (Anchor, Budget) as e: r.notes.append("%s on %s: undecided (%s)" % (f.id, v, str(e)[:90])); continue
            r.paths(len(ps))
            for k, t in kids.items():
                if v == "Declaration": continue                                  # computed already
                p = next((p for p in ps if not any(e[1][0] is t for e in p.events("^visit$")) and not any(c[0] == "is" and c[2] == "Some" and c[1].op == "code" for c in p.conds)), None)
                r.check("translation", "%s: %s" % (v, k), p is None and bool(ps), r.where(f), "%s of a %s is not translated (path %s)" % (k, v, p and p.show()))


def loops(F, r):
    r.rule("loops", "what the condition of a loop needs is evaluated before the loop and again after every iteration; what a branch or body needs stays in it")
    f = F.find("sugar_cleaner::extend_statement"); r.fn(f)
    S = adt_id(F, "Statement")
    syn = adt_id(F, "ExtendedSyntax")

    def res(E, st, name, child, vals, ret):
        s = mk("inits", child)
        if name.endswith("extend_statement"): return [(st, mk("array", mk("decl", child)))]
        return [(st, ADT(syn, "ExtendedSyntax", (("initializations", mk("array", mk("decl", child), s)),)))]
    X = {r"sugar_cleaner::(map_substitutions|map_constraint_equalities|map_returns|map_init_blocks|sugar_filter)$": opaque("unit"), r"[sS]tate::produce_id$": opaque("id"),
         r"statement_impl::<impl [^>]*>::is_substitution$": lambda E, st, name, args, fn, line: [(st, TRUE if E.deref(st, args[0]).op == "inits" else FALSE)],
         r"statement_impl::<impl [^>]*>::is_block$": is_ask, r"expression_impl::<impl [^>]*>::(is|contains)_\w+$": is_ask}
    V = Visits(F, r"sugar_cleaner::", intr={**META, **X}, result=res, inline=lambda name, child: not re.search("extend_(statement|expression)$", name))
    ps, kids = V.run(f, "Statement", "While"); r.paths(len(ps))
    c, b = kids["cond"], kids["stmt"]
    it = lambda t, x: contains(t, lambda y: y.op == "inits" and y.a[0] is x)
    bad = next((p for p in ps if not it(p.v, c)), None)
    r.check("loops", "before", bad is None and bool(ps), r.where(f), "what the condition of a loop needs is not evaluated before it")
    bad = next((p for p in ps if not it(mk("both", V.arg(p, 0), p.st.mem.get(("T", b), UNIT)), c)), None)
    r.check("loops", "again", bad is None, r.where(f), "what the condition of a loop needs is not evaluated again in its body (path %s)" % (bad and bad.show()))
