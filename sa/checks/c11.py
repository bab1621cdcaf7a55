"""C11: every command-line option reaches the behaviour it names."""
from ..exec_model import *
from ..paths import explore, contains, subterms, path_intrinsics
from .. import maps, strs
from ..mir import cname

# long option -> (short, takes a value, default, may be repeated)
OPTIONS = {"O0": (None, False, None), "O1": (None, False, None), "O2": (None, False, None), "O2round": (None, True, None), "output": ("o", True, "."), "json": (None, False, None),
           "irout": (None, False, None), "inspect": (None, False, None), "simplification_substitution": (None, False, None), "sym": (None, False, None), "r1cs": (None, False, None),
           "wasm": (None, False, None), "wat": (None, False, None), "no_asm": (None, False, None), "sanity_check": (None, True, "2"), "c": ("c", False, None), "parallel": (None, False, None),
           "inputs": (None, False, None), "verbose": (None, False, None), "no_init": (None, False, None), "use_old_simplification_heuristics": (None, False, None), "prime": ("p", True, "bn128"),
           "l": ("l", True, None), "INPUT": (None, True, "./circuit.circom")}
PRIMES = ("bn128", "bls12377", "bls12381", "goldilocks", "grumpkin", "pallas", "secq256r1", "vesta")
FLAGS = [o for o, v in OPTIONS.items() if not v[1]]


def run(F, r):
    r.do(F, options, scenarios, rejected, simplifier, producers, no_init)


# ------------------------------------------------------------------------------------------------- what is declared
def declared(F, r=None):
    """(long -> settings, internal name -> long) from the builder of the command line"""
    f = F.find("input_processing::view"); A = r"clap::args::arg::Arg::<.*>::"
    if r: r.fn(f)

    def named(E, st, name, args, fn, line): return [(st, mk("arg", E.deref(st, args[0])))]

    def chain(what):
        def h(E, st, name, args, fn, line): return [(st, mk("set", E.deref(st, args[0]), STR(what), E.deref(st, args[1]) if len(args) > 1 else UNIT))]
        return h

    def add(E, st, name, args, fn, line):
        for a in args[1:]:
            t = E.deref(st, a)
            for x in (t.a if t.op == "array" else (t,)): E.event(st, "arg", (x,), line, fn)
        return [(st, mk("app"))]
    I = {**maps.intrinsics(), A + r"(with_name|new)$": named, r"clap::app::App::<.*>::(arg|args)$": add, r"clap::app::App::<.*>::get_matches$": lambda E, st, name, args, fn, line: [(st, PARAM("matches"))],
         r"clap::app::App::<.*>::\w+$": lambda E, st, name, args, fn, line: [(st, mk("app"))]}
    for w in ("long", "short", "takes_value", "default_value", "multiple", "number_of_values", "hidden", "help", "display_order", "required", "index", "alias", "possible_values", "conflicts_with", "requires", "value_name", "overrides_with"):
        I[A + w + "$"] = chain(w)
    ps, E = explore(F, f, [], intr=I)
    if len(ps) != 1: raise Anchor("command line of circom")
    out, names = {}, {}
    for e in ps[0].events("^arg$"):
        t = e[1][0]; s = {}
        while t.op == "set": s.setdefault(t.a[1].a[0], t.a[2]); t = t.a[0]
        if t.op != "arg" or t.a[0].op != "str": raise Anchor("an option of the command line")
        g = lambda k: s[k].a[0] if k in s and s[k].op in ("str", "int") else (s[k] is TRUE if k in s else None)
        long, short = g("long"), g("short")
        key = long or (short and short.strip("-")[:1]) or "INPUT"
        out[key] = {"name": t.a[0].a[0], "short": short and short.strip("-")[:1], "value": bool(g("takes_value")) or key == "INPUT", "default": g("default_value"), "multiple": bool(g("multiple")), "extra": set(s)}
        names[t.a[0].a[0]] = key
    return f, out, names, len(ps[0].events("^arg$"))


def options(F, r):
    r.rule("options", "the documented options exist under their names, take a value where documented, and have the documented defaults")
    f, out, names, n = declared(F, r); r.paths(1)
    for o, (short, value, default) in OPTIONS.items():
        x = out.get(o)
        r.check("options", o, x is not None, r.where(f), "there is no option %s" % o)
        if x is None: continue
        r.check("options", o + ": value", x["value"] == value, r.where(f), "option %s %s a value" % (o, "does not take" if value else "takes"))
        r.check("options", o + ": default", x["default"] == default, r.where(f), "option %s is %s by default, not %s" % (o, x["default"], default))
        if short: r.check("options", o + ": short", x["short"] == short, r.where(f), "option %s is -%s, not -%s" % (o, x["short"], short))
    shorts = [x["short"] for x in out.values() if x["short"]]
    r.check("options", "no name twice", len(set(shorts)) == len(shorts) and len(names) == n and len(out) == n, r.where(f), "two options share a name")
    r.check("options", "-l repeats", "l" in out and out["l"]["multiple"], r.where(f), "-l cannot be given more than once")


# ------------------------------------------------------------------------------------------------- what a command line does
def record(tag, result):
    def h(E, st, name, args, fn, line):
        E.event(st, tag, tuple(E.deref(st, a) for a in args), line, fn)
        return [(st, result(*[E.deref(st, a) for a in args]) if callable(result) else result)]
    return h


def interpret(F, names, given, stem="foo", exists=True, isdir=True):
    """the paths of circom::start for one command line: given = {long: value or True}"""
    f = F.find("circom::start")
    opt = lambda E, st, args: names.get(E.deref(st, args[1]).a[0]) if E.deref(st, args[1]).op == "str" else None
    default = {o: v[2] for o, v in OPTIONS.items() if v[2] is not None}

    def need(x, what):
        if x is None: raise Anchor("option asked for with a computed name" if what is None else what)
        return x

    def present(E, st, name, args, fn, line):
        o = need(opt(E, st, args), None); return [(st, TRUE if o in given or o in default else FALSE)]

    def count(E, st, name, args, fn, line):
        o = need(opt(E, st, args), None); v = given.get(o)
        return [(st, INT(0 if v is None else len(v) if isinstance(v, (list, tuple)) else 1))]

    def value(E, st, name, args, fn, line):
        o = need(opt(E, st, args), None); v = given.get(o, default.get(o)); E.event(st, "asked", (STR(o),), line, fn)
        if isinstance(v, (list, tuple)): v = v[0]
        return [(st, SOME(STR(v)) if isinstance(v, str) else NONE)]

    def values(E, st, name, args, fn, line):
        o = need(opt(E, st, args), None); v = given.get(o, default.get(o))
        if v is None: return [(st, NONE)]
        return [(st, SOME(mk("iter", mk("array", *[STR(x) for x in (v if isinstance(v, (list, tuple)) else [v])]))))]

    def radix(E, st, name, args, fn, line):
        v = E.deref(st, args[0])
        if v.op != "str": return NotImplemented
        return [(st, OK(INT(int(v.a[0]))) if re.fullmatch(r"\+?\d+", v.a[0]) else ERR(mk("err", STR("parse"))))]
    X = r"(constraint_generation|dag|constraint_writers|compiler)::"
    same = pure(lambda x: x)
    unit = lambda E, st, name, args, fn, line: [(st, UNIT)]
    fx = {}
    for n in ("FlagsExecution",): pass
    I = {**maps.intrinsics(), **path_intrinsics(), **strs.intrinsics(), r"ArgMatches::<.*>::occurrences_of(::<.*>)?$": count,
         r"input_processing::view$": lambda E, st, name, args, fn, line: [(st, PARAM("matches"))],
         r"ArgMatches::<.*>::is_present(::<.*>)?$": present, r"ArgMatches::<.*>::value_of(::<.*>)?$": value, r"ArgMatches::<.*>::(values_of|value_of_lossy)(::<.*>)?$": values,
         r"Path::(is_file|exists)$": lambda E, st, name, args, fn, line: [(st, TRUE if exists else FALSE)], r"Path::is_dir$": lambda E, st, name, args, fn, line: [(st, TRUE if isdir else FALSE)],
         r"Path::new(::<.*>)?$|Path::to_path_buf$|PathBuf::as_path$|OsStr::to_os_string$|PathBuf as .*from$|Path::as_os_str$": same,
         r"Path::file_stem$": lambda E, st, name, args, fn, line: [(st, SOME(STR(stem)))], r"OsStr::to_str$|Path::to_str$": lambda E, st, name, args, fn, line: [(st, SOME(E.deref(st, args[0])))],
         r"from_str_radix$|<impl str>::parse(::<.*>)?$": radix, r"Colour::\w+$|ansi_term::.*": pure(lambda *a: mk("text", *a)), r"std::io::stdio::_e?print$": unit,
         r"Report::print_reports$": record("print", UNIT), r"UsefulConstants::new$": pure(lambda x: mk("constants", x)), r"UsefulConstants::get_p$": pure(lambda x: mk("modulus", x)),
         r"parser::run_parser$": record("parse", OK(mk("tuple", PARAM("program"), mk("warnings", STR("parse"))))), r"check_types::check_types$": record("check", OK(mk("warnings", STR("types")))),
         r"execute::constraint_execution$": record("execute", OK(mk("tuple", PARAM("exe"), mk("warnings", STR("execution"))))),
         r"ExecutedProgram::export$": record("export", OK(mk("tuple", PARAM("dag"), PARAM("vcp"), mk("warnings", STR("inspection"))))), r"ExecutedProgram::number_of_nodes$": pure(lambda *a: mk("number", *a)),
         r"DAG::produce_witness$": record("dag witness", mk("witness", STR("dag"))), r"DAG::map_to_list$": record("simplify", PARAM("list")), r"ConstraintList::get_witness_as_vec$": pure(lambda *a: mk("witness", STR("list"))),
         r"VCP::add_witness_list$": record("witness", UNIT), r"SubstitutionJSON::new$": record("substitutions", OK(PARAM("log"))), r"SubstitutionJSON::end$": lambda E, st, name, args, fn, line: [(st, OK(UNIT))],
         r"DebugWriter::new$": lambda E, st, name, args, fn, line: [(st, OK(mk("debug", E.deref(st, args[0]))))],
         r"ConstraintExporter(>)?::r1cs$": record("r1cs", OK(UNIT)), r"ConstraintExporter(>)?::sym$": record("sym", OK(UNIT)), r"ConstraintExporter(>)?::json_constraints$": record("json", OK(UNIT)),
         r"Circuit::build$": record("build", PARAM("circuit")), r"Circuit::produce_(wasm|c)$": lambda E, st, name, args, fn, line: (E.event(st, name[-4:].strip("_:").replace("ce_c", "c"), tuple(E.deref(st, a) for a in args), line, fn), [(st, OK(UNIT))])[1],
         r"compiler_interface::produce_debug_output$": record("debug", OK(UNIT)), r"compilation_user::wat_to_wasm$": record("wasm file", OK(UNIT)),
         r"fs::remove_file(::<.*>)?$": record("remove", OK(UNIT)), r"fs::(remove_dir_all|create_dir|create_dir_all)(::<.*>)?$": record("folder", OK(UNIT)), r"fs::File::create(::<.*>)?$": lambda E, st, name, args, fn, line: [(st, OK(mk("file", E.deref(st, args[0]))))],
         r"BufWriter::<.*>::new$": pure(lambda x: mk("buffer", x)), r"file_library|FileLibrary::\w+$": pure(lambda *a: mk("files", *a))}
    ps, E = explore(F, f, [], intr=I, loop_visits=6, max_paths=4000)
    return f, ps


def expected(given):
    """what a valid command line must do"""
    out = {}
    stem = given.get("_stem", "foo")
    if "c" in given and stem in ("main", "fr", "calcwit"): stem += "_c"
    dirn = given.get("output", ".")
    file = lambda *n: ("path", dirn) + n
    rounds = given.get("O2round")
    o0 = "O0" in given; o1 = not o0 and "O1" in given
    if o0 or o1: style = "O0" if o0 else "O1"
    elif rounds is not None: style = "O1" if int(rounds) == 0 else ("O2", int(rounds))
    elif "O2" in given: style = ("O2", None)
    else: style = "O1"
    out["style"] = style
    out["prime"] = given.get("prime", "bn128")
    out["sanity"] = int(given.get("sanity_check", "2"))
    out["stem"] = stem; out["file"] = file
    return out


def plain(t):
    if t.op == "str" or t.op == "int": return t.a[0]
    if t.op == "path": return ("path",) + tuple(plain(x) for x in t.a)
    if t.op in ("cat", "fmt") or "::" in t.op: raise Anchor("computed name %s" % str(t)[:80])
    return t


def fields(t): return dict(t.a[2]) if t.op == "adt" else {}


def judge(p, given):
    """what is wrong with this path for this command line"""
    x = expected(given); bad = []
    B = lambda o: TRUE if o in given else FALSE
    one = lambda tag: (p.events("^%s$" % tag) or [None])
    file, stem = x["file"], x["stem"]

    def want(cond, msg):
        if not cond: bad.append(msg)

    def flag(fl, name, val, what):
        v = next((fl[n] for n in name if n in fl), None)
        if v is None: raise Anchor("field for %s" % what)
        want(v is val, "%s is %s" % (what, v))
    if p.variant() != "Ok": return ["a valid command line is rejected"]
    ev = one("parse")[0]
    if ev is None: return ["nothing is parsed"]
    a = ev[1]; libs = given.get("l", [])
    want(any(plain(v) == given.get("INPUT", "./circuit.circom") for v in a), "another file than the given one is parsed")
    want(any(v.op == "array" and [plain(y) for y in v.a] == list(libs) for v in a), "the link libraries given to the parser are not those of -l, in order")
    want(any(contains(v, mk("modulus", mk("constants", STR(x["prime"])))) for v in a), "constants are not parsed in the field of %s" % x["prime"])
    want(a[-1] is B("no_init") or sum(v is TRUE for v in a) == ("no_init" in given), "--no_init does not decide the initialisation of variables")
    ex = one("execute")[0]; fl = next((fields(v) for v in ex[1] if v.op == "adt"), {})
    flag(fl, ["verbose", "flag_verbose"], B("verbose"), "the verbosity of the execution"); flag(fl, ["inspect", "inspect_constraints"], B("inspect"), "the inspection during the execution")
    want(any(plain(v) == x["prime"] for v in ex[1]), "the circuit is not executed over %s" % x["prime"])
    ep = one("export")[0]
    for v in ep[1]:
        if v.op == "adt": flag(fields(v), ["inspect", "inspect_constraints"], B("inspect"), "the inspection of templates")
    want(any(e[1][0] is mk("warnings", STR("inspection")) for e in p.events("^print$")) == ("inspect" in given), "the warnings of the inspection are %s" % ("not shown" if "inspect" in given else "shown without --inspect"))
    for w in ("parse", "types", "execution"): want(any(contains(e[1][0], mk("warnings", STR(w))) for e in p.events("^print$")), "the %s warnings are not shown" % w)
    # simplification
    sim = p.events("^simplify$")
    if x["style"] == "O0":
        want(not sim, "the circuit is simplified with --O0")
        want([e[1][1] for e in p.events("^witness$")] == [mk("witness", STR("dag"))] or any(contains(v, mk("witness", STR("dag"))) for e in p.events("^witness$") for v in e[1]), "the witness is not that of the circuit")
        ss = p.events("^substitutions$")
        want(bool(ss) == ("simplification_substitution" in given), "the (empty) log of substitutions is %s" % ("missing" if not ss else "written without being asked for"))
        for e in ss: want(plain(e[1][0]) == file(stem + "_substitutions.json"), "substitutions go to %s" % (plain(e[1][0]),))
        model = PARAM("dag")
    else:
        want(len(sim) == 1, "the circuit is not simplified")
        if sim:
            fl = next((fields(v) for v in sim[0][1] if v.op == "adt"), {})
            flag(fl, ["flag_s"], TRUE if x["style"] == "O1" else FALSE, "the restriction to --O1"); flag(fl, ["parallel_flag"], B("parallel"), "parallel simplification")
            flag(fl, ["port_substitution"], B("simplification_substitution"), "the log of substitutions"); flag(fl, ["flag_old_heuristics"], B("use_old_simplification_heuristics"), "the choice of heuristics")
            want(plain(fl.get("json_substitutions", UNIT)) == file(stem + "_substitutions.json"), "substitutions go to another file"); want(plain(fl.get("prime", STR(x["prime"]))) == x["prime"], "the simplification works over another prime")
            rounds = fl.get("no_rounds")
            if rounds is None: raise Anchor("number of rounds")
            if x["style"] != "O1":
                n = x["style"][1]
                want(plain(rounds) == n if n is not None else (rounds.op != "int" or rounds.a[0] >= 2 ** 31), "%s rounds of simplification instead of %s" % (plain(rounds), n or "as many as needed"))
        want(any(contains(v, mk("witness", STR("list"))) for e in p.events("^witness$") for v in e[1]), "the witness is not that of the simplified circuit")
        want(not p.events("^substitutions$"), "the log of substitutions is overwritten")
        model = PARAM("list")
    # constraint outputs
    for o, tag, n in (("r1cs", "r1cs", stem + ".r1cs"), ("sym", "sym", stem + ".sym"), ("json", "json", stem + "_constraints.json")):
        es = p.events("^%s$" % tag)
        want(len(es) == (1 if o in given else 0), "--%s: %s" % (o, "not written" if not es else "written %d times" % len(es)))
        for e in es:
            want(contains(e[1][0], model), "--%s writes another circuit" % o)
            target = e[1][1]
            want(any(plain(y) == file(n) for y in subterms(target)), "--%s goes to %s" % (o, plain(target)))
            if o == "r1cs": want(len(e[1]) < 3 or contains(e[1][2], PARAM("program")), "custom gates are not those of the program")
    # code
    code = [o for o in ("c", "wasm", "wat") if o in given]; bs = p.events("^build$")
    want(len(bs) == (1 if code else 0), "code is %s" % ("not generated" if code else "generated without being asked for"))
    for e in bs:
        fl = next((fields(v) for v in e[1] if v.op == "adt"), {})
        flag(fl, ["main_inputs_log"], B("inputs"), "the log of inputs"); flag(fl, ["wat_flag"], B("wat"), "the text form"); flag(fl, ["no_asm_flag"], B("no_asm"), "the choice of assembly")
        flag(fl, ["sanity_check_style"], INT(x["sanity"]), "the level of sanity checks"); want(e[1][0] is PARAM("vcp") or contains(e[1][0], PARAM("vcp")), "code is generated for another circuit")
    want(bool(p.events("^debug$")) == ("irout" in given and bool(code)), "--irout does not decide the listing of the intermediate representation")
    cs = p.events("^c$"); want(len(cs) == ("c" in given), "--c: C++ is %s" % ("not written" if not cs else "written"))
    cdir = file(stem + "_cpp")
    for e in cs:
        got = [plain(v) for v in e[1]]
        want(cdir in got and stem in got, "C++ goes to another folder or gets another name")
        files = [plain(y.a[0]) for v in e[1] for y in subterms(v) if y.op == "file"]
        want(files == [cdir + (stem + ".cpp",), cdir + (stem + ".dat",)], "C++ files are %s" % files)
    ws = p.events("^wasm$"); js = file(stem + "_js"); w = js + (stem + ".wat",); m = js + (stem + ".wasm",)
    want(len(ws) == (1 if "wasm" in given or "wat" in given else 0), "the WebAssembly text is %s" % ("not written" if not ws else "written"))
    for e in ws:
        got = [plain(v) for v in e[1]]; want(js in got and stem in got, "WebAssembly goes to another folder or gets another name")
        want([plain(y.a[0]) for v in e[1] for y in subterms(v) if y.op == "file"] == [w], "the WebAssembly text goes elsewhere")
    bn = p.events("^wasm file$"); want(len(bn) == ("wasm" in given), "--wasm: the binary is %s" % ("not written" if not bn else "written"))
    for e in bn: want([plain(v) for v in e[1]] == [w, m], "the binary is not that of the text, in its place")
    rm = [plain(e[1][0]) for e in p.events("^remove$")]
    want(rm == ([w] if "wasm" in given and "wat" not in given else []), "--wat: the text is %s" % ("removed" if rm else "kept"))
    want(not rm or not bn or p.st is None or order(p, "wasm file", "remove"), "the text is removed before it is translated")
    folders = {plain(e[1][0]) for e in p.events("^folder$")}
    want(folders <= ({cdir} if cs else set()) | ({js} if ws else set()), "a folder is written or removed that was not asked for")
    return bad


def order(p, a, b):
    ts = [e[0] for e in p.events("^(%s|%s)$" % (a, b))]
    return ts.index(a) < ts.index(b) if a in ts and b in ts else True


VALUES = {"O2round": ("0", "1", "7"), "output": ("out",), "sanity_check": ("0", "1", "2", "3"), "prime": PRIMES, "l": (("libs",), ("libs", "more")), "INPUT": ("dir/foo.circom",)}


def scenarios(F, r):
    r.rule("scenarios", "no option, every single option (with every value), every pair, and all flags at once: the phases are called with what the given options mean, outputs go to their files and nothing else happens")
    f, out, names, n = declared(F)
    single = [{o: True} for o in FLAGS] + [{o: v} for o, vs in VALUES.items() for v in vs]
    sc = [{}] + single
    for i, a in enumerate(single):
        for b in single[i + 1:]:
            if set(a) & set(b): continue
            sc.append({**a, **b})
    every = {o: True for o in FLAGS}
    sc += [every, {o: True for o in FLAGS if o not in ("O0",)}, {o: True for o in FLAGS if o not in ("O0", "O1")}, {**{o: True for o in FLAGS if o not in ("O0", "O1")}, "O2round": "3", "prime": "pallas", "sanity_check": "0", "l": ("a", "b"), "output": "out"}]
    for k in ("main", "fr", "calcwit", "other"): sc += [{"_stem": k}, {"_stem": k, "c": True}, {"_stem": k, "c": True, "wasm": True, "r1cs": True}]
    bad = {}; fn = None
    for g in sc:
        fn, ps = interpret(F, names, {k: v for k, v in g.items() if k != "_stem"}, stem=g.get("_stem", "foo")); r.paths(len(ps))
        line = " ".join("--%s%s" % (k, "" if v is True else " " + (v if isinstance(v, str) else " ".join(v))) for k, v in sorted(g.items())) or "no option"
        if not ps: raise Anchor("no path for " + line)
        for p in ps:
            for m in judge(p, g): bad.setdefault(m, []).append(line)
            if len(ps) > 1 and p is not ps[0]: bad.setdefault("the result depends on something else than the options", []).append(line)
    r.fn(fn)
    for g in single: r.check("scenarios", "option " + " ".join("%s %s" % (k, v) for k, v in g.items()), True, r.where(fn), "")
    for m, ls in sorted(bad.items()): r.check("scenarios", m, False, r.where(fn), "%s: with %s" % (m, "; ".join(sorted(ls, key=len)[:3])))
    r.check("scenarios", "command lines", not bad, r.where(fn), "%d command lines do something else than their options mean" % len({l for ls in bad.values() for l in ls})) if bad else r.check("scenarios", "%d command lines" % len(sc), True, r.where(fn), "")
    r.floor("scenarios", len(sc), 300, "command lines")


def rejected(F, r):
    r.rule("rejected", "a file that does not exist, an output folder that does not exist, an unknown prime, a level or a number of rounds that is not one are rejected before anything is done")
    f, out, names, n = declared(F)
    cases = [("no such file", {}, dict(exists=False)), ("no such folder", {"output": "nowhere"}, dict(isdir=False))]
    for v in ("bn254", "BN128", "", "bn128 ", "goldilock", "secp256r1"): cases.append(("prime %r" % v, {"prime": v}, {}))
    for v in ("4", "-1", "", "x", "02"): cases.append(("sanity_check %r" % v, {"sanity_check": v}, {}))
    for v in ("x", "-1", "", "1.5"): cases.append(("O2round %r" % v, {"O2round": v}, {}))
    for what, g, kw in cases:
        for extra in ({}, {"r1cs": True, "c": True}):
            fn, ps = interpret(F, names, {**g, **extra}, **kw); r.paths(len(ps))
            ok = bool(ps) and all(p.variant() == "Err" and not p.events("^(parse|execute|export|simplify|r1cs|sym|json|build|c|wasm|remove|folder|substitutions)$") for p in ps)
            r.check("rejected", what + (" with outputs" if extra else ""), ok, r.where(fn), "%s is accepted" % what)


# ------------------------------------------------------------------------------------------------- further down
def simplifier(F, r):
    r.rule("simplifier", "the simplifier works with the flags it is given, over the field of the chosen prime")
    f = F.find("map_to_constraint_list::map"); r.fn(f)
    SF = adt_id(F, "SimplificationFlags"); fl = F.adts[SF]["variants"][0]
    flags = ADT(SF, fl[0], tuple((x[0], PARAM("flag." + x[0])) for x in fl[2]))
    # only the construction of the simplifier is judged: follow the definitions of its fields
    sid = adt_id(F, "Simplifier"); agg = None
    for b in f.bbs:
        for s in b["s"]:
            if s[1][0] == "agg" and s[1][1] == "adt" and s[1][2] == sid: agg = s[1]
    if agg is None: raise Anchor("construction of the simplifier")
    names = agg[4] if agg[4] and isinstance(agg[4][0], str) else [x[0] for x in F.adts[sid]["variants"][0][2]]
    ops = agg[5]
    pos = next((i + 1 for i in range(f.nargs) if "SimplificationFlags" in f.locals[i + 1][0]), None)
    if pos is None: raise Anchor("flags of the simplifier")

    def source(o, seen=()):
        if o[0] == "c": return ("const",)
        pl = o[1]
        if pl[0] == pos: return tuple(x[2] for x in pl[1:] if isinstance(x, (list, tuple)) and x[0] == "f")
        if len(pl) > 1 or pl[0] in seen: return ("?",)
        out = set()
        for bb, j, kind, x in f.defs().get(pl[0], []):
            if kind == "rv" and x[0] == "use": out.add(source(x[1], seen + (pl[0],)))
            elif kind == "rv" and x[0] == "ref": out.add(source(["cp", x[2]], seen + (pl[0],)))
            elif kind == "call" and cname(x[1][1]).rsplit("::", 1)[-1] in ("clone", "to_string", "into", "to_owned"): out.add(source(x[2][0], seen + (pl[0],)))
            else: out.add(("?",))
        return out.pop() if len(out) == 1 else ("?",)
    by = dict(zip(names, ops))
    for n in ("no_rounds", "flag_s", "parallel_flag", "flag_old_heuristics", "port_substitution", "json_substitutions"):
        if n not in by: r.notes.append("simplifier.%s: undecided" % n); continue
        s = source(by[n])
        if s == ("?",): r.notes.append("simplifier.%s: undecided" % n); continue
        r.check("simplifier", n, s == (n,), r.where(f), "the simplifier takes its %s from %s" % (n, ".".join(s)))


def producers(F, r):
    r.rule("producers", "code is generated with the level of sanity checks, the text flag, the choice of assembly, the log of inputs and the prime it was asked for")
    f = F.find("circuit_design::build::build_circuit"); r.fn(f)
    CF = adt_id(F, "CompilationFlags"); fl = F.adts[CF]["variants"][0]
    flags = ADT(CF, fl[0], tuple((x[0], PARAM("flag." + x[0])) for x in fl[2]))

    def rec(tag): return lambda E, st, name, args, fn, line: (E.event(st, tag, tuple(E.deref(st, a) for a in args), line, fn), [(st, mk("made", STR(tag)))])[1]
    opaque = lambda E, st, name, args, fn, line: [(st, UNIT if E.F.fns.get(name) is not None and E.F.fns[name].locals[0][0] == "()" else mk("made", STR(name.rsplit("::", 1)[-1])))]
    I = {**maps.intrinsics(), r"build::initialize_wasm_producer$": rec("wasm"), r"build::initialize_c_producer$": rec("c"), r"build::write_main_inputs_log\w*$": rec("log"), r"circuit_design::build::\w+$|TemplateDB::\w+$|Circuit::\w+$|\w+::default$|merger::\w+$|CircuitInfo\w*::\w+$": opaque}
    args = []
    for i in range(f.nargs):
        t = f.locals[i + 1][0]
        args.append(flags if "CompilationFlags" in t else STR("2.0.0") if "str" in t else PARAM("vcp"))
    I = {k: v for k, v in I.items() if not f.id.endswith("zzz")}
    I[r"circuit_design::build::(?!build_circuit$)\w+$"] = opaque
    I[r"compiler::ir_processing::.*|compiler::circuit_design::template::TemplateDB::\w+$|compiler::translating_traits::.*|<compiler::.*>::\w+$|code_producers::.*|ConstantTracker|FieldTracker::\w+$"] = opaque
    I = {**{k: v for k, v in I.items() if "initialize" in k or "write_main" in k}, **I}
    ps, E = explore(F, f, args, intr=I, loop_visits=3, max_paths=4000); r.paths(len(ps)); bad = {}
    for p in ps:
        lg = any(c[0] == "bool" and c[1] is PARAM("flag.main_inputs_log") and c[2] for c in p.conds)
        if bool(p.events("^log$")) != lg: bad["inputs"] = "the log of inputs is written %s --inputs" % ("without" if not lg else "not even with")
        for tag, need in (("wasm", ("wat_flag", "sanity_check_style")), ("c", ("no_asm_flag", "sanity_check_style"))):
            es = p.events("^%s$" % tag)
            if len(es) != 1: raise Anchor("construction of the producers")
            if any(v.op == "adt" or v is flags for v in es[0][1]): raise Anchor("the producers take all the options")
            for n in need:
                if PARAM("flag." + n) not in es[0][1]: bad[tag + n] = "the %s producer does not get %s" % (tag, n)
            other = {"wasm": "no_asm_flag", "c": "wat_flag"}[tag]
            if PARAM("flag." + other) in es[0][1]: bad[tag + other] = "the %s producer is given %s" % (tag, other)
    r.check("producers", "build", not bad and bool(ps), r.where(f), "; ".join(bad.values()))
    for tag, need in (("wasm", (("wat_flag", "wat_flag"), ("sanity_check_style", "sanity_check_style"))), ("c", (("no_asm_flag", "no_asm"), ("sanity_check_style", "sanity_check_style")))):
        g = F.find("build::initialize_%s_producer" % tag); r.fn(g); bad = {}
        for flag in (TRUE, FALSE):
            for level in range(4):
                ps, E = producer(F, g, flag, INT(level)); r.paths(len(ps))
                if not ps: raise Anchor("producer of " + tag)
                for p in ps:
                    for arg, field in need:
                        v = E.field(p.st, p.v, field) if hasattr(E, "field") else dict(p.v.a[1]).get(field)
                        w = flag if arg.endswith("flag") else INT(level)
                        if v is None or v.op not in ("int", "bool"): bad[field] = None
                        elif v is not w: bad.setdefault(field, "%s instead of %s" % (v.a[0], w.a[0]))
        for arg, field in need:
            if field in bad and bad[field] is None: r.notes.append("%s of the %s producer: undecided" % (field, tag)); continue
            r.check("producers", "%s of %s" % (field, tag), field not in bad, r.where(g), "%s of the %s producer is %s" % (field, tag, bad.get(field)))


def producer(F, g, flag, level, **over):
    """the paths of the initialisation of a producer for the given options"""
    args = []
    for i in range(g.nargs):
        t, n = g.locals[i + 1]
        args.append(flag if t == "bool" else level if t == "usize" else STR("2.0.0") if "str" in t else PARAM(n or "a%d" % i))
    opq = lambda E, st, name, args, fn, line: [(st, mk("made", STR(name.rsplit("::", 1)[-1])))]
    I = {**maps.intrinsics(), r"::default$": lambda E, st, name, args, fn, line: [(st, PARAM("producer"))], **over,
         r"UsefulConstants::\w+$|num_bigint.*|VCP::\w+$|build::(?!initialize)\w+$|get_number_version$|bits$": opq}
    return explore(F, g, args, intr=I, loop_visits=3, max_paths=2000)


def no_init(F, r):
    r.rule("no_init", "variables are set to 0 when they are declared unless --no_init is given")
    f = F.find("parser::run_parser")
    f2 = F.find("parser_logic::parse_file"); r.fn(f); r.fn(f2)
    for g in (f, f2):
        k = next((i + 1 for i in range(g.nargs) if g.locals[i + 1][0] == "bool"), None)
        if k is None: raise Anchor("no_init")
        ok = False
        for bb, c, a, d, l in g.calls():
            n = cname(c) if c else ""
            if not re.search(r"parse_file$|ParseAstParser::parse\b|Parser.*::parse(::<.*>)?$", n): continue
            for o in a:
                if o[0] != "c" and len(o[1]) == 1:
                    x = o[1][0]; ds = g.defs().get(x, [])
                    if x == k or len(ds) == 1 and ds[0][2] == "rv" and ds[0][3][0] == "use" and ds[0][3][1][0] != "c" and ds[0][3][1][1] == [k]: ok = True
        r.check("no_init", g.id.rsplit("::", 1)[-1], ok, r.where(g), "--no_init does not reach the parser through %s" % g.id)
    VT = adt_id(F, "VariableType")
    for fn in ("ast_shortcuts::split_declaration_into_single_nodes", "ast_shortcuts::split_declaration_into_single_nodes_and_multisubstitution"):
        g = F.find(fn); r.fn(g)
        for flag in (True, False):
            args = []
            for i in range(g.nargs):
                t = g.locals[i + 1][0]
                if t == "bool": args.append(TRUE if flag else FALSE)
                elif "VariableType" in t: args.append(unit_variant(F, "VariableType", "Var"))
                elif re.search(r"Vec<.*Symbol", t):
                    s = build_sym(F); args.append(mk("array", s))
                elif re.search(r"Option<", t): args.append(NONE)
                else: args.append(PARAM("a%d" % i))
            ps, E = explore(F, g, args, intr={**maps.intrinsics(), r"get_mut_meta$|Meta::\w+$|get_meta$": pure(lambda *a: mk("meta", *a))}, loop_visits=6); r.paths(len(ps))
            zero = [any(x.op == "adt" and x.a[1] == "Substitution" for x in subterms(p.v)) for p in ps]
            r.check("no_init", "%s %s" % (g.id.rsplit("::", 1)[-1], "with" if flag else "without"), bool(ps) and all(z != flag for z in zero), r.where(g), "a declared variable is %s to 0 %s --no_init" % ("set" if flag else "not set", "with" if flag else "without"))


def build_sym(F):
    i = next((x for x in F.adts if x.endswith("ast_shortcuts::Symbol")), None)
    if i is None: raise Anchor("Symbol")
    v = F.adts[i]["variants"][0]; d = {}
    for x in v[2]: d[x[0]] = STR("x") if "String" in x[1] else mk("array") if "Vec<" in x[1] else NONE if "Option<" in x[1] else TRUE if x[1] == "bool" else PARAM("s." + x[0])
    return ADT(i, v[0], tuple((x[0], d[x[0]]) for x in v[2]))
