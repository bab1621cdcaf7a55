"""The parser's grammar as compiled: productions listed in the LALRPOP-generated parser (already normalised and
macro-expanded) with their semantic action functions, whose meaning is read from MIR."""
import os, re
from .mir import Anchor
from .ev import *
from . import strs

PROD = re.compile(r"^\s*// (.+?) = (.*?) ?=> ActionFn\((\d+)\);$")


def split(s):
    out = []; cur = ""; d = 0; q = False; i = 0
    while i < len(s):
        c = s[i]
        if q:
            cur += c
            if c == "\\": cur += s[i + 1]; i += 1
            elif c == '"': q = False
        elif c == '"':
            if cur.endswith("r#"):                       # raw string token
                j = s.index('"#', i + 1)
                cur += s[i:j + 2]; i = j + 1
            else: cur += c; q = True
        elif c in "(<[" and not (c == "<" and False): d += 1; cur += c
        elif c in ")>]": d -= 1; cur += c
        elif c == "," and d == 0: out.append(cur.strip()); cur = ""
        else: cur += c
        i += 1
    if cur.strip(): out.append(cur.strip())
    return out


def unq(s):
    """terminal text, or None for a nonterminal"""
    if s.startswith('"') and s.endswith('"'): return eval(s)
    m = re.match(r'^r#"(.*)"#$', s) or re.match(r'^r"(.*)"$', s)
    if m: return "re:" + m.group(1)
    return None


class Prod:
    def __init__(self, lhs, rhs, act):
        self.lhs, self.rhs, self.act = lhs, rhs, act
        self.terms = [unq(x) for x in rhs]

    def literals(self): return [x for x in self.terms if x is not None and not x.startswith("re:")]

    def __repr__(self): return "%s = %s" % (self.lhs, " ".join(self.rhs))


class Bnf:
    def __init__(self, F):
        self.F = F
        fn = [f for f in F.fns.values() if re.search(r"::lang::__action\d+$", f.id)]
        if not fn: raise Anchor("semantic actions of the generated parser")
        path = fn[0].file
        self.prefix = fn[0].id.rsplit("__action", 1)[0]
        if not os.path.exists(path): raise Anchor("generated parser %s" % path)
        self.prods = []; seen = set()
        for l in open(path, encoding="utf8"):
            if "=> ActionFn(" not in l: continue
            m = PROD.match(l)
            if not m: continue
            key = m.groups()
            if key in seen: continue
            seen.add(key)
            if m.group(1).startswith("__"): continue
            self.prods.append(Prod(m.group(1), split(m.group(2)), int(m.group(3))))
        self.by = {}
        for p in self.prods: self.by.setdefault(p.lhs, []).append(p)
        self._ev = {}
        self._unit = None

    def fn(self, p):
        f = self.F.fns.get("%s__action%d" % (self.prefix, p.act))
        if f is None: raise Anchor("action %d of %s" % (p.act, p))
        return f

    def eval(self, p, stop=(), **kw):
        """[(state, value)] of the production's action; symbol i is PARAM("s<i>")"""
        key = (p.act, len(p.rhs), tuple(stop))
        if key in self._ev: return self._ev[key]
        f = self.fn(p)
        n = f.nargs
        names = [f.name(i + 1) for i in range(n)]
        args = []
        st = St()
        for i in range(n):
            args.append(PARAM(names[i] or "a%d" % i))
        st.mem[("G", "errors")] = mk("array")
        for i, nm in enumerate(names):
            if nm == "errors": args[i] = mk("ref", ("G", "errors"), ())
        k = n - len(p.rhs)
        if not p.rhs:
            pass                                          # empty productions take two positions
        else:
            for i in range(len(p.rhs)):
                args[k + i] = mk("tuple", PARAM("l%d" % i), PARAM("s%d" % i), PARAM("r%d" % i))
        E = Ev(self.F, stop=lambda nme: any(nme.endswith(x) for x in stop), track=lambda nme: any(nme.endswith(x) for x in stop), **kw)
        r = E.call_fn(f, args, st)
        self._ev[key] = (r, E)
        return self._ev[key]

    def value(self, p, **kw):
        """the single value of the action, or None"""
        r, _ = self.eval(p, **kw)
        vs = {v for _, v in r}
        return vs.pop() if len(vs) == 1 else None

    def units(self):
        """nonterminal -> nonterminals it derives unchanged"""
        if self._unit is None:
            g = {}
            for p in self.prods:
                if len(p.rhs) == 1 and p.terms[0] is None and self.value(p) is PARAM("s0"):
                    g.setdefault(p.lhs, set()).add(p.rhs[0])
            cl = {}
            for n in self.by:
                s = {n}; w = [n]
                while w:
                    for y in g.get(w.pop(), ()):
                        if y not in s: s.add(y); w.append(y)
                cl[n] = s
            self._unit = cl
        return self._unit

    # ---- derivations: the tree(s) of a token string, with the semantic actions applied to it
    def intr(self):
        def rev(E, st, name, args, fn, line):
            x = E.deref(st, args[0])
            if x.op == "iter" and x.a[0].op == "array": return [(st, mk("iter", mk("array", *reversed(x.a[0].a))))]
            return NotImplemented
        def least(E, st, name, args, fn, line):
            v = [E.deref(st, a) for a in args]
            return [(st, min(v, key=lambda t: t.a[0]))] if all(t.op == "int" for t in v) else NotImplemented
        def get(E, st, name, args, fn, line):
            x, i = E.deref(st, args[0]), E.deref(st, args[1])
            if x.op == "array" and i.op == "int": return [(st, SOME(x.a[i.a[0]]) if i.a[0] < len(x.a) else NONE)]
            return NotImplemented
        return {**strs.intrinsics(), r"core::cmp::min(::<.*>)?$": least, r"::rev$": rev, r"slice.*::get(::<.*>)?$": get}

    def act(self, p, kids):
        """{(value, diagnostics)} of the production's action on given child values"""
        key = (p.act, tuple(kids))
        if key in self._ev: return self._ev[key]
        f = self.fn(p)
        st = St()
        st.mem[("G", "errors")] = mk("array")
        n = f.nargs
        args = []
        for i in range(n):
            nm = f.name(i + 1)
            args.append(mk("ref", ("G", "errors"), ()) if nm == "errors" else PARAM(nm or "pos"))
        k = n - len(p.rhs)
        for i in range(len(p.rhs)): args[k + i] = mk("tuple", PARAM("l"), kids[i], PARAM("r"))
        E = Ev(self.F, loop_visits=12, intrinsics=self.intr())
        out = set()
        for s2, v in E.call_fn(f, args, st):
            out.add((E.deref(s2, v) if v.op == "ref" else v, s2.mem.get(("G", "errors"))))
        self._ev[key] = out
        return out

    def nullable(self):
        if not hasattr(self, "_null"):
            n = set(); ch = True
            while ch:
                ch = False
                for p in self.prods:
                    if p.lhs not in n and all(t is None and x in n for x, t in zip(p.rhs, p.terms)): n.add(p.lhs); ch = True
            self._null = n
        return self._null

    def parse(self, nt, toks):
        """[(value, errors)] for every derivation of the token list from nt.  A token is a literal string, or (kind, term)
        for a pattern token, kind being a substring of its regular expression."""
        toks = list(toks); N = len(toks)
        memo = {}; busy = set()
        null = self.nullable()
        minlen = self.minlen()

        def term(t, k):
            x = toks[k]
            if isinstance(x, str): return STR(x) if t == x else None
            return x[1] if t.startswith("re:") and x[0] == t else None

        def nts(x, i, j):
            if minlen.get(x, 99) > j - i: return []
            key = (x, i, j)
            if key in memo: return memo[key]
            if key in busy: return []
            busy.add(key)
            out = []
            for p in self.by.get(x, ()):
                for kids, errs in seq(p, 0, i, j):
                    for v, e in self.act(p, kids):
                        ee = errs + tuple(e.a if e is not None and e.op == "array" else ())
                        if (v, ee) not in out: out.append((v, ee))
            busy.discard(key)
            memo[key] = out
            return out

        def seq(p, k, i, j):
            if k == len(p.rhs):
                return [((), ())] if i == j else []
            t = p.terms[k]
            if p.rhs[k] == "error" or t == "error": return []
            if t is not None:
                if i >= j: return []
                v = term(t, i)
                if v is None: return []
                return [((v,) + ks, es) for ks, es in seq(p, k + 1, i + 1, j)]
            rest = sum(self.rmin(p, q) for q in range(k + 1, len(p.rhs)))
            out = []
            last = k == len(p.rhs) - 1
            # a nonterminal followed by a literal can only end before that literal
            nxt = p.terms[k + 1] if not last else None
            for m in ([j] if last else range(i, j - rest + 1)):
                if nxt is not None and (m >= j or term(nxt, m) is None): continue
                r = None
                if not last:
                    r = seq(p, k + 1, m, j)
                    if not r: continue
                h = nts(p.rhs[k], i, m)
                if not h: continue
                if last: r = [((), ())]
                for v, e in h:
                    for ks, es in r: out.append(((v,) + ks, e + es))
            return out

        sys_r = nts(nt, 0, N)
        return sys_r

    def rmin(self, p, q):
        return 1 if p.terms[q] is not None or p.rhs[q] == "error" else self.minlen().get(p.rhs[q], 99)

    def minlen(self):
        if not hasattr(self, "_ml"):
            m = {}; ch = True
            while ch:
                ch = False
                for p in self.prods:
                    s = 0
                    for x, t in zip(p.rhs, p.terms):
                        s += 1 if t is not None or x == "error" else m.get(x, 99)
                    if s < m.get(p.lhs, 99): m[p.lhs] = s; ch = True
            self._ml = m
        return self._ml

    def patterns(self):
        return sorted({t for p in self.prods for t in p.terms if t and t.startswith("re:")})

    def tokens_of(self, nt, depth=6):
        """terminals occurring in the productions a nonterminal derives through its own list/unit/option structure"""
        out = set(); seen = set(); w = [nt]
        while w:
            x = w.pop()
            if x in seen: continue
            seen.add(x)
            for p in self.by.get(x, ()):
                out |= set(p.literals())
                if len(p.rhs) == 1 or x.endswith(("+", "*", "?")) or x.startswith("("):
                    w += [y for y, t in zip(p.rhs, p.terms) if t is None]
        return out


_b = {}


def load(F):
    if id(F) not in _b: _b[id(F)] = Bnf(F)
    return _b[id(F)]
