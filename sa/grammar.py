"""Reader of the LALRPOP grammar (parser/src/lang.lalrpop) of the current tree."""
import os, re
from . import extract
from .mir import Anchor

TOK = re.compile(r'\s+|//[^\n]*|/\*.*?\*/|r#"(?:.*?)"#|r"(?:[^"])*"|"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])\'|=>[?@]?|->|::|[A-Za-z_]\w*|\d+|.', re.S)


def tokenize(s):
    return [t for t in TOK.findall(s) if not (t.isspace() or t.startswith("//") or t.startswith("/*"))]


class Alt:
    def __init__(self, syms, action):
        self.syms = syms      # token list
        self.action = action  # token list or None

    def __repr__(self): return "%s => %s" % (" ".join(self.syms), " ".join(self.action or []))


class Grammar:
    def __init__(self, path):
        self.path = path
        with open(path) as f: self.text = f.read()
        self.rules = {}; self.params = {}; self.types = {}
        self.match = []
        self.parse(tokenize(self.text))

    def parse(self, t):
        i = 0
        n = len(t)
        while i < n and t[i] != "grammar": i += 1
        while i < n and t[i] != ";": i += 1
        i += 1
        while i < n:
            if t[i] == "#":                       # attribute
                i = self.skip(t, i + 1); continue
            if t[i] == "match":
                while t[i] != "{": i += 1
                j = self.skip(t, i)
                self.match.append(t[i + 1:j - 1])
                i = j
                if i < n and t[i] == "else": t[i] = "match"
                continue
            if t[i] in ("pub", ";"): i += 1; continue
            name = t[i]; i += 1
            params = []
            if i < n and t[i] == "<":
                j = self.skipa(t, i); params = [x for x in t[i + 1:j - 1] if x != ","]; i = j
            ty = []
            if i < n and t[i] == ":":
                i += 1
                while t[i] != "=": ty.append(t[i]); i += 1
            if i >= n or t[i] != "=": raise Anchor("cannot read the grammar near %s" % t[max(0, i - 5):i + 5])
            i += 1
            if t[i] == "{":
                j = self.skip(t, i)
                alts = self.alts(t[i + 1:j - 1]); i = j
            else:
                j = i; d = 0
                while j < n and (t[j] != ";" or d):
                    if t[j] in "([{": d += 1
                    if t[j] in ")]}": d -= 1
                    j += 1
                alts = self.alts(t[i:j]); i = j
            self.rules[name] = alts; self.params[name] = params; self.types[name] = "".join(ty)

    def skip(self, t, i):
        d = 0
        while True:
            if t[i] in ("(", "[", "{"): d += 1
            elif t[i] in (")", "]", "}"):
                d -= 1
                if d == 0: return i + 1
            i += 1

    def skipa(self, t, i):
        d = 0
        while True:
            if t[i] == "<": d += 1
            elif t[i] == ">":
                d -= 1
                if d == 0: return i + 1
            i += 1

    def alts(self, t):
        out = []; cur = []; i = 0; d = 0
        def push(a, act):
            if a or act is not None: out.append(Alt(a, act))
        n = len(t)
        while i < n:
            x = t[i]
            if x.startswith("=>") and d == 0:
                j = i + 1; dd = 0
                while j < n and not (t[j] == "," and dd == 0):
                    if t[j] in ("(", "[", "{"): dd += 1
                    elif t[j] in (")", "]", "}"): dd -= 1
                    j += 1
                push(cur, t[i + 1:j]); cur = []; i = j + 1; continue
            if x == "," and d == 0:
                push(cur, None) if cur else None
                cur = []; i += 1; continue
            if x in ("(", "[", "{", "<"): d += 1
            elif x in (")", "]", "}", ">"): d -= 1
            cur.append(x); i += 1
        push(cur, None) if cur else None
        return out

    def rule(self, name):
        if name not in self.rules: raise Anchor("grammar rule %s not found" % name)
        return self.rules[name]

    def token_table(self):
        """(enum, token) -> variant for single-token productions building an enum value"""
        r = {}
        for name, alts in self.rules.items():
            for a in alts:
                if len(a.syms) == 1 and a.syms[0].startswith('"') and a.action and len(a.action) == 3 and a.action[1] == "::":
                    r[(a.action[0], eval(a.syms[0]))] = a.action[2]
        return r


_g = None


def load():
    global _g
    if _g is None:
        p = os.path.join(extract.REPO, "parser", "src", "lang.lalrpop")
        if not os.path.exists(p): raise Anchor("grammar file parser/src/lang.lalrpop")
        _g = Grammar(p)
    return _g
