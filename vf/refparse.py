"""Reference reading of the documented grammars (docs/parsing.md, docs/grammars.md), written
independently of lark and of the code under test: a lexer and a memoised recursive descent
parser that returns the set of trees a text denotes (all readings)."""
import re
import sys

SYM = r'[a-z_](?:[A-Za-z0-9_-]*[A-Za-z0-9_])?|"[ !#-~]+"'
COMMON = ["<->", "->", ">>", "||", "|", "&&", "&", "!", "~", "(", ")"]
LETTER = {"ltl": ["X[!]", "X", "F", "G", "U", "R", "W", "M"], "pltl": ["S", "T", "H", "O", "Y", "Z"], "pl": [], "ldl": []}
EXTRA = {"ldl": ["[", "]", "<", ">", "+", ";", "?", "*"]}
KEY = {"pl": ["true", "false"], "ltl": ["true", "false", "tt", "ff", "last"], "pltl": ["true", "false", "tt", "ff", "start"],
       "ldl": ["true", "false", "tt", "ff", "last", "end"]}
CANON = {">>": "->", "||": "|", "&&": "&", "!": "~"}
BIN = {"pl": ["<->", "->", "|", "&"], "ldl": ["<->", "->", "|", "&"],
       "ltl": ["<->", "->", "|", "&", "W", "U", "R", "M"], "pltl": ["<->", "->", "|", "&", "S", "T"]}
BINOP = {"<->": "equiv", "->": "implies", "|": "or", "&": "and", "W": "wuntil", "U": "until", "R": "release", "M": "srelease",
         "S": "since", "T": "triggers"}
UNOP = {"~": "not", "X[!]": "next", "X": "wnext", "F": "ev", "G": "alw", "H": "hist", "O": "once", "Y": "before", "Z": "wbefore"}


class Reject(Exception):
    pass


def lex(text, lg):
    toks, i = [], 0
    ops = sorted(COMMON + LETTER[lg] + EXTRA.get(lg, []), key=lambda s: -len(s))
    sym = re.compile(SYM)
    while i < len(text):
        if text[i].isspace():
            i += 1
            continue
        m = sym.match(text, i)
        if m:
            w = m.group()
            toks.append(("kw", w) if w in KEY[lg] else ("sym", w))
            i = m.end()
            continue
        for o in ops:
            if text.startswith(o, i):
                if o[0].isalpha():
                    nxt = text[i + len(o):i + len(o) + 1]
                    if nxt not in (" ", '"', "("):
                        continue
                toks.append(("op", CANON.get(o, o)))
                i += len(o)
                break
        else:
            raise Reject(f"no token at {i}")
    return toks


class Ref:
    def __init__(self, toks, lg, soft=False):
        self.t, self.lg, self.memo, self.soft = toks, lg, {}, soft

    def is_op(self, i, o):
        return i < len(self.t) and self.t[i] == ("op", o)

    def call(self, name, i, *a):
        k = (name, i) + a
        if k not in self.memo:
            self.memo[k] = []
            self.memo[k] = list(dict.fromkeys(getattr(self, name)(i, *a)))
        return self.memo[k]

    def formula(self, i, lg):
        return self.call("level", i, lg, 0)

    def level(self, i, lg, n):
        ops = BIN[lg]
        if n == len(ops):
            yield from self.call("unary", i, lg)
            return
        yield from self.chain(i, ops[n], BINOP[ops[n]], lambda j: self.call("level", j, lg, n + 1))

    def chain(self, i, tok, op, sub):
        work = [((t,), j) for t, j in sub(i)]
        while work:
            ts, j = work.pop()
            yield (ts[0] if len(ts) == 1 else (op,) + ts), j
            if self.is_op(j, tok):
                work += [(ts + (t,), k) for t, k in sub(j + 1)]

    def unary(self, i, lg):
        if i >= len(self.t):
            return
        kind, w = self.t[i]
        if kind == "op":
            if w in UNOP and (w == "~" or w in LETTER[lg]):
                for t, j in self.call("unary", i + 1, lg):
                    yield (UNOP[w], t), j
            if w == "(":
                for t, j in self.formula(i + 1, lg):
                    if self.is_op(j, ")"):
                        yield t, j + 1
            if lg == "ldl" and w in ("[", "<"):
                close, op = ("]", "box") if w == "[" else (">", "diamond")
                for r, j in self.call("union", i + 1):
                    if self.is_op(j, close):
                        for t, k in self.call("unary", j + 1, "ldl"):
                            yield (op, r, t), k
            return
        if lg in ("ltl", "pltl") or lg == "pl":
            if kind == "sym":
                yield ("atom", lg, w), i + 1
            elif self.soft and lg == "pl" and w not in ("true", "false"):
                yield ("atom", lg, w), i + 1
            elif w in ("true", "false"):
                yield ((w, "pl") if lg == "pl" else ("p" + w, lg)), i + 1
        if kind == "kw" and lg != "pl":
            if w in ("tt", "ff"):
                yield ({"tt": "true", "ff": "false"}[w], lg), i + 1
            elif w == "last" and lg == "ltl":
                yield ("alw", ("false", "ltl")), i + 1
            elif w == "start" and lg == "pltl":
                yield ("not", ("before", ("true", "pltl"))), i + 1
            elif w == "end" and lg == "ldl":
                yield END, i + 1
            elif w == "last" and lg == "ldl":
                yield ("diamond", ("prop", ("true", "pl")), END), i + 1

    def union(self, i):
        yield from self.chain(i, "+", "union", lambda j: self.call("seq", j))

    def seq(self, i):
        yield from self.chain(i, ";", "seq", lambda j: self.call("star", j))

    def star(self, i):
        for t, j in self.call("test", i):
            yield t, j
            if self.is_op(j, "*"):
                yield ("star", t), j + 1

    def test(self, i):
        for t, j in self.formula(i, "ldl"):
            if self.is_op(j, "?"):
                yield ("test", t), j + 1
        for t, j in self.formula(i, "pl"):
            yield ("prop", t), j
        if self.is_op(i, "("):
            for t, j in self.call("union", i + 1):
                if self.is_op(j, ")"):
                    yield t, j + 1


END = ("box", ("prop", ("true", "pl")), ("false", "ldl"))


def parse(text, lg, soft=False):
    """All trees the text denotes; empty when it is outside the grammar.

    soft: the words that only LDL reserves may also name atoms of propositional guards (the grammars leave this open)."""
    try:
        toks = lex(text, lg)
    except Reject:
        return []
    r = Ref(toks, lg, soft)
    limit = sys.getrecursionlimit()
    sys.setrecursionlimit(max(limit, 15000))
    try:
        return [t for t, j in r.formula(0, lg) if j == len(toks)]
    finally:
        sys.setrecursionlimit(limit)
