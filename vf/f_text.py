"""Executable contracts for C06-C09 (printing, parsing, atom names)."""
import itertools
import re

from . import refparse as rp
from . import sp
from .gen import BASE_NAMES, RESERVED, small_pl
from .f_syntax import BLG, C04, J, U
from .sp import PL, LTL, PLTL


def parser(lg):
    import pylogics_modalities.parsers as P
    return {"pl": P.parse_pl, "ltl": P.parse_ltl, "pltl": P.parse_pltl, "ldl": P.parse_ldl}[lg]


def shapes(lg):
    """Every operator over every operator, one level of nesting (complete small scope)."""
    if lg == "re":
        leaves = [("prop", ("atom", "pl", "a")), ("prop", ("true", "pl")), ("test", ("true", "ldl"))]
    else:
        leaves = C04.leaves(lg)[:2] + C04.leaves(lg)[3:]
    x, y = leaves[0], leaves[1]
    one = []
    if lg != "re":
        one += [("not", x)] + [(o, x, y) for o in sp.BOOL] + [(o, y, x, leaves[2]) for o in sp.BOOL]
    one += [(o, x) for o in sp.UN.get(lg, ())] + [(o, x, y) for o in sp.BI.get(lg, ())]
    if lg == "re":
        one += [("star", x), ("test", ("false", "ldl")), ("seq", x, y), ("union", x, y), ("prop", ("not", ("atom", "pl", "b"))),
                ("prop", ("and", ("atom", "pl", "b"), ("atom", "pl", "a"))), ("prop", ("or", ("atom", "pl", "b"), ("atom", "pl", "a"))),
                ("test", ("not", ("true", "ldl"))), ("test", ("not", ("box", x, ("false", "ldl"))))]
    if lg == "ldl":
        one += [(m, r, ("true", "ldl")) for m in sp.MOD for r in shapes("re")]
    yield from leaves
    yield from one
    for s in (one if lg != "ldl" else one[:30]):
        if lg != "re":
            yield ("not", s)
            for o in sp.BOOL:
                yield (o, s, y)
                yield (o, x, s)
                yield (o, x, s, y)
        for o in sp.UN.get(lg, ()):
            yield (o, s)
        for o in sp.BI.get(lg, ()):
            yield (o, s, x)
            yield (o, x, s)
            yield (o, x, s, y)
        if lg == "re":
            yield ("star", s)
            for o in ("seq", "union"):
                yield (o, s, x)
                yield (o, x, s)
                yield (o, y, s, x)
        if lg == "ldl":
            for m in sp.MOD:
                yield (m, ("test", s), ("true", "ldl"))
                yield (m, ("prop", ("atom", "pl", "a")), s)


def check_round(lg, t0):
    from pylogics_modalities.utils.to_string import to_string
    try:
        f = sp.build(t0)
        t = sp.read(f)
    except Exception:  # noqa
        return None
    try:
        s = to_string(f)
    except Exception as e:  # noqa
        return f"to_string of {sp.show(t)} raises {e!r}"
    if not isinstance(s, str):
        return f"to_string of {sp.show(t)} is {s!r}"
    try:
        h = parser(lg)(s)
        th = sp.read(h)
    except Exception as e:  # noqa
        return f"{sp.show(t)} prints as {s!r}, which the {lg} parser rejects: {type(e).__name__}: {str(e)[:120]}"
    if sp.key(th) != sp.key(t) or not (h == f):
        return f"{sp.show(t)} prints as {s!r}, which parses to {sp.show(th)}"
    return None


class _Round:
    LGS = ()

    @classmethod
    def cases(cls, g, tier):
        for lg in cls.LGS:
            for t in shapes(lg):
                yield {"lg": lg, "t": J(t)}
        for lg in cls.LGS:
            for n in g.names:
                if n not in RESERVED[lg]:
                    yield {"lg": lg, "t": J(("atom", lg, n) if lg != "ldl" else ("diamond", ("prop", ("atom", "pl", n)), ("true", "ldl")))}
        for n in [b for b in g.big if b <= 130]:
            for lg in cls.LGS:
                if lg == "ldl":
                    ps = tuple(("prop", ("atom", "pl", f"a{i}")) for i in range(n))
                    for op in ("seq", "union"):
                        yield {"lg": lg, "t": J(("box", (op,) + ps + ps[:1], ("true", "ldl")))}
                    t = u = ("true", "ldl")
                    v = ps[0]
                    for i in range(min(n, 40)):
                        t, u, v = ("box", v, t) if i < 3 else ("diamond", ps[0], t), ("not", ("and", u, ("false", "ldl"))), ("star", v) if i % 2 else ("seq", v, ps[0])
                    yield {"lg": lg, "t": J(t)}
                    yield {"lg": lg, "t": J(("box", v, u))}
                    yield {"lg": lg, "t": J(("box", ("seq",) + ps, ("true", "ldl")))}
                    yield {"lg": lg, "t": J(("box", ("union",) + ps, ("true", "ldl")))}
                    continue
                at = tuple(("atom", lg, f"a{i}") for i in range(n))
                for op in list(sp.BOOL) + list(sp.BI.get(lg, ())):
                    yield {"lg": lg, "t": J((op,) + at)}
                    if op not in ("and", "or", "equiv"):
                        yield {"lg": lg, "t": J((op,) + at + at[:1])}
                    yield {"lg": lg, "t": J((op,) + at + (("not", ("and", at[0], ("atom", lg, "b"))), ("implies", ("atom", lg, "b"), at[0])))}
                for op in sp.UN.get(lg, ()):
                    t = at[0]
                    for _ in range(min(n, 40)):
                        t = (op, t)
                    yield {"lg": lg, "t": J(t)}
        for inner in ("a  b", " a", "a ", "  ", "a   b", "a\\b", "a'b", "Ab", "ab", "tt", "true", "a&b", "(a)", "a->b", "-", "~", "!", "X[!]", "<a>", "a;b", "a b c", "{a}", "{0}", "%s",
                      "\\n", "#", "a,b", "0", "00", "a.b", "last", "true "):
            for lg in cls.LGS:
                n = '"' + inner + '"'
                a = ("atom", lg, n) if lg != "ldl" else ("diamond", ("prop", ("atom", "pl", n)), ("true", "ldl"))
                yield {"lg": lg, "t": J(a)}
                yield {"lg": lg, "t": J(("implies", a, ("not", a)))}
                if lg == "ldl":
                    yield {"lg": lg, "t": J(("box", ("star", ("test", a)), a))}
        g.phase = 1
        while True:
            lg = g.rng.choice(cls.LGS)
            yield {"lg": lg, "t": J(g.tree(lg, g.rng.choice([1, 2, 2, 3, 3, 4]), g.rng.random() < .3))}
            if g.rng.random() < .02:
                yield {"lg": lg, "t": J(g.deep(lg, g.rng.choice([8, 20])))}

    @staticmethod
    def check(c):
        return check_round(c["lg"], U(c["t"]))


class C06(_Round):
    LGS = ("pl", "ltl", "pltl")


class C07(_Round):
    LGS = ("ldl",)


# ------------------------------------------------------------------ C08
SYN = {"->": ["->", ">>"], "|": ["|", "||"], "&": ["&", "&&"], "~": ["~", "!"], "<->": ["<->"]}
PREC = {lg: {rp.BINOP[o]: i for i, o in enumerate(ops)} for lg, ops in rp.BIN.items()}
TOK = {v: k for k, v in rp.BINOP.items()}
UTOK = {v: k for k, v in rp.UNOP.items()}


class Printer:
    """Text of a tree by the documented grammar, with random synonyms, spaces and brackets."""

    def __init__(self, r):
        self.r = r

    def ws(self, need=False):
        r = self.r.random()
        if need:
            return " " + ("" if r < .8 else self.r.choice([" ", "\n", "\t"]))
        return "" if r < .5 else self.r.choice([" ", " ", "  ", "\n", "\t", " \n "])

    def tok(self, o):
        return self.r.choice(SYN.get(o, [o]))

    def extra(self):
        return self.r.random() < .08

    def f(self, t, lg, lvl=0):
        """text, at binding level >= lvl"""
        op = t[0]
        n = len(PREC[lg])
        if self.extra():
            return "(" + self.ws() + self.f(t, lg, 0) + self.ws() + ")"
        if op in PREC[lg]:
            p = PREC[lg][op]
            o = TOK[op]
            parts = [self.f(a, lg, p + 1) for a in t[1:]]
            s = parts[0]
            for q in parts[1:]:
                tk = self.tok(o)
                if tk[0].isalpha():
                    s += self.ws(True) + tk + (self.ws(True) if self.r.random() < .7 or q[0] not in '("' else "") + q
                else:
                    s += self.ws() + tk + self.ws() + q
            return s if p >= lvl else "(" + self.ws() + s + self.ws() + ")"
        if op in UTOK:
            tk = self.tok(UTOK[op])
            q = self.f(t[1], lg, n)
            if tk[0].isalpha():
                return tk + (self.ws(True) if self.r.random() < .7 or q[0] not in '("' else "") + q
            return tk + self.ws() + q
        if op in ("box", "diamond"):
            a, b = ("[", "]") if op == "box" else ("<", ">")
            return a + self.ws() + self.re(t[1], 0) + self.ws() + b + self.ws() + self.f(t[2], lg, n)
        if op == "atom":
            return t[2]
        if op in ("ptrue", "pfalse"):
            return op[1:]
        return {"true": "true", "false": "false"}[op] if lg == "pl" else {"true": "tt", "false": "ff"}[op]

    def re(self, t, lvl):
        op = t[0]
        if self.extra():
            return "(" + self.ws() + self.re(t, 0) + self.ws() + ")"
        if op in ("union", "seq"):
            p, o = (0, "+") if op == "union" else (1, ";")
            s = (self.ws() + o + self.ws()).join(self.re(a, p + 1) for a in t[1:])
            return s if p >= lvl else "(" + s + ")"
        if op == "star":
            s = self.re(t[1], 3) + self.ws() + "*"
            return s if lvl <= 2 else "(" + s + ")"
        if op == "test":
            s = self.f(t[1], "ldl", 0) + self.ws() + "?"
            return s
        return self.f(t[1], "pl", 0)


def toks_random(r, lg, n):
    names = ["a", "b", "truex", "tt", "last", "end", "start", "true", "false", "ff", "first", '"a b"', "x-y"]
    ops = rp.COMMON + rp.LETTER[lg] + rp.EXTRA.get(lg, []) + ["(", ")"] * 2
    out = []
    for _ in range(n):
        out.append(r.choice(names) if r.random() < .45 else r.choice(ops))
    return out


class C08:
    @staticmethod
    def cases(g, tier):
        for lg in BLG:
            words = ["a", "true", "false", "tt", "ff", "last", "end", "start", "first", "truea", "tt1", "_", '"a"', "a-", "A", "1", "", "-a",
                     '"', '""', "a-b", "a--b", "X a", "Xa", "F(a)", "U", "()", "(a)", "((a))", "~", "~a", "!a", "!!a", "a b"]
            for w in words:
                yield {"lg": lg, "s": w}
            ops = rp.COMMON[:9] + rp.LETTER[lg] + rp.EXTRA.get(lg, [])
            for o in ops:
                for a, b in (("a", "b"), ("tt", "ff"), ("", "a"), ("a", ""), ("(a)", "(b)")):
                    for s in (f"{a} {o} {b}", f"{a}{o}{b}", f"{a} {o}({b})"):
                        yield {"lg": lg, "s": s}
            for o1, o2 in itertools.product(ops, repeat=2):
                x = "tt" if lg == "ldl" else "a"
                for s in (f"{x} {o1} {x} {o2} ff", f"{o1} {x} {o2} ff", f"{x} {o1} {o2} ff", f"{o1} {o2} {x}"):
                    yield {"lg": lg, "s": s}
        for n in [b for b in g.big if b <= 42]:
            for lg in BLG:
                x = "tt" if lg == "ldl" else "a"
                for o in rp.COMMON[:9] + rp.LETTER[lg]:
                    if o in ("~", "!", "X", "X[!]", "F", "G", "Y", "Z", "O", "H"):
                        yield {"lg": lg, "s": (o + " ") * n + x}
                        yield {"lg": lg, "s": (o + "(") * n + x + ")" * n}
                    elif o not in ("(", ")"):
                        yield {"lg": lg, "s": f" {o} ".join("tf"[i % 2] * 2 if lg == "ldl" else f"a{i}" for i in range(n))}
                        yield {"lg": lg, "s": f" {o} ".join("tt" if lg == "ldl" else f"a{i % 3}" for i in range(n))}
                yield {"lg": lg, "s": "(" * n + x + ")" * n}
                yield {"lg": lg, "s": " " * n + x + "\n" * n}
            for o in (";", "+"):
                yield {"lg": "ldl", "s": "<" + o.join(f"a{i}" for i in range(n)) + ">tt"}
                yield {"lg": "ldl", "s": "[" + o.join("a" for i in range(n)) + "]tt"}
            yield {"lg": "ldl", "s": "<a>" * n + "tt"}
            yield {"lg": "ldl", "s": "<a" + "*" * n + ">tt"}
        re_atoms = ["a", "tt?", "true", "(a;b)", "~a", "(ff)?", "~tt?", "a&b", "(a)", "(a|b)", "<a>tt?", "(<a>tt)?"]
        for x in re_atoms:
            for m in ("[%s]tt", "<%s>ff", "[%s*]tt", "<(%s)*>ff", "[(%s)]tt", "~[%s]tt", "[%s]<%s>tt"):
                yield {"lg": "ldl", "s": m.replace("%s", x)}
            for y in re_atoms:
                for o in (";", "+", "*;", "* +", ";(a+b);", "+(a;b)*+"):
                    yield {"lg": "ldl", "s": f"<{x}{o}{y}>tt"}
        g.phase = 1
        while True:
            r = g.rng
            lg = r.choice(BLG)
            x = r.random()
            if x < .6:
                d = r.choice([1, 2, 2, 3])
                t = C08.strip(g.tree(lg, d, r.random() < .5))
                s = Printer(r).f(t, lg)
                if len(s) > 400:
                    continue
                yield {"lg": lg, "s": s, "t": J(t)}
                words = ("tt", "ff", "last", "end") if lg == "ldl" else ("true", "false") if lg == "pl" else ("tt", "ff", "true", "false", "last" if lg == "ltl" else "start")
                if r.random() < .3:
                    s = re.sub(r"(?<![\w\"-])(tt|ff)(?![\w\"-])" if lg != "pl" else r"(?<![\w\"-])(true|false)(?![\w\"-])", lambda m: r.choice(words), s)
                    yield {"lg": lg, "s": s}
                tk = re.findall(r'"[^"]*"|[a-zA-Z_][\w-]*|<->|->|>>|&&|\|\||\S', s)
                if len(tk) < 40:
                    i = r.randrange(len(tk) + 1)
                    y = r.random()
                    if y < .3 and tk:
                        del tk[min(i, len(tk) - 1)]
                    elif y < .7:
                        tk.insert(i, r.choice(toks_random(r, lg, 3)))
                    elif len(tk) > 1:
                        j = r.randrange(len(tk) - 1)
                        tk[j], tk[j + 1] = tk[j + 1], tk[j]
                    yield {"lg": lg, "s": r.choice([" ", " ", ""]).join(tk)}
            else:
                yield {"lg": lg, "s": r.choice([" ", " ", ""]).join(toks_random(r, lg, r.choice([1, 2, 3, 4, 5, 6, 8])))}

    @staticmethod
    def strip(t):
        """Grammar trees: chains of at least two operands, operands of a chain not of the same chain."""
        if t[0] in ("atom", "true", "false", "ptrue", "pfalse"):
            return t
        if len(t) == 2 and t[0] in sp.BOOL:
            return C08.strip(t[1])
        return (t[0],) + tuple(C08.strip(a) for a in t[1:])

    @staticmethod
    def check(c):
        lg, s = c["lg"], c["s"]
        want = rp.parse(s, lg)
        if "t" in c and len(want) == 1 and want[0] != U(c["t"]):
            # the printer put the brackets wrong: not a case about the code
            pass
        try:
            h = parser(lg)(s)
        except Exception as e:  # noqa
            if want:
                try:
                    w = sp.build(want[0])
                except Exception:  # noqa
                    return None
                return f"the {lg} parser rejects {s!r}, which denotes {sp.show(sp.read(w))}: {type(e).__name__}"
            return None
        if not want and lg == "ldl":
            # a word that LDL reserves, as a name after a propositional operator ("[a & tt]tt"): left open by the grammars
            want = rp.parse(s, lg, soft=True)
        if not want:
            return f"the {lg} parser accepts {s!r}, which is outside the grammar, as {h!r}"
        th = sp.read(h)
        ks = set()
        for t in want:
            w = sp.build(t)
            ks.add(sp.key(sp.read(w)))
        if sp.key(th) not in ks:
            return f"the {lg} parser reads {s!r} as {sp.show(th)}, expected {sp.show(sp.read(sp.build(want[0])))}"
        if sp.LGI.get(h.logic) != lg:
            return f"the {lg} parser reads {s!r} as a formula of {h.logic}"
        if "[" not in s and "<" not in s:
            tw = sp.read(sp.build(want[0]))
            if th[0] in ("implies", "until", "release", "since", "triggers", "and", "or") and th != tw and len(want) == 1:
                return f"the {lg} parser reads {s!r} as {sp.show(th)}, expected {sp.show(tw)}"
        return None


# ------------------------------------------------------------------ C09
LOW, UP, DIG = "abcdefghijklmnopqrstuvwxyz", "ABCDEFGHIJKLMNOPQRSTUVWXYZ", "0123456789"


def is_name(s):
    """The documented symbols, by hand (no regular expression)."""
    if len(s) >= 3 and s[0] == '"' and s[-1] == '"':
        return all(" " <= ch <= "~" and ch != '"' for ch in s[1:-1])
    if not s or s[0] not in LOW + "_":
        return False
    word = LOW + UP + DIG + "_"
    return all(ch in word + "-" for ch in s[1:]) and (len(s) == 1 or s[-1] in word)


class C09:
    ALPH = ["a", "z", "Z", "A", "0", "9", "_", "-", '"', " ", "~", "!", "\n", "\t", "\x7f", "é", "ª", "٣", "`", "{", "@", "[", "/", ":", "\r", "\u00a0"]

    @staticmethod
    def cases(g, tier):
        for n in (0, 1, 2, 3):
            for c in itertools.product(C09.ALPH, repeat=n):
                yield {"s": "".join(c)}
        for o in range(0, 256):
            for f in ("%s", "a%s", "%sa", "a%sb", '"%s"', '"a%s"', '"%sb"', "a-%s"):
                yield {"s": f.replace("%s", chr(o))}
        for n in g.names + BASE_NAMES:
            for f in ("%s", "%s\n", "%s-", "a%s", "%sa", '"%s', "A%s", "-%s"):
                yield {"s": f.replace("%s", n)}
        for kw in ("true", "false", "tt", "ff", "last", "end", "start", "first"):
            for suf in ("", "a", "_", "1", "A", "-a", "--a", "-1", "-", "-true", "-A", "-_", "---", kw):
                for pre in ("", "a", "_", "x-"):
                    yield {"s": pre + kw + suf}
        for n in sorted(set(g.big) | {64, 65, 128, 255, 256, 257, 1000}):
            for f in ("a" * n, "a" * (n - 1) + "-", "a" + "-" * n, "a" + "-" * n + "a", '"' + "x" * n + '"', "a" + "0" * n, "aB-" * n, "aB-" * n + "c"):
                yield {"s": f}
        g.phase = 1
        while True:
            r = g.rng
            k = r.choice([2, 3, 4, 5, 8, 15])
            if r.random() < .5:
                s = "".join(r.choice(C09.ALPH) for _ in range(k))
            else:
                s = g.rand_name()
                if r.random() < .5:
                    i = r.randrange(len(s) + 1)
                    s = s[:i] + r.choice(C09.ALPH) + s[i + (r.random() < .5):]
            yield {"s": s}

    @staticmethod
    def check(c):
        s = c["s"]
        ok = is_name(s)
        for lg, cls in (("pl", PL.Atomic), ("ltl", LTL.Atomic), ("pltl", PLTL.Atomic)):
            try:
                f = cls(s)
            except ValueError:
                if ok:
                    return f"{lg} atom name {s!r} is rejected"
                f = None
            except Exception as e:  # noqa
                return f"{lg} atom name {s!r} raises {e!r} instead of ValueError"
            else:
                if not ok:
                    return f"{lg} atom name {s!r} is accepted"
                if f.name != s or type(f.name) is not str and not isinstance(f.name, str):
                    return f"{lg} atom name {s!r} is changed to {f.name!r}"
        from pylogics_modalities.syntax.base import AtomName
        try:
            a = AtomName(s)
            if not ok or a != s:
                return f"AtomName({s!r}) is {a!r}"
        except ValueError:
            if ok:
                return f"AtomName rejects {s!r}"
        if not ok:
            return None
        for lg, txt in (("pl", s), ("ltl", s), ("pltl", s), ("ldl", f"<{s}>tt"), ("ltl", f"~{s}"), ("pltl", f"({s})&{s}"), ("ldl", f"[{s}*;{s}]ff"),
                        ("ltl", f"{s} U {s}"), ("pl", f"{s}->{s}|{s}")):
            if s in RESERVED[lg]:
                continue
            try:
                h = parser(lg)(txt)
                t = sp.read(h)
            except Exception as e:  # noqa
                return f"the {lg} parser rejects {txt!r}: {type(e).__name__}"
            names = set()

            def go(x):
                if x[0] == "atom":
                    names.add(x[2])
                for y in x[1:]:
                    if isinstance(y, tuple):
                        go(y)
            go(t)
            if names != {s}:
                return f"the {lg} parser reads {txt!r} with atoms {names}"
            if txt == s and t != ("atom", lg, s):
                return f"the {lg} parser reads {s!r} as {sp.show(t)}"
        return None


ALL = {"C06": C06, "C07": C07, "C08": C08, "C09": C09}
