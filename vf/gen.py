"""Generators of spec trees: exhaustive small scope, seeded random, and values harvested
from the source under test (integers become sizes, strings become names)."""
import ast
import itertools
import os
import random
import re

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = os.path.join(REPO, "pylogics_modalities")
NAME_RE = re.compile(r'[a-z_]([A-Za-z0-9_-]*[A-Za-z0-9_])?\Z|"[ !#-~]+"\Z')
RESERVED = {"pl": {"true", "false"}, "ltl": {"true", "false", "tt", "ff", "last"},
            "pltl": {"true", "false", "tt", "ff", "start"},
            "ldl": {"true", "false", "tt", "ff", "last", "end"}}
BASE_NAMES = ["a", "b", "c", "p", "q", "x1", "a-b", "_", "truex", "tt_", "end1", "last-x", "startle", "f--f",
              "aX", "qUr", "not", "and", "until", "falsey", "first1", "ttt", '"a b"', '"~"', '"(a)"', '"true"', '" "', "aa", "a1", "e"]


def harvest():
    """Integers and strings that occur in the source under test."""
    ints, strs = set(), set()
    for root, _, files in os.walk(PKG):
        for fn in files:
            p = os.path.join(root, fn)
            if not fn.endswith((".py", ".lark")):
                continue
            try:
                src = open(p, encoding="utf-8").read()
            except (OSError, UnicodeDecodeError):
                continue
            if fn.endswith(".py"):
                try:
                    tree = ast.parse(src)
                except SyntaxError:
                    continue
                doc = {id(n.value) for n in ast.walk(tree) if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)}
                for n in ast.walk(tree):
                    if isinstance(n, ast.Constant) and id(n) not in doc:
                        if isinstance(n.value, bool):
                            continue
                        if isinstance(n.value, int) and 0 <= n.value <= 5000:
                            ints.add(n.value)
                        elif isinstance(n.value, str) and len(n.value) <= 40:
                            strs.add(n.value)
            elif fn.endswith(".lark"):
                strs.update(re.findall(r'"([^"\n]{1,20})"', src))
                strs.update(re.findall(r"[a-z_]{2,12}", src))
                ints.update(int(x) for x in re.findall(r"\{(\d{1,3})", src))
    return ints, strs


class Gen:
    """Seeded source of trees."""

    def __init__(self, seed, salt=""):
        self.rng = random.Random(f"{seed}/{salt}")
        ints, strs = harvest()
        self.ints = sorted(ints)
        self.ldl = False
        self.phase = 0
        self.big = sorted({n + d for n in ints if 2 <= n <= 300 for d in (-1, 0, 1, 2)} | {2, 3, 4, 5, 7, 12})
        self.huge = sorted({n for n in ints if 300 < n <= 5000})
        self.hnames = sorted({s for s in strs if NAME_RE.match(s)}
                             | {'"%s"' % s for s in strs if re.fullmatch(r"[ !#-~]{1,12}", s)})[:400]
        self.names = BASE_NAMES + self.hnames

    # -- names
    def name(self, lg, few=False):
        r = self.rng
        bad = RESERVED["ldl"] if self.ldl or lg not in RESERVED else RESERVED[lg]
        while True:
            x = r.random()
            if few or x < .55:
                n = r.choice(["a", "b", "c", "p", "q"][: 3 if few else 5])
            elif x < .75:
                n = r.choice(BASE_NAMES)
            elif x < .9 and self.hnames:
                n = r.choice(self.hnames)
            else:
                n = self.rand_name()
            if n not in bad:
                return n

    def rand_name(self):
        r = self.rng
        if r.random() < .2:
            k = r.choice([1, 2, 3, 8])
            return '"' + "".join(r.choice([chr(c) for c in range(32, 127) if chr(c) != '"']) for _ in range(k)) + '"'
        al = "abcdefghijklmnopqrstuvwxyz_"
        rest = al + al.upper() + "0123456789" + "-"
        k = r.choice([0, 1, 1, 2, 3, 5, 9, 20] + [b for b in self.big if b < 70][-4:])
        s = r.choice(al) + "".join(r.choice(rest) for _ in range(k))
        return s.rstrip("-") or "a"

    def arity(self, lo=2):
        r = self.rng
        x = r.random()
        if x < .6:
            return max(lo, 2)
        if x < .85:
            return max(lo, r.choice([2, 3, 3, 4]))
        if x < .97:
            return max(lo, r.choice([4, 5, 6, 7]))
        return max(lo, r.choice([b for b in self.big if b <= 40]))

    # -- trees
    def leaf(self, lg, few=False):
        if lg in ("ldl", "re"):
            self.ldl, old = True, self.ldl
            try:
                return self._leaf(lg, few)
            finally:
                self.ldl = old
        return self._leaf(lg, few)

    def _leaf(self, lg, few=False):
        r = self.rng
        x = r.random()
        if lg in ("pl", "ltl", "pltl"):
            if x < .78:
                return ("atom", lg, self.name(lg, few))
            if x < .86:
                return (r.choice(["true", "false"]), lg)
            if lg == "pl":
                return ("atom", lg, self.name(lg, few))
            return (r.choice(["ptrue", "pfalse"]), lg)
        if lg == "ldl":
            if x < .5:
                return (r.choice(["box", "diamond"]), ("prop", self.leaf("pl", few)), (r.choice(["true", "false"]), "ldl"))
            return (r.choice(["true", "false"]), "ldl")
        if lg == "re":
            return ("prop", self.leaf("pl", few))
        if lg == "fol":
            return ("pred", r.choice("PQR"))
        raise ValueError(lg)

    def tree(self, lg, d, few=False):
        r = self.rng
        if lg in ("ldl", "re"):
            self.ldl, old = True, self.ldl
            try:
                return self._tree(lg, d, few)
            finally:
                self.ldl = old
        return self._tree(lg, d, few)

    def _tree(self, lg, d, few=False):
        r = self.rng
        if d <= 0:
            return self.leaf(lg, few)
        sub = lambda l=lg: self.tree(l, d - 1 - (r.random() < .3), few)  # noqa
        if lg == "re":
            k = r.choice(["seq", "union", "star", "test", "prop", "seq", "union", "star"])
            if k in ("seq", "union"):
                return (k,) + tuple(sub() for _ in range(min(self.arity(), 9)))
            if k == "star":
                return (k, sub())
            if k == "test":
                return (k, sub("ldl"))
            return (k, self.tree("pl", min(d, 2), few))
        if lg == "fol":
            k = r.choice(["and", "or", "implies", "equiv", "not", "pred"])
            if k == "pred":
                return self.leaf("fol")
        x = r.random()
        if lg == "pl" or lg == "fol" or x < .45:
            k = r.choice(["and", "or", "implies", "equiv", "not", "and", "or", "not"])
            if k == "not":
                return (k, sub())
            ops = [sub() for _ in range(self.arity())]
            if r.random() < .25:
                ops.insert(r.randrange(len(ops) + 1), r.choice(ops))
            if r.random() < .15:
                o = r.choice(ops)
                ops.insert(r.randrange(len(ops) + 1), o[1] if o[0] == "not" else ("not", o))
            return (k,) + tuple(ops)
        if lg in ("ltl", "pltl"):
            from .sp import BI, UN
            if r.random() < .5:
                return (r.choice(sorted(UN[lg])), sub())
            return (r.choice(sorted(BI[lg])),) + tuple(sub() for _ in range(min(self.arity(), 9)))
        return (r.choice(["box", "diamond"]), sub("re"), sub())

    def deep(self, lg, n):
        """A tree of depth about n (linear)."""
        from .sp import UN
        r = self.rng
        t = self.leaf(lg)
        for i in range(n):
            if lg in UN and r.random() < .5:
                t = (r.choice(sorted(UN[lg])), t)
            elif lg == "ldl" and r.random() < .5:
                t = (r.choice(["box", "diamond"]), self.leaf("re"), t)
            elif r.random() < .3:
                t = ("not", t)
            else:
                ops = [t, self.leaf(lg)]
                r.shuffle(ops)
                t = (r.choice(["and", "or", "implies", "equiv"]),) + tuple(ops)
        return t


def small_pl(names=("a", "b"), lg="pl"):
    """All small trees: leaves, and one connective over leaves / negated leaves."""
    leaves = [("atom", lg, n) for n in names] + [("true", lg), ("false", lg)]
    if lg in ("ltl", "pltl"):
        leaves += [("ptrue", lg), ("pfalse", lg)]
    lits = leaves + [("not", l) for l in leaves if l[0] == "atom"]
    yield from leaves
    for l in lits:
        yield ("not", l)
    for op in ("and", "or", "implies", "equiv"):
        for n in (1, 2, 3):
            for c in itertools.product(lits, repeat=n):
                yield (op,) + c
