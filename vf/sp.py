"""Spec trees: the mathematical view of formulas, independent of the code under test.

A spec tree is a nested tuple.  `build` turns a tree into a real formula through
the real constructors; `read` turns a real formula into a tree through its public
accessors only.  Everything else in this file is specification: it is computed on
trees and never calls the code under test.
"""
import itertools

from pylogics_modalities.syntax import base as B, pl as PL, ltl as LTL, pltl as PLTL, ldl as LDL, fol as FOL
from pylogics_modalities.syntax.base import Logic

LG = {"pl": Logic.PL, "ltl": Logic.LTL, "pltl": Logic.PLTL, "ldl": Logic.LDL, "re": Logic.RE,
      "fol": Logic.FOL, "pldl": Logic.PLDL, "mso": Logic.MSO}
LGI = {v: k for k, v in LG.items()}
ATOM = {"pl": PL.Atomic, "ltl": LTL.Atomic, "pltl": PLTL.Atomic}
PTRUE = {"ltl": LTL.PropositionalTrue, "pltl": PLTL.PropositionalTrue}
PFALSE = {"ltl": LTL.PropositionalFalse, "pltl": PLTL.PropositionalFalse}
BOOL = {"and": B.And, "or": B.Or, "implies": B.Implies, "equiv": B.Equivalence}
UN = {
    "ltl": {"next": LTL.Next, "wnext": LTL.WeakNext, "ev": LTL.Eventually, "alw": LTL.Always},
    "pltl": {"before": PLTL.Before, "wbefore": PLTL.WeakBefore, "once": PLTL.Once, "hist": PLTL.Historically},
}
BI = {
    "ltl": {"until": LTL.Until, "release": LTL.Release, "wuntil": LTL.WeakUntil, "srelease": LTL.StrongRelease},
    "pltl": {"since": PLTL.Since, "triggers": PLTL.Triggers},
}
RE_UN = {"star": LDL.Star, "test": LDL.Test, "prop": LDL.Prop}
RE_BI = {"seq": LDL.Seq, "union": LDL.Union}
MOD = {"box": LDL.Box, "diamond": LDL.Diamond}
QUANT = {"forall": FOL.ForAll, "exists": FOL.Exists}
OP2CLS = {}
for _d in [BOOL, UN["ltl"], UN["pltl"], BI["ltl"], BI["pltl"], RE_UN, RE_BI, MOD, QUANT]:
    OP2CLS.update(_d)
OP2CLS["not"] = B.Not
CLS2OP = {v: k for k, v in OP2CLS.items()}
LOGIC_OF_OP = {}
for _l in ("ltl", "pltl"):
    for _o in list(UN[_l]) + list(BI[_l]):
        LOGIC_OF_OP[_o] = _l
for _o in list(RE_UN) + list(RE_BI):
    LOGIC_OF_OP[_o] = "re"
for _o in MOD:
    LOGIC_OF_OP[_o] = "ldl"
for _o in QUANT:
    LOGIC_OF_OP[_o] = "fol"
BOOLEAN = ("and", "or", "implies", "equiv", "not")


class ReadError(Exception):
    """The accessors of a formula do not describe a tree."""


def build(t):
    """Real formula of a tree, through the real constructors."""
    op = t[0]
    if op == "atom":
        return ATOM[t[1]](t[2])
    if op == "true":
        return B.TrueFormula(logic=LG[t[1]])
    if op == "false":
        return B.FalseFormula(logic=LG[t[1]])
    if op == "ptrue":
        return PTRUE[t[1]]()
    if op == "pfalse":
        return PFALSE[t[1]]()
    if op == "pred":
        return FOL.Predicate(t[1], [build(a) for a in t[2:]])
    if op == "var":
        return FOL.Variable(t[1])
    if op == "const":
        return FOL.Constant(t[1])
    if op == "fun":
        return FOL.Function(t[1], [build(a) for a in t[2:]])
    return OP2CLS[op](*[build(a) for a in t[1:]])


def read(f):
    """Tree of a real formula (public accessors only)."""
    c = type(f)
    if c in CLS2OP:
        op = CLS2OP[c]
        if op in QUANT:
            return (op, read(f.variable), read(f.formula))
        if op in MOD:
            return (op, read(f.regular_expression), read(f.tail_formula))
        if hasattr(f, "operands"):
            return (op,) + tuple(read(o) for o in f.operands)
        return (op, read(f.argument))
    if c in ATOM.values():
        return ("atom", LGI[f.logic], f.name)
    if c is B.TrueFormula:
        return ("true", LGI[f.logic])
    if c is B.FalseFormula:
        return ("false", LGI[f.logic])
    if c in PTRUE.values():
        return ("ptrue", LGI[f.logic])
    if c in PFALSE.values():
        return ("pfalse", LGI[f.logic])
    if c is FOL.Predicate:
        return ("pred", f.name) + tuple(read(o) for o in f.operands)
    if c is FOL.Variable:
        return ("var", f.name)
    if c is FOL.Constant:
        return ("const", f.name)
    if c is FOL.Function:
        return ("fun", f.name) + tuple(read(o) for o in f.operands)
    raise ReadError(f"not a formula of the library: {c!r}")


def logic(t):
    """Logic a tree belongs to."""
    op = t[0]
    if op in ("atom", "true", "false", "ptrue", "pfalse"):
        return t[1]
    if op in LOGIC_OF_OP:
        return LOGIC_OF_OP[op]
    if op in ("pred", "var", "const", "fun"):
        return "fol"
    return logic(t[1])


def key(t):
    """Structural equality key (C04): set comparison for the commutative connectives."""
    op = t[0]
    if op in ("atom", "true", "false", "ptrue", "pfalse", "var", "const"):
        return t
    if op in ("pred", "fun"):
        return (op, t[1]) + tuple(key(a) for a in t[2:])
    ks = [key(a) for a in t[1:]]
    if op in ("and", "or", "equiv", "union"):
        return (op, frozenset(ks))
    return (op,) + tuple(ks)


def depth(t):
    return 1 + max([depth(a) for a in t[1:] if isinstance(a, tuple)], default=0)


def size(t):
    return 1 + sum(size(a) for a in t[1:] if isinstance(a, tuple))


# ---------------------------------------------------------------- truth
def bool_leaves(t, acc=None):
    """Keys of the maximal non-boolean subformulas."""
    acc = {} if acc is None else acc
    op = t[0]
    if op in ("true", "false"):
        return acc
    if op in BOOLEAN:
        for a in t[1:]:
            bool_leaves(a, acc)
        return acc
    if op == "pfalse":
        t = ("ptrue", t[1])
    acc.setdefault(key(t), t)
    return acc


def val(t, asg):
    """Truth value of a tree given the values of its non-boolean leaves."""
    op = t[0]
    if op == "true":
        return True
    if op == "false":
        return False
    if op == "not":
        return not val(t[1], asg)
    if op == "and":
        return all(val(a, asg) for a in t[1:])
    if op == "or":
        return any(val(a, asg) for a in t[1:])
    if op == "implies":
        return (not all(val(a, asg) for a in t[1:-1])) or val(t[-1], asg)
    if op == "equiv":
        r = True
        for a in t[1:]:
            r = (r == val(a, asg))
        return r
    if op == "pfalse":
        return not asg[("ptrue", t[1])]
    return asg[key(t)]


def assignments(leaves, rng, limit=64):
    ks = list(leaves)
    n = len(ks)
    if 2 ** n <= limit:
        for bits in itertools.product((False, True), repeat=n):
            yield dict(zip(ks, bits))
    else:
        yield dict.fromkeys(ks, False)
        yield dict.fromkeys(ks, True)
        for k in ks[:limit // 4]:
            d = dict.fromkeys(ks, False); d[k] = True
            yield d
            d = dict.fromkeys(ks, True); d[k] = False
            yield d
        for _ in range(limit // 2):
            yield {k: rng.random() < .5 for k in ks}


# ---------------------------------------------------------------- normal form
def neg(t):
    """Reference negation."""
    if t[0] == "not":
        return t[1]
    if t[0] == "true":
        return ("false", t[1])
    if t[0] == "false":
        return ("true", t[1])
    if t[0] == "ptrue":
        return ("pfalse", t[1])
    if t[0] == "pfalse":
        return ("ptrue", t[1])
    return ("not", t)


def flat(op, ts):
    for t in ts:
        if t[0] == op:
            yield from flat(op, t[1:])
        else:
            yield t


def norm1(op, args):
    """Reference result of one constructor application on normalised operands."""
    if op == "not":
        return neg(args[0])
    if op in ("and", "or"):
        lg = logic(args[0])
        ab, ident = (("false", lg), ("true", lg)) if op == "and" else (("true", lg), ("false", lg))
        out, seen = [], set()
        for a in flat(op, args):
            k = key(a)
            if k == ident or k in seen:
                continue
            seen.add(k)
            out.append(a)
        if any(key(a) == ab for a in out) or any(key(neg(a)) in seen for a in out):
            return ab
        if not out:
            return ident
        return out[0] if len(out) == 1 else (op,) + tuple(out)
    if op == "implies":
        if len(args) == 1:
            return args[0]
        return ("implies",) + tuple(args)
    if op == "equiv":
        d = {}
        for a in args:
            d.setdefault(key(a), a)
        ds = list(d.values())
        return ds[0] if len(ds) == 1 else ("equiv",) + tuple(ds)
    return (op,) + tuple(args)


def norm(t):
    """Reference normal form of a whole tree (bottom-up)."""
    if t[0] in ("atom", "true", "false", "ptrue", "pfalse", "pred", "var", "const", "fun"):
        return t
    return norm1(t[0], [norm(a) for a in t[1:]])


def show(t):
    """Compact text of a tree for reports."""
    op = t[0]
    if op == "atom":
        return t[2] if t[1] == "pl" else f"{t[2]}@{t[1]}"
    if op in ("true", "false", "ptrue", "pfalse"):
        return f"{op}@{t[1]}"
    if op in ("var", "const"):
        return t[1]
    if op in ("pred", "fun"):
        return f"{t[1]}({', '.join(map(show, t[2:]))})"
    return f"{op}({', '.join(map(show, t[1:]))})"


def to_json(t):
    return [to_json(a) if isinstance(a, tuple) else a for a in t]


def from_json(l):
    return tuple(from_json(a) if isinstance(a, list) else a for a in l)
