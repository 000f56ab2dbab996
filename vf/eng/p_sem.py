"""C02: propositional evaluation computes the truth-table value."""
from .verify import *  # noqa: F401,F403
from .verify import I, z3, TT, accessors, name_attr, raises, rank, subformula_ranks
from pylogics_modalities.semantics.pl import evaluate_pl
from pylogics_modalities.exceptions import PylogicsError

HAS = z3.Function("interp_has", Str, BOOL)
VAL = z3.Function("interp_val", Str, BOOL)


def term_of_str(it, s):
    if isinstance(s, SStr) and len(s.parts) == 1 and z3.is_expr(s.parts[0]):
        return s.parts[0]
    if isinstance(s, str):
        return z3.Const(f"lit<{s}>", Str)
    raise Unsupported("key of an interpretation")


def mapping(it, valued):
    """A dictionary from names to booleans (valued), or the dictionary made from a set of true names."""
    def val(s):
        return VAL(s) if valued else z3.BoolVal(True)

    def get(i, a, k):
        s = term_of_str(i, a[0])
        d = a[1] if len(a) > 1 else None
        if d is None and i.run.branch(z3.Not(HAS(s))):
            return None
        if d is None:
            return SB(val(s))
        if not isinstance(d, (bool, SB)):
            raise Unsupported("default value")
        return SB(z3.If(HAS(s), val(s), TT(d.t if isinstance(d, SB) else d)))

    def getitem(i, x):
        s = term_of_str(i, x)
        if not i.run.branch(HAS(s)):
            raise PyRaise(KeyError)
        return SB(val(s))

    def attr(i, v, name, default):
        if name == "get":
            return I.Builtin("dict.get", get)
        if name == "copy":
            return I.Builtin("dict.copy", lambda i2, a, k: v)
        if name == "__contains__":
            return I.Builtin("in", lambda i2, a, k: SB(HAS(term_of_str(i2, a[0]))))
        raise Unsupported(f"dict.{name}")
    return Opq("dict interpretation", {"cls": dict, "attr": attr, "getitem": getitem,
                                       "contains": lambda i, x: SB(HAS(term_of_str(i, x)))})


def set_interp(it):
    def fromkeys(i, v):
        if v is not True:
            raise Unsupported("fromkeys with another value")
        return mapping(i, False)
    return Opq("set interpretation", {"cls": set, "fromkeys": fromkeys, "contains": lambda i, x: SB(HAS(term_of_str(i, x)))})


def spec_atoms(run, x, valued):
    """The value of an atom is the value of its name in the interpretation (missing: false)."""
    n = kname(key(x))
    run.assume(imp(kcls(key(x)) == CC[PL.Atomic], kval(key(x)) == z3.And(HAS(n), VAL(n) if valued else True)))


def setup(it, cs, valued):
    run = it.run
    accessors(it)
    name_attr(it)
    x = run.fresh(F, "phi")
    run.assume(in_cls(key(x), cs))
    subformula_ranks(run, x)
    # the constants of the other logics are accepted as constants (only atoms and operators are rejected)
    run.assume(imp(in_cls(key(x), is_sub(B.TrueFormula)), kval(key(x))))
    run.assume(imp(in_cls(key(x), is_sub(B.FalseFormula)), z3.Not(kval(key(x)))))
    spec_atoms(run, x, valued)
    interp = mapping(it, True) if valued else set_interp(it)
    first = [True]

    def rec(i, a, k):
        if first[0]:
            first[0] = False
            return i.call(evaluate_pl, a, k, bypass=True)
        arg_t = i.formula_term(a[0])
        if arg_t is None or len(a) != 2:
            raise Unsupported("recursive call")
        if not run.valid(rank(arg_t) < rank(x)):
            raise Unsupported("recursive call on something that is not a proper subformula")
        if a[1] is not interp:
            raise Unsupported("recursive call with another interpretation")
        return SB(kval(key(arg_t)))
    it.contracts[evaluate_pl] = rec
    # contract of AtomName on the name of an atom, which is a valid atom name (C09): the same text

    def atom_name(i, a, k):
        s = i.to_str(a[0])
        return SStr(s.parts if isinstance(s, SStr) else [s], B.AtomName)
    it.contracts[B.AtomName] = atom_name
    return x, interp


def prove(V):
    for valued in (True, False):
        kind = "dictionary" if valued else "set"
        for c in BOOLOP + [PL.Atomic] + TRUTH:
            def body(it, c=c):
                x, interp = setup(it, [c], valued)
                r = it.call(evaluate_pl, [SF(x), interp])
                t = it.truth(r)
                ty = z3.BoolVal(it.isinstance(r, bool) is True)
                return [("returns the truth-table value", TT(t) == kval(key(x))), ("returns a boolean", ty)]
            V.oblige(f"evaluate_pl({c.__name__}, {kind})", f"semantics.pl:evaluate_pl/{c.__name__}", body)
        others = [c for c in CLASSES if c not in BOOLOP + [PL.Atomic] + TRUTH]

        def body(it):
            x, interp = setup(it, others, valued)
            r = raises(it, lambda: it.call(evaluate_pl, [SF(x), interp]), PylogicsError)
            return [("rejected with PylogicsError", r[0] == "raise")]
        V.oblige(f"evaluate_pl(other class, {kind})", "semantics.pl:evaluate_pl/others", body)
    return V.result(
        assumptions=["recursive calls: the contract of evaluate_pl on proper subformulas (structural induction; every recursive call is checked to be on a "
                     "formula of smaller rank with the same interpretation)",
                     "the name of an atom is a valid atom name, so AtomName(name) is the same text (C09)",
                     "an interpretation dictionary has boolean values; dict.get and membership behave as in CPython"])
