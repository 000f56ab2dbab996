"""C01 / C03: the boolean constructors."""
from .verify import *  # noqa: F401,F403
from .verify import I, z3, TT, accessors, raises
from . import core
from .loops import PI
from .core import First, set_like, inst, V, NV, impl_val, dist, cfree, negk, negf, constf, kconst

BASE = "syntax.base:"
HC = B._HashConsing.__call__


def hash_consing(i, a, k):
    """Contract of _HashConsing.__call__ (proved under C05): the object made by type.__call__, or an equal one."""
    return i.type_call(a[0], list(a[1:]), k)


def make_boolean_c(i, a, k):
    """Contract of make_boolean (proved here): the constant of that logic."""
    args = list(a)
    v = args[0] if args else k["value"]
    lg = args[1] if len(args) > 1 else k["logic"]
    v = i.run.branch(i.truth(v))
    return SF(constf(CC[B.TrueFormula if v else B.FalseFormula], i.logic_term(lg)))


def invert_c(i, x):
    """Contract of ~ on a formula (proved here for every class): the negation."""
    return I.Builtin("__invert__", lambda i2, a, k: SF(negf(x.t)))


def env(it, skip=()):
    accessors(it)
    if "hc" not in skip:
        it.contracts[HC] = hash_consing
    if "make_boolean" not in skip:
        it.contracts[B.make_boolean] = make_boolean_c
    if "invert" not in skip:
        it.attrs["__invert__"] = lambda i, x, *a: SF(negf(x.t))
    return it


def operands(it, lg=None):
    """A non-empty list of formulas of one logic (not RE)."""
    run = it.run
    s = run.fresh(S, "args")
    run.sterm[s.get_id()] = s
    lg = run.fresh(Lg, "lg") if lg is None else lg
    run.assume(lg != LC[Logic.RE])
    run.assume(All(klg(key(GE)) == lg, s))
    run.assume(slen(s) >= 1)
    return s, lg


def op_segs(it, r):
    """Operand segments of a new n-ary object."""
    return it.zsegs(it.segs_of(it.getattr(r, "operands")))


def new_logic(it, r):
    return it.logic_term(it.getattr(r, "logic"))


def value(it, r):
    """Truth value of a result, read off its class and parts."""
    run = it.run
    if isinstance(r, SF):
        return kval(key(r.t))
    c = it.obj(r).cls
    if c is B.TrueFormula:
        return z3.BoolVal(True)
    if c is B.FalseFormula:
        return z3.BoolVal(False)
    if c is B.Not:
        return z3.Not(value(it, it.getattr(r, "argument")))
    segs = op_segs(it, r)
    v = lambda e: kval(key(e))
    if c is B.And:
        return run.all_segs(v, segs)
    if c is B.Or:
        return z3.Not(run.all_segs(lambda e: z3.Not(v(e)), segs))
    if c is B.Implies:
        return run.rel_segs("ImpVal", segs)
    raise Unsupported(f"value of an instance of {c.__name__}")


def logic(it, r):
    return klg(key(r.t)) if isinstance(r, SF) else new_logic(it, r)


def call_op(it, c, s):
    return it.call(c, [("*segs", [it.run.seg(s)])])


def result_shape(it, c, r):
    """Clauses of C03 on the operands of a new conjunction or disjunction."""
    run = it.run
    segs = op_segs(it, r)
    bad = [c, B.TrueFormula, B.FalseFormula]
    return [("at least two operands", run.len_segs(segs) >= 2),
            ("no two equal operands", run.rel_segs("Distinct", segs)),
            ("no formula together with its negation", run.rel_segs("CompFree", segs)),
            ("no operand of the same connective, no constant", run.all_segs(lambda e: z3.Not(in_cls(key(e), bad)), segs))]


def order_spec(it, c):
    """Two arbitrary formulas (up to equality) and the one of them that occurs first in the flattened sequence."""
    run = it.run
    ka, kb = z3.Const("ka", K), z3.Const("kb", K)
    run.assume(z3.And(ka != kb, z3.Not(in_cls(ka, [c, B.TrueFormula, B.FalseFormula])), z3.Not(in_cls(kb, [c, B.TrueFormula, B.FalseFormula]))))
    plain = z3.If(key(GE) == ka, z3.IntVal(1), z3.If(key(GE) == kb, z3.IntVal(2), z3.IntVal(0)))
    # position of a formula in the flattened sequence: that of its operands if it is of the connective, else its own
    fl = z3.Function(f"flat<{c.__name__}>", F, INT)

    def unfold(a):
        x = a.arg(0)
        yield imp(kcls(key(x)) != CC[c], a == inst(plain, x))
        if not core.is_witness(x):
            yield imp(kcls(key(x)) == CC[c], a == First(plain, ops(x)))
    core.trigger(fl.name(), unfold)
    flat = fl(GE)
    set_like.add(flat.get_id())
    core._keep.append(flat)
    it.fstpool = [flat]
    return flat


def C03_mono(V_, c):
    def body(it):
        env(it)
        it.base_pool = [PI]
        it.pool = [z3.Not(in_cls(key(GE), [B.TrueFormula, B.FalseFormula])), z3.Not(in_cls(key(GE), [c, B.TrueFormula, B.FalseFormula]))]
        s, lg = operands(it)
        r = call_op(it, c, s)
        if isinstance(r, SF):
            return [("no new formula: nothing to normalise", True)]
        return result_shape(it, c, r)
    V_.oblige(f"{c.__name__}(*operands)", BASE + "_MonotoneBinaryOp/" + c.__name__, body, mode=("wf",))

    def order(it):
        env(it)
        it.base_pool = [PI]
        it.pool = [z3.Not(kcls(key(GE)) == CC[c])]
        s, lg = operands(it)
        flat = order_spec(it, c)
        r = call_op(it, c, s)
        want = First(flat, s)
        if isinstance(r, SF):
            absorbing = B.FalseFormula if c is B.And else B.TrueFormula
            return [("order of first occurrence", z3.Or(key(r.t) == kconst(CC[absorbing], lg), inst(flat, r.t) == want))]
        return [("order of first occurrence", it.run.first_segs(lambda v: inst(flat, v), op_segs(it, r)) == want)]
    V_.oblige(f"{c.__name__}(*operands)", BASE + "_MonotoneBinaryOp/" + c.__name__, order, mode=("wf",), seconds=200)


def prove_C03(V_):
    for c in (B.And, B.Or):
        C03_mono(V_, c)
    negation(V_)
    return V_.result(assumptions=ASSUME + ["lemma: equal conjunctions (disjunctions) have the same set of operands (C04)"])


def C01_mono(V_, c):
    def body(it):
        env(it)
        s, lg = operands(it)
        r = call_op(it, c, s)
        spec = All(V, s) if c is B.And else z3.Not(All(NV, s))
        return [("value", value(it, r) == spec), ("logic", logic(it, r) == lg)]
    V_.oblige(f"{c.__name__}(*operands)", BASE + "_MonotoneBinaryOp/" + c.__name__, body, seconds=250)


def C01_implies(V_):
    def body(it):
        env(it)
        s, lg = operands(it)
        r = call_op(it, B.Implies, s)
        return [("value", value(it, r) == impl_val(s)), ("logic", logic(it, r) == lg)]
    V_.oblige("Implies(*operands)", BASE + "_MetaImpliesOp", body)


def C01_equivalence(V_):
    """The result is the exclusive-nor of the distinct operands (repetitions are dropped: known finding)."""
    def body(it):
        env(it)
        run = it.run
        it.base_pool = [PI]
        s, lg = operands(it)
        pi = lambda v: inst(PI, v)
        r = call_op(it, B.Equivalence, s)
        if isinstance(r, SF):
            return [("one operand: the others are equal to it", All(key(GE) == key(r.t), s)), ("logic", logic(it, r) == lg)]
        if it.obj(r).cls is not B.Equivalence:
            return [("connective", False)]
        segs = op_segs(it, r)
        return [("same operands", run.all_segs(pi, segs) == All(PI, s)), ("each operand once", run.rel_segs("Distinct", segs)), ("logic", logic(it, r) == lg),
                ("at least two operands", run.len_segs(segs) >= 2)]
    V_.oblige("Equivalence(*operands)", BASE + "_MetaEquivalenceOp", body, mode=("wf",))


def one(it, cs=None, notre=True):
    run = it.run
    x = run.fresh(F, "x")
    if cs is not None:
        run.assume(in_cls(key(x), cs))
    if notre:
        run.assume(klg(key(x)) != LC[Logic.RE])
    arg(x)
    return x


def is_negation(it, r, x):
    """Clauses: r is the negation of the formula x, normalised."""
    run = it.run
    if isinstance(r, SF):
        return [("is the negation", key(r.t) == negk(key(x))), ("logic", klg(key(r.t)) == klg(key(x)))]
    c = it.obj(r).cls
    if c is B.Not:
        a = it.formula_term(it.getattr(r, "argument"))
        return [("is the negation", key(a) == key(x)), ("does not wrap a negation or a constant", z3.Not(in_cls(key(x), [B.Not, B.TrueFormula, B.FalseFormula] + TRUTH))),
                ("logic", new_logic(it, r) == klg(key(x)))]
    # a new constant
    return [("is the negation", z3.And(in_cls(key(x), TRUTH), kcls(negk(key(x))) == CC[c])), ("logic", new_logic(it, r) == klg(key(x)))]


def negation(V_):
    for cs, nm in (([c for c in CLASSES if c not in TRUTH + [B.Not]], "other formula"), ([B.Not], "Not"), *[([c], c.__name__) for c in (B.TrueFormula, B.FalseFormula)],
                   (is_sub(B.TrueFormula, B.FalseFormula)[2:], "constants of LTL and PLTL")):
        def body(it, cs=cs):
            env(it)
            x = one(it, cs)
            return is_negation(it, it.call(B.Not, [SF(x)]), x)
        V_.oblige(f"Not({nm})", BASE + "Not", body)

        def body2(it, cs=cs):
            env(it, skip=("invert",))
            # Not(x) by the contract above
            it.contracts[type(B.Not).__call__] = lambda i, a, k: not_c(i, a, k)
            x = one(it, cs)
            return is_negation(it, it.call_method(SF(x), "__invert__"), x)
        V_.oblige(f"~({nm})", BASE + "__invert__", body2)


def not_c(i, a, k):
    if a[0] is B.Not and len(a) == 2:
        t = i.formula_term(a[1])
        if t is not None:
            return SF(negf(t))
    return hash_consing(i, a, k)


def constants(V_):
    for v in (True, False):
        for kw in (True, False):
            def body(it, v=v, kw=kw):
                env(it, skip=("make_boolean",))
                lg = it.run.fresh(Lg, "lg")
                r = it.call(B.make_boolean, [v, SLg(lg)]) if not kw else it.call(B.make_boolean, [v], {"logic": SLg(lg)})
                if isinstance(r, SF):
                    return [("constant", False)]
                return [("constant of that value", it.obj(r).cls is (B.TrueFormula if v else B.FalseFormula)), ("logic", new_logic(it, r) == lg)]
            V_.oblige(f"make_boolean({v}{', logic=' if kw else ', '}L)", BASE + "make_boolean", body)


def nary_contract(c, spec):
    """Contract of And/Or on explicit formulas, as proved above: a formula with that value and logic."""
    def h(i, a, k):
        run = i.run
        ts = [i.formula_term(x) for x in a[1:]]
        if any(t is None for t in ts) or not ts:
            raise Unsupported("operands")
        r = run.fresh(F, "res")
        run.assume(kval(key(r)) == spec([kval(key(t)) for t in ts]))
        run.assume(klg(key(r)) == klg(key(ts[0])))
        return SF(r)
    return h


def operators(V_):
    """& | >> on any two formulas of one logic."""
    for name, spec in (("__and__", lambda p, q: z3.And(p, q)), ("__or__", lambda p, q: z3.Or(p, q)), ("__rshift__", lambda p, q: z3.Or(z3.Not(p), q))):
        def body(it, name=name, spec=spec):
            env(it)
            x, y = one(it), one(it)
            it.run.assume(klg(key(x)) == klg(key(y)))
            hand, hor = nary_contract(B.And, z3.And), nary_contract(B.Or, z3.Or)

            def h(i, a, k):
                if a[0] is B.And:
                    return hand(i, a, k)
                if a[0] is B.Or:
                    return hor(i, a, k)
                return i.call_live(type(a[0]).__call__, list(a), k)
            it.contracts[B._MonotoneBinaryOp.__call__] = h
            hc = it.contracts[HC]
            it.contracts[HC] = lambda i, a, k: not_c(i, a, k) if a[0] is B.Not else hc(i, a, k)
            r = it.call_method(SF(x), name, [SF(y)])
            return [("value", value(it, r) == spec(kval(key(x)), kval(key(y)))), ("logic", logic(it, r) == klg(key(x)))]
        V_.oblige(f"{name}", BASE + "Formula." + name, body)


def prove_C01(V_):
    for c in (B.And, B.Or):
        C01_mono(V_, c)
    C01_implies(V_)
    C01_equivalence(V_)
    negation(V_)
    constants(V_)
    operators(V_)
    return V_.result(assumptions=ASSUME + [
        "lemma used for Equivalence: two sequences without repetitions and with the same elements have the same exclusive-nor (finite sums over Z2 commute)"])


ASSUME = ["equality of formulas is the structural equality of C04 and agrees with hash (contract of == and hash, proved under C04); dict.fromkeys keeps the first of equal "
          "keys, in order (CPython)",
          "operands satisfy the invariants that the constructors establish (C03, C13: proved for every constructor)",
          "_HashConsing.__call__ returns the object made by type.__call__ or an equal one (C05)",
          "termination is not proved"]
