"""C13: ill-formed formulas cannot be constructed; a formula keeps its parts."""
from .verify import *  # noqa: F401,F403
from .verify import I, z3, TT, real_objects, made, raises, atom_name
from .p_cons import hash_consing, HC, B, make_boolean_c, env
from . import core

SCOPE = [c for c in CLASSES if c not in QUANT and not c.__module__.endswith(".fol")]


def base_env(it):
    accessors(it)
    it.contracts[HC] = hash_consing
    it.contracts[B.AtomName] = atom_name
    return it


def term_object(it, cls=None):
    """A term of first-order logic (not a formula, but it has a logic)."""
    return it.alloc("inst", cls or FOL.Variable, {"name": SStr([it.run.fresh(Str, "name")])})


def bad(it, kind):
    return I.NON if kind == "object" else term_object(it)


def where(c):
    return c.__module__.rsplit(".", 1)[1] + "." + c.__name__


def rejected(it, f):
    r = raises(it, f, Exception)
    return [("rejected with an exception", r[0] == "raise", f"returns {r[1]!r}")]


def seqs(it, n, lg=None):
    run = it.run
    out = []
    for i in range(n):
        s = run.fresh(S, "args")
        run.sterm[s.get_id()] = s
        run.assume(slen(s) >= 0)
        if lg is not None:
            run.assume(All(klg(key(GE)) == lg, s))
        out.append(s)
    return out


def keep(V_):
    """The object that the real constructor makes of valid parts has exactly those parts and their logic."""
    for c in SCOPE:
        def body(it, c=c):
            run = it.run
            base_env(it)
            x = run.fresh(F, "x")
            run.assume(kcls(key(x)) == CC[c])
            lg = FIXED_LG.get(c)
            out = []
            if c in NARY:
                s = ops(x)
                run.sterm[s.get_id()] = s
                run.assume(slen(s) >= 2)
                if lg:
                    run.assume(All(klg(key(GE)) == LC[lg], s))
                else:
                    run.assume(All(klg(key(GE)) == klg(key(x)), s))
                o = it.alloc("inst", c, {})
                it.call(it.class_lookup(c, "__init__"), [o, ("*segs", [run.seg(s)])])
                r = it.getattr(o, "operands")
                out = [("operands: a tuple of exactly the given formulas", isinstance(r, Tup) and it.seq_eq(r.segs, [run.seg(s)]) is True)]
                if c not in (B.And, B.Or, B.Implies, B.Equivalence):
                    z = it.call(c, [("*segs", [run.seg(s)])])
                    r = it.getattr(z, "operands")
                    out.append(("the class call keeps the operands", it.type_of(z) is c and isinstance(r, Tup) and it.seq_eq(r.segs, [run.seg(s)]) is True))
            elif c in UNARY:
                a = run.fresh(F, "a")
                allowed = getattr(c, "ALLOWED_LOGICS", None)
                forbidden = getattr(c, "FORBIDDEN_LOGICS", None)
                if c is B.Not:
                    run.assume(z3.Not(in_cls(key(a), is_sub(B.Not, B.TrueFormula, B.FalseFormula))))
                    run.assume(klg(key(a)) == klg(key(x)))
                elif c in (LDL.Prop, LDL.Star, LDL.Test):
                    pass
                else:
                    run.assume(klg(key(a)) == LC[lg])
                o = it.call(c, [SF(a)])
                r = it.getattr(o, "argument")
                out = [("argument: exactly the given formula", it.type_of(o) is c and isinstance(r, SF) and r.t.eq(a))]
            elif c in ATOMS:
                n = run.fresh(Str, "n")
                o = it.call(c, [SStr([n])])
                r = it.getattr(o, "name")
                out = [("name: exactly the given text", isinstance(r, SStr) and r.parts == (n,))]
            elif c in MODAL:
                a, b = run.fresh(F, "a"), run.fresh(F, "b")
                run.assume(z3.And(klg(key(a)) == LC[Logic.RE], klg(key(b)) == LC[Logic.LDL]))
                o = it.call(c, [SF(a), SF(b)])
                r1, r2 = it.getattr(o, "regular_expression"), it.getattr(o, "tail_formula")
                out = [("parts: exactly the given formulas", isinstance(r1, SF) and r1.t.eq(a) and isinstance(r2, SF) and r2.t.eq(b))]
            else:
                l2 = run.fresh(Lg, "lg")
                if lg:
                    o = it.call(c, [])
                else:
                    o = it.call(c, [], {"logic": SLg(l2)})
                    return [("logic: the given one", it.logic_term(it.getattr(o, "logic")) == l2)]
            got = it.logic_term(it.getattr(o, "logic"))
            want = LC[lg] if lg else klg(key(x))
            out.append(("belongs to the logic of its parts", got == want))
            return out
        V_.oblige(f"{where(c)}: parts", f"syntax.{where(c)}", body, mode=("wf",))


def fol_keep(V_):
    for c in QUANT:
        def body(it, c=c):
            base_env(it)
            v = term_object(it)
            a = it.run.fresh(F, "a")
            it.run.assume(klg(key(a)) == LC[Logic.FOL])
            o = it.call(c, [v, SF(a)])
            r1, r2 = it.getattr(o, "variable"), it.getattr(o, "formula")
            return [("parts: exactly the given variable and formula", r1 is v and isinstance(r2, SF) and r2.t.eq(a)),
                    ("belongs to first-order logic", it.logic_term(it.getattr(o, "logic")) == LC[Logic.FOL])]
        V_.oblige(f"{where(c)}: parts", f"syntax.{where(c)}", body, mode=("wf",))


def reject(V_):
    for c in NARY + UNARY + MODAL + QUANT:
        def none(it, c=c):
            base_env(it)
            return rejected(it, lambda: it.call(c, []))
        V_.oblige(f"{where(c)}() without operands", f"syntax.{where(c)}.__call__", none, mode=("wf",))
    for c in NARY:
        if c in (B.And, B.Or, B.Implies, B.Equivalence):
            continue

        def one(it, c=c):
            base_env(it)
            x = it.run.fresh(F, "x")
            return rejected(it, lambda: it.call(c, [SF(x)]))
        V_.oblige(f"{where(c)} of one operand", f"syntax.{where(c)}.__init__", one, mode=("wf",))
        for k in ("object", "term"):
            def nonf(it, c=c, k=k):
                base_env(it)
                a, b = seqs(it, 2)
                return rejected(it, lambda: it.call(c, [("*segs", [it.run.seg(a), ("e", bad(it, k)), it.run.seg(b)])]))
            V_.oblige(f"{where(c)} with an operand that is not a formula ({k})", f"syntax.{where(c)}.__init__", nonf, mode=("wf",))
    for c in UNARY:
        for k in ("object", "term"):
            def nonf1(it, c=c, k=k):
                base_env(it)
                return rejected(it, lambda: it.call(c, [bad(it, k)]))
            V_.oblige(f"{where(c)} of something that is not a formula ({k})", f"syntax.{where(c)}.__init__", nonf1, mode=("wf",))
    # boolean connectives: the constructor of the object itself (the simplification before it is covered below)
    for c in (B.And, B.Or, B.Implies, B.Equivalence):
        for k in ("object", "term"):
            def init(it, c=c, k=k):
                base_env(it)
                a, b = seqs(it, 2)
                o = it.alloc("inst", c, {})
                return rejected(it, lambda: it.call(it.class_lookup(c, "__init__"), [o, ("*segs", [it.run.seg(a), ("e", bad(it, k)), it.run.seg(b)])]))
            V_.oblige(f"{where(c)}.__init__ with an operand that is not a formula ({k})", f"syntax.{where(c)}.__init__", init, mode=("wf",))

            def call(it, c=c, k=k):
                env(it)
                a, b = seqs(it, 2)
                return rejected(it, lambda: it.call(c, [("*segs", [it.run.seg(a), ("e", bad(it, k)), it.run.seg(b)])]))
            V_.oblige(f"{where(c)} with an operand that is not a formula ({k})", f"syntax.{where(c)}.__call__", call, mode=("wf",))

        def few(it, c=c):
            base_env(it)
            s, = seqs(it, 1)
            it.run.assume(slen(s) <= 1)
            o = it.alloc("inst", c, {})
            return rejected(it, lambda: it.call(it.class_lookup(c, "__init__"), [o, ("*segs", [it.run.seg(s)])]))
        V_.oblige(f"{where(c)}.__init__ with fewer than two operands", f"syntax.{where(c)}.__init__", few, mode=("wf",))

        def regex(it, c=c):
            env(it)
            s, = seqs(it, 1, LC[Logic.RE])
            run = it.run
            run.assume(slen(s) >= 2)
            run.assume(All(in_cls(key(GE), [LDL.Seq, LDL.Union, LDL.Star, LDL.Test, LDL.Prop]), s))
            r = raises(it, lambda: it.call(c, [("*segs", [run.seg(s)])]), Exception)
            # the operands are pairwise different, or the only one is returned
            if r[0] == "raise":
                return [("rejected, or no connective is built", True)]
            # (one distinct operand is returned as it is, without a connective)
            return [("rejected, or no connective is built", isinstance(r[1], SF) and c is not B.Implies)]
        V_.oblige(f"{where(c)} over regular expressions", f"syntax.{where(c)}.__call__", regex, mode=("wf",), seconds=120)
    for c in MODAL:
        for i, lg in ((0, Logic.RE), (1, Logic.LDL)):
            def modal(it, c=c, i=i, lg=lg):
                base_env(it)
                run = it.run
                a = [run.fresh(F, "a"), run.fresh(F, "b")]
                run.assume(klg(key(a[i])) != LC[lg])
                return rejected(it, lambda: it.call(c, [SF(a[0]), SF(a[1])]))
            V_.oblige(f"{where(c)}: part {i + 1} of another logic", f"syntax.{where(c)}.__init__", modal, mode=("wf",))

            def modal_bad(it, c=c, i=i, lg=lg):
                base_env(it)
                a = [SF(it.run.fresh(F, "a")), SF(it.run.fresh(F, "b"))]
                a[i] = I.NON
                return rejected(it, lambda: it.call(c, a))
            V_.oblige(f"{where(c)}: part {i + 1} not a formula", f"syntax.{where(c)}.__init__", modal_bad, mode=("wf",))
    for c in QUANT:
        for k in ("object", "formula", "Constant", "Function"):
            def var(it, c=c, k=k):
                base_env(it)
                a = it.run.fresh(F, "a")
                it.run.assume(klg(key(a)) == LC[Logic.FOL])
                v = I.NON if k == "object" else SF(it.run.fresh(F, "v")) if k == "formula" else term_object(it, getattr(FOL, k))
                return rejected(it, lambda: it.call(c, [v, SF(a)]))
            V_.oblige(f"{where(c)} over something that is not a variable ({k})", f"syntax.{where(c)}.__init__", var, mode=("wf",))
        for k in ("object", "formula of another logic"):
            def bodyf(it, c=c, k=k):
                base_env(it)
                v = term_object(it)
                a = it.run.fresh(F, "a")
                it.run.assume(klg(key(a)) != LC[Logic.FOL])
                return rejected(it, lambda: it.call(c, [v, I.NON if k == "object" else SF(a)]))
            V_.oblige(f"{where(c)}: body is {k}", f"syntax.{where(c)}.__init__", bodyf, mode=("wf",))


def prove(V_):
    keep(V_)
    fol_keep(V_)
    reject(V_)
    return V_.result(assumptions=[
        "_HashConsing.__call__ returns the object made by type.__call__ or an equal one (C05)",
        "an operand that is not a formula is modelled by an object without any attribute of a formula, and by a term (which has a logic)",
        "AtomName(text) is the text when it is a valid name (C09)"])
