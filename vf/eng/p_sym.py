"""C16: applying and printing predicate and function symbols."""
from .verify import *  # noqa: F401,F403
from .verify import I, z3, TT, raises
from . import core

HC = B._HashConsing.__call__
is_term = z3.Function("is_term", F, BOOL)      # elements of the argument sequences are arbitrary objects, some of them terms


def setup(it):
    it.contracts[HC] = lambda i, a, k: i.type_call(a[0], list(a[1:]), k)

    def isinst(i, v, c):
        if c is FOL.Term:
            return SB(is_term(v.t))
        if isinstance(c, type) and issubclass(c, (FOL.Term, Formula, str, int, list)):
            raise Unsupported(f"isinstance of an argument with {c.__name__}")
        raise Unsupported("isinstance of an argument")
    it.isinstance_hook = isinst
    it.str_formula = lambda i, x, r: SStr([strf(x.t)]) if isinstance(x, SF) and not r else SStr([I.Opq("text")])
    it.strict_str = False
    return it


def seq(it, name):
    s = it.run.fresh(S, name)
    it.run.sterm[s.get_id()] = s
    it.run.assume(slen(s) >= 0)
    return s


def exactly(it, v, s):
    """The value is a sequence with exactly the elements of s."""
    if isinstance(v, Tup):
        segs = v.segs
    elif isinstance(v, Ref) and it.obj(v).kind == "list":
        segs = it.obj(v).data
    else:
        raise Unsupported(f"arguments in {v!r}")
    segs = [g for g in segs]
    if len(segs) == 1 and segs[0][0] == "c" and segs[0][1].eq(s) and not segs[0][2] and z3.is_true(segs[0][3]) and segs[0][4] is GE:
        return True
    if not segs:
        return slen(s) == 0
    raise Unsupported("arguments that are not the given sequence")


def named(v, n):
    if isinstance(v, SStr) and len(v.parts) == 1 and z3.is_expr(v.parts[0]):
        return v.parts[0] == n
    return False


def parts(it, v):
    return {k: (x, it.obj(x).data if isinstance(x, Ref) and it.obj(x).kind == "list" else None) for k, x in it.obj(v).data.items()}


def join_of(s, p):
    """p is ', '.join(str(e) for e in s)."""
    if not (isinstance(p, I.Opq) and p.tag == "join" and p.data["sep"] == ", "):
        return False
    segs = list(p.data["segs"])
    if len(segs) != 1 or segs[0][0] != "c" or not segs[0][1].eq(s) or segs[0][2] or not z3.is_true(segs[0][3]):
        return False
    b = segs[0][4]
    return isinstance(b, SStr) and len(b.parts) == 1 and z3.is_expr(b.parts[0]) and b.parts[0].eq(strf(GE)) or z3.is_expr(b) and b.eq(strf(GE))


def prove(V_):
    for c in (FOL.Predicate, FOL.Function):
        nm = c.__name__

        def symbol(it, c):
            n = it.run.fresh(Str, "n")
            s = seq(it, "formal")
            return n, s, it.call(c, [SStr([n]), it.new_list([it.run.seg(s)])])

        def keep(it, c=c):
            setup(it)
            n, s, x = symbol(it, c)
            return [("the name is kept", named(it.getattr(x, "name"), n)), ("the arguments are kept", exactly(it, it.getattr(x, "operands"), s))]
        V_.oblige(f"{nm}(name, arguments)", f"syntax.fol:{nm}.__init__", keep, mode=("wf",))

        def call(it, c=c, alias=False):
            setup(it)
            run = it.run
            n, s, x = symbol(it, c)
            a = s if alias else seq(it, "args")
            before = parts(it, x)
            ok = z3.And(slen(a) == slen(s), All(is_term(GE), a))
            r = raises(it, lambda: it.call(x, [("*segs", [run.seg(a)])]), Exception)
            same = before.keys() == parts(it, x).keys() and all(parts(it, x)[k] == v for k, v in before.items())
            out = [("the symbol is unchanged", same)]
            if r[0] == "raise":
                return out + [("accepted when the number matches and all are terms", z3.Not(ok))]
            y = r[1]
            out.append(("rejected when the number differs or some argument is not a term", ok))
            new = isinstance(y, Ref) and y != x and it.obj(y).kind == "inst" and it.obj(y).cls is c
            out.append(("a new object of the same kind", new, f"returns {y!r}"))
            if new:
                out.append(("the same symbol", named(it.getattr(y, "name"), n)))
                out.append(("exactly the given arguments", exactly(it, it.getattr(y, "operands"), a)))
            return out
        V_.oblige(f"{nm} applied", f"syntax.fol:{nm}.__call__", call, mode=("wf",))

        def bad(it, c=c):
            setup(it)
            run = it.run
            n, s, x = symbol(it, c)
            a, b = seq(it, "args"), seq(it, "args")
            r = raises(it, lambda: it.call(x, [("*segs", [run.seg(a), ("e", I.NON), run.seg(b)])]), Exception)
            return [("rejected", r[0] == "raise", f"returns {r[1]!r}")]
        V_.oblige(f"{nm} applied to something that is not a term", f"syntax.fol:{nm}.__call__", bad, mode=("wf",))

        def text(it, c=c):
            setup(it)
            n, s, x = symbol(it, c)
            before = parts(it, x)
            t = it.call_method(x, "__str__")
            same = all(parts(it, x)[k] == v for k, v in before.items())
            p = list(t.parts) if isinstance(t, SStr) else [t]
            out = [("printing changes nothing", same)]
            if len(p) == 1 and z3.is_expr(p[0]):
                return out + [("a bare name only without arguments", z3.And(p[0] == n, slen(s) == 0, c is FOL.Predicate))]
            if len(p) != 4 or p[1] != "(" or p[3] != ")" or not z3.is_expr(p[0]) or not (join_of(s, p[2])):
                raise Unsupported(f"text {p!r}")
            return out + [("name(arguments)", z3.And(p[0] == n, slen(s) > 0 if c is FOL.Predicate else True))]
        V_.oblige(f"{nm} printed", f"syntax.fol:{nm}.__str__", text, mode=("wf",))
        for m in (0, 1, 2, 3):
            def few(it, c=c, m=m):
                setup(it)
                n = it.run.fresh(Str, "n")
                es = [it.run.fresh(F, "e") for _ in range(m)]
                x = it.call(c, [SStr([n]), it.new_list([("e", SF(e)) for e in es])])
                t = it.call_method(x, "__str__")
                p = []
                for q in (t.parts if isinstance(t, SStr) else [t]):
                    if isinstance(q, str) and p and isinstance(p[-1], str):
                        p[-1] += q
                    elif not (isinstance(q, str) and q == ""):
                        p.append(q)
                want = [n]
                if m or c is FOL.Function:
                    want.append("(" if m else "()")
                    for i, e in enumerate(es):
                        want += [strf(e), ", " if i < m - 1 else ")"]
                if any(isinstance(q, I.Opq) for q in p):
                    raise Unsupported(f"text {p!r}")
                same = len(p) == len(want) and all(q.eq(w) if z3.is_expr(q) and z3.is_expr(w) else type(q) is type(w) and q == w for q, w in zip(p, want))
                return [("the documented text", same, f"{p} instead of {want}")]
            V_.oblige(f"{nm} printed with {m} arguments", f"syntax.fol:{nm}.__str__", few, mode=("wf",))
    for c in (FOL.Variable, FOL.Constant):
        def leaf(it, c=c):
            setup(it)
            n = it.run.fresh(Str, "n")
            x = it.call(c, [SStr([n])])
            t = it.call_method(x, "__str__")
            return [("prints as its name", named(t, n)), ("the name is kept", named(it.getattr(x, "name"), n))]
        V_.oblige(f"{c.__name__} printed", "syntax.fol:Term.__str__", leaf, mode=("wf",))
    return V_.result(assumptions=[
        "_HashConsing.__call__ returns the object made by type.__call__ (predicates compare by identity, so the cache never holds an equal one; C05)",
        "str of an argument is an uninterpreted function of the argument; ', '.join concatenates in order (CPython)"])
