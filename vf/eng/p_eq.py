"""C04: equality is structural and agrees with hashing."""
from .verify import *  # noqa: F401,F403
from .verify import I, z3, TT, real_objects, made
from . import core
from .core import V

BASE = "syntax.base:"
SCOPE = [c for c in CLASSES if c not in QUANT and not c.__module__.endswith(".fol")]
SETS = [c for c in (B.And, B.Or, B.Equivalence, LDL.Union)]
SeqEq = z3.Function("SeqEq", S, S, BOOL)     # same length and equal elements, in order
SetEq = z3.Function("SetEq", S, S, BOOL)     # the same elements up to equality
H = z3.DeclareSort("H")
hk = z3.Function("hash_formula", K, H)
hs = z3.Function("hash_str", Str, H)
hl = z3.Function("hash_logic", Lg, H)
hc = z3.Function("hash_class", Cls, H)
hseq = z3.Function("hash_sequence", S, H)
hset = z3.Function("hash_set", S, H)
hcons = z3.Function("hash_cons", H, H, H)
hnil = z3.Const("hash_nil", H)


def parts_equal(c, x, y):
    """Equality of the parts of two formulas of class c."""
    if c in UNARY:
        return key(arg(x)) == key(arg(y))
    if c in SETS:
        return SetEq(ops(x), ops(y))
    if c in NARY:
        return SeqEq(ops(x), ops(y))
    if c in ATOMS:
        return kname(key(x)) == kname(key(y))
    if c in MODAL:
        return z3.And(key(part[0](x)) == key(part[0](y)), key(part[1](x)) == key(part[1](y)))
    return z3.BoolVal(True)


def spec(c, x, y):
    return z3.And(kcls(key(y)) == CC[c], klg(key(x)) == klg(key(y)), parts_equal(c, x, y))


def plain(it, segs):
    """The sequence term of a list of segments, when it is exactly one."""
    segs = list(segs)
    if len(segs) == 1 and segs[0][0] == "c" and not segs[0][2] and z3.is_true(segs[0][3]) and segs[0][4] is GE:
        return segs[0][1]
    raise Unsupported("comparison of a composed sequence")


def eq_hooks(it, x, y):
    """Equality of sequences and sets of formulas, elementwise (the induction hypothesis)."""
    run = it.run

    def rel(R):
        def h(i, A, Bs):
            a, b = plain(i, A), plain(i, Bs)
            r = R(a, b)
            if a.eq(ops(y)) and b.eq(ops(x)):
                run.assume(r == R(b, a))
            return r
        return h
    it.seq_eq_hook = rel(SeqEq)
    it.set_eq_hook = rel(SetEq)
    # equal sequences have the same set of elements, and sets of equal elements satisfy the same predicates
    run.assume(imp(SeqEq(ops(x), ops(y)), slen(ops(x)) == slen(ops(y))))
    same = klg(key(GE)) == klg(key(x))
    run.assume(imp(SetEq(ops(x), ops(y)), All(same, ops(x)) == All(same, ops(y))))
    run.assume(imp(SeqEq(ops(x), ops(y)), All(same, ops(x)) == All(same, ops(y))))
    # an element of each, so that the logic of a set of operands is that of its elements
    for t in (x, y):
        w = run.fresh(F, "el")
        run.members.setdefault(ops(t).get_id(), []).append(w)


def hash_hook(it, v):
    run = it.run
    if isinstance(v, SF):
        return I.Opq("hash", {"h": hk(key(v.t)), "cls": int})
    h = hterm(it, v)
    return I.Opq("hash", {"h": h, "cls": int})


def hterm(it, v):
    if isinstance(v, I.Opq) and isinstance(v.data, dict) and "h" in v.data:
        return v.data["h"]
    if isinstance(v, SF):
        return hk(key(v.t))
    if isinstance(v, (SLg, Logic)):
        return hl(it.logic_term(v))
    if isinstance(v, I.SCls):
        return hc(v.t)
    if isinstance(v, type) and v in CC:
        return hc(CC[v])
    if isinstance(v, SStr) and len(v.parts) == 1 and z3.is_expr(v.parts[0]):
        return hs(v.parts[0])
    if isinstance(v, (str, int, float, type)) or v is None:
        return z3.Const(f"hash_of<{v!r}>", H)
    if isinstance(v, Tup):
        r = hnil
        for g in reversed(v.segs):
            if g[0] == "e":
                r = hcons(hterm(it, g[1]), r)
            else:
                r = hcons(hseq(plain(it, [g])), r)
        return r
    if isinstance(v, Ref):
        o = it.obj(v)
        if o.kind == "frozenset":
            return hset(plain(it, o.data))
        if o.kind in ("list", "set", "dict"):
            raise PyRaise(TypeError, ("unhashable",))
        t = it.formula_term(v)
        if t is not None:
            return hk(key(t))
    raise Unsupported(f"hash of {v!r}")


def pair(it, c):
    run = it.run
    x, y = run.fresh(F, "x"), run.fresh(F, "y")
    run.assume(kcls(key(x)) == CC[c])
    run.assume(in_cls(key(y), SCOPE))
    for t in (x, y):
        run.sterm[ops(t).get_id()] = ops(t)
        arg(t)
    eq_hooks(it, x, y)
    real_objects(it, ())

    def logic(i, v):
        """The logic of a part is the function klg of the part (induction); that of x and y is computed by their real property."""
        if v.t.eq(x) or v.t.eq(y):
            return i.getattr(made(i, v.t, i.class_of(v)), "logic")
        return SLg(klg(key(v.t)))
    it.attrs["logic"] = logic
    for t in (x, y):
        run.assume(imp(in_cls(key(t), NARY), All(klg(key(GE)) == klg(key(t)), ops(t))))
    return x, y


def boolean(it, r):
    if r is NotImplemented:
        raise Unsupported("NotImplemented")
    return TT(it.truth(r))


def prove(V_):
    for c in SCOPE:
        where = (c.__module__.rsplit(".", 1)[1]) + "." + c.__name__
        e = it_eq = getattr(c.__eq__, "__qualname__", "?")

        def eq(it, c=c):
            x, y = pair(it, c)
            r = it.call_method(made(it, x, c), "__eq__", [SF(y)])
            same = kcls(key(y)) == CC[c]
            return [("equal exactly when the same connective, logic and parts", boolean(it, r) == spec(c, x, y))]
        V_.oblige(f"{where}: x == y", "syntax." + where + ".__eq__", eq, mode=("wf",))

        def non(it, c=c):
            x, y = pair(it, c)
            r = it.call_method(made(it, x, c), "__eq__", [I.NON])
            return [("not equal to an object that is not a formula", z3.Not(boolean(it, r)))]
        V_.oblige(f"{where}: x == object", "syntax." + where + ".__eq__", non, mode=("wf",))

        def hashes(it, c=c):
            run = it.run
            it.hash_hook = hash_hook
            x, y = pair(it, c)
            run.assume(spec(c, x, y))
            run.assume(imp(SetEq(ops(x), ops(y)), hset(ops(x)) == hset(ops(y))))
            run.assume(imp(SeqEq(ops(x), ops(y)), hseq(ops(x)) == hseq(ops(y))))
            a, b = made(it, x, c), made(it, y, c)
            h1, h2 = it.call_method(a, "__hash__"), it.call_method(b, "__hash__")
            before = dict(it.obj(a).data)
            h3 = it.call_method(a, "__hash__")
            ok = all(isinstance(h, I.Opq) and "h" in (h.data or {}) for h in (h1, h2, h3))
            if not ok:
                return [("hash of the parts", False, f"{h1!r} {h2!r} {h3!r}")]
            out = [("equal formulas have equal hashes", hterm(it, h1) == hterm(it, h2)),
                   ("a second call gives the same hash", hterm(it, h1) == hterm(it, h3)),
                   ("a second call changes nothing", it.obj(a).data == before)]
            return out
        V_.oblige(f"{where}: hash(x)", "syntax." + where + ".__hash__", hashes, mode=("wf",))

        def stored(it, c=c):
            """Once a hash is stored it is the one returned, whatever it is."""
            run = it.run
            it.hash_hook = hash_hook
            x, y = pair(it, c)
            a = made(it, x, c)
            it.call_method(a, "__hash__")
            d = dict(it.obj(a).data)
            new = set(d) - set(it.run.ghost.get("fields", ()))
            h = I.Opq("hash", {"h": run.fresh(H, "stored"), "cls": int})
            ks = [k for k in d if isinstance(d[k], I.Opq) and d[k].tag == "hash"]
            if len(ks) != 1:
                return [("the hash is stored once", False, f"fields {sorted(d)}")]
            d[ks[0]] = h
            it.write(a, d)
            r = it.call_method(a, "__hash__")
            return [("a stored hash is returned", r is h), ("and nothing changes", it.obj(a).data == d)]
        V_.oblige(f"{where}: stored hash", "helpers.cache_hash:_cache_hash/" + where, stored, mode=("wf",))
    return V_.result(assumptions=[
        "induction: equality and hash of the parts obey the same contract (formulas are finite)",
        "comparison of tuples is elementwise, comparison of frozensets is equality of the sets of elements up to ==, and the hash of a tuple (frozenset) is a function of "
        "the hashes of its elements (CPython)",
        "the parts satisfy what the constructors check (C13): n-ary connectives have operands of one logic, a modality a regular expression and an LDL tail",
        "lemma: structural equality of parts is an equivalence relation (it is built from equality of classes, logics, names, sequences and sets)"])
