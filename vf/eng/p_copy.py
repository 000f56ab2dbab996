"""C14: pickling and copying."""
from .verify import *  # noqa: F401,F403
from .verify import I, z3, TT, made
from .interp import LiveDict
from .loops import same_val
from . import p_eq
from .p_eq import pair, SCOPE, hash_hook, SeqEq, parts_equal
from . import core

PROTOCOL = ("__reduce__", "__reduce_ex__", "__copy__", "__deepcopy__", "__getnewargs_ex__")


def is_hash(v):
    return isinstance(v, I.Opq) and v.tag == "hash"


def copied(it, v, x, y, depth=0):
    """The copy that pickle (or deepcopy) makes of a value stored in x: formulas are replaced by the equal formulas of y."""
    run = it.run
    if v is None or isinstance(v, (str, bool, int, float, Logic, type, SB, I.SCls, SI)):
        return v
    if isinstance(v, SLg):
        return SLg(klg(key(y))) if v.t.eq(klg(key(x))) else v
    if isinstance(v, SStr):
        return SStr([kname(key(y)) if z3.is_expr(p) and p.eq(kname(key(x))) else p for p in v.parts], v.cls)
    if isinstance(v, SF):
        for f in (arg, part[0], part[1]):
            if v.t.eq(f(x)):
                return SF(f(y))
        raise Unsupported("state with a formula that is not a part")
    if isinstance(v, Tup) or isinstance(v, Ref) and it.obj(v).kind in ("list", "set", "frozenset"):
        segs = []
        for g in (v.segs if isinstance(v, Tup) else it.obj(v).data):
            if g[0] == "e":
                segs.append(("e", copied(it, g[1], x, y)))
            elif g[0] == "c" and g[1].eq(ops(x)):
                segs.append((g[0], ops(y)) + tuple(g[2:]))
            else:
                raise Unsupported("state with a sequence that is not the operands")
        return Tup(segs) if isinstance(v, Tup) else it.alloc(it.obj(v).kind, it.obj(v).cls, tuple(segs))
    raise Unsupported(f"state with {v!r}")


def equal_parts(it, x, y):
    """y has the class and the logic of x and parts that are equal, in order (the restored parts, by induction)."""
    run = it.run
    run.assume(z3.And(kcls(key(x)) == kcls(key(y)), klg(key(x)) == klg(key(y)), kname(key(x)) == kname(key(y))))
    run.assume(key(arg(x)) == key(arg(y)))
    for p in part:
        run.assume(key(p(x)) == key(p(y)))
    run.assume(SeqEq(ops(x), ops(y)))


def same_data(it, got, want):
    if not set(got) >= set(want):
        return False      # a field is lost
    if set(got) != set(want):
        raise Unsupported(f"further fields {sorted(set(got) - set(want))}")
    return all(same_deep(it, got[k], want[k]) for k in got)


def same_deep(it, u, v):
    if isinstance(u, Ref) and isinstance(v, Ref) and it.obj(u).kind == it.obj(v).kind and it.obj(u).kind in ("list", "set", "frozenset"):
        return same_deep(it, Tup(it.obj(u).data), Tup(it.obj(v).data))
    if isinstance(u, Tup) and isinstance(v, Tup):
        return len(u.segs) == len(v.segs) and all(
            g[0] == h[0] and (same_deep(it, g[1], h[1]) if g[0] == "e" else g[1].eq(h[1]) and repr(g[2:]) == repr(h[2:]))
            for g, h in zip(u.segs, v.segs))
    if isinstance(u, (SF, SB, SLg, SI)) and type(u) is type(v):
        return u.t.eq(v.t)
    if isinstance(u, SStr) and isinstance(v, SStr):
        return u.cls is v.cls and len(u.parts) == len(v.parts) and all(
            (p.eq(q) if z3.is_expr(p) and z3.is_expr(q) else type(p) is type(q) and p == q) for p, q in zip(u.parts, v.parts))
    return u is v or (type(u) is type(v) and not isinstance(u, I.Val) and u == v)


def setup(it, c, hashed):
    x, y = pair(it, c)
    equal_parts(it, x, y)
    it.hash_hook = hash_hook
    o = made(it, x, c)
    if hashed:
        it.call_method(o, "__hash__")
    return x, y, o


def prove(V_):
    for c in SCOPE:
        where = c.__module__.rsplit(".", 1)[1] + "." + c.__name__
        bad = [n for n in PROTOCOL if any(n in k.__dict__ for k in c.__mro__ if k is not object)]
        V_.fact(f"{where}: the copy protocol of object is used", f"syntax.{where}", not bad, f"defines {bad}", undecided=True)
        for hashed in (False, True):
            tag = " (hashed)" if hashed else ""

            def state(it, c=c, hashed=hashed):
                x, y, o = setup(it, c, hashed)
                before = dict(it.obj(o).data)
                fields = {k: v for k, v in before.items() if not is_hash(v)}
                st = it.call_method(o, "__getstate__")
                after = it.obj(o).data
                out = [("the original is unchanged", set(after) == set(before) and all(after[k] is before[k] for k in before), f"{sorted(before)} -> {sorted(after)}")]
                if st is None:
                    return out + [("every field is in the state", not fields)]
                if not isinstance(st, Ref) or it.obj(st).kind != "dict":
                    raise Unsupported("state that is not a dictionary")
                d = it.obj(st).data
                d = dict(d.copy(it) if isinstance(d, LiveDict) else d)
                out.append(("the state is the fields of the original", set(d) >= set(fields) and all(same_deep(it, d[k], fields[k]) for k in fields)))
                return out
            V_.oblige(f"{where}: state{tag}", "helpers.cache_hash:_getstate/" + where, state, mode=("wf",))

            def restore(it, c=c, hashed=hashed, shallow=False):
                x, y, o = setup(it, c, hashed)
                if shallow:
                    y = x
                before = dict(it.obj(o).data)
                if it.class_lookup(c, "__getnewargs__") is not I.MISSING:
                    na = it.call_method(o, "__getnewargs__")
                    if not isinstance(na, Tup):
                        raise Unsupported("__getnewargs__ that is not a tuple")
                    na = copied(it, na, x, y)
                    args = [("*segs", na.segs)]
                else:
                    args = []
                nw = it.class_lookup(c, "__new__")
                nw = nw.__func__ if isinstance(nw, staticmethod) else nw
                r = raises(it, lambda: it.call(nw, [c] + args) if hasattr(nw, "__code__") else it.new_instance(c), Exception)
                if r[0] == "raise":
                    return [("a new object is made", False, f"{c.__name__}.__new__ raises {r[1].__name__}")]
                new = r[1]
                if not isinstance(new, Ref) or it.obj(new).kind != "inst":
                    return [("a new object is made", False, f"{c.__name__}.__new__ returns {new!r}")]
                fresh = new != o and it.obj(new).cls is c
                st = it.call_method(o, "__getstate__")
                if st is not None:
                    d = it.obj(st).data
                    d = d.copy(it) if isinstance(d, LiveDict) else d
                    # an arbitrary state of this shape may come from another interpreter: a stored hash in it is stale
                    d = tuple((k, v if is_hash(v) else copied(it, v, x, y)) for k, v in d)
                    s2 = st if shallow else it.alloc("dict", dict, d)
                    if it.class_lookup(c, "__setstate__") is not I.MISSING:
                        r = raises(it, lambda: it.call_method(new, "__setstate__", [s2]), Exception)
                        if r[0] == "raise":
                            return [("the state is restored", False, f"raises {r[1].__name__}")]
                    else:
                        it.write(new, {**it.obj(new).data, **dict(d)})     # as copyreg does without __setstate__
                got = it.obj(new).data
                ref = before if shallow else it.obj(made(it, y, c)).data
                want = {k: v for k, v in ref.items() if not is_hash(v)}
                return [("a new object of the same class is made", fresh),
                        ("no stored hash", not any(is_hash(v) for v in got.values())),
                        ("it has the fields of the formula built from the restored parts", same_data(it, got, want), f"{got} / {want}"),
                        ("which is equal to the original", p_eq.spec(c, x, y) if not shallow and c in NARY and c not in p_eq.SETS or c not in NARY else True),
                        ("the original is unchanged", it.obj(o).data == before)]
            V_.oblige(f"{where}: restore{tag}", "helpers.cache_hash:_setstate/" + where, restore, mode=("wf",))
            V_.oblige(f"{where}: shallow copy{tag}", "helpers.cache_hash:_setstate/" + where,
                      lambda it, c=c, hashed=hashed, f=restore: f(it, c, hashed, True), mode=("wf",))

    def name(it):
        A = B.AtomName
        odd = [n for n in PROTOCOL + ("__getnewargs__", "__getstate__", "__setstate__") if any(n in k.__dict__ for k in A.__mro__ if k not in (object, str))]
        if odd:
            raise Unsupported(f"AtomName defines {odd}")
        n = it.run.fresh(Str, "n")
        nw = it.class_lookup(A, "__new__")
        nw = nw.__func__ if isinstance(nw, staticmethod) else nw
        r = it.call(nw, [A, SStr([n])])
        return [("AtomName.__new__(AtomName, text) has the same text", isinstance(r, SStr) and r.cls is A and len(r.parts) == 1 and r.parts[0].eq(n), f"{r!r}")]
    V_.oblige("atom names", "helpers.misc:RegexConstrainedString.__new__", name, mode=("wf",))
    return V_.result(assumptions=[
        "the protocol of pickle, copy and deepcopy: cls.__new__(cls, *copies of __getnewargs__()), then __setstate__(copy of __getstate__()) unless that is None (CPython copyreg)",
        "induction: the copies of the parts are equal to the parts (formulas are finite)",
        "copies of tuples and lists are elementwise, strings, classes and enumeration members are restored as themselves (pickle)",
        "the restored object, having the fields that the constructor gives the formula of equal parts, is equal to the original and hashes consistently (C04); "
        "equal sequences are equal as sets",
        "quantified formulas and predicates (equality by identity) are outside the property"])
