"""C05: the formula cache."""
from .verify import *  # noqa: F401,F403
from .verify import I, z3, TT, atom_name, raises
from . import core


def unsupported(s):
    raise core.Unsupported(s)


BASE = "syntax.base:"
HC = B._HashConsing.__call__
SCOPE = [c for c in CLASSES if c not in QUANT and not c.__module__.endswith(".fol")]
HAS0 = z3.Function("filed0", Lg, K, BOOL)      # the cache before the call: (logic, formula up to ==) is filed
OPEN0 = z3.Function("open0", Lg, BOOL)         # there is a table for the logic
NONE0 = z3.Function("value_is_none0", Lg, K, BOOL)
VAL0 = z3.Function("value0", Lg, K, F)


class Cache:
    """A symbolic cache: dictionary from logics to dictionaries from formulas (up to ==) to None or an equal formula."""

    def __init__(self, it):
        self.run = it.run
        self.run.ghost["cache"] = ((), ())     # filed entries (logic, key, value), opened logics
        self.seen = []
        self.lost = False                      # a table that may hold entries was emptied

    def state(self):
        return self.run.ghost["cache"]

    def has(self, l, k):
        return z3.Or([z3.And(l == a, k == b) for a, b, _ in self.state()[0]] + [HAS0(l, k)])

    def opened(self, l):
        self.run.assume(z3.Implies(z3.BoolVal(False), HAS0(l, z3.Const("k0", K))))
        return z3.Or([l == a for a in self.state()[1]] + [OPEN0(l)])

    def known(self, l, k):
        """The invariant of the state before the call, at one entry."""
        self.seen.append(k)
        self.run.assume(imp(HAS0(l, k), z3.And(OPEN0(l), klg(k) == l)))
        self.run.assume(imp(z3.And(HAS0(l, k), z3.Not(NONE0(l, k))), key(VAL0(l, k)) == k))

    def value(self, it, l, k):
        for a, b, v in reversed(self.state()[0]):
            if self.run.branch(z3.And(l == a, k == b)):
                return v
        return None if self.run.branch(NONE0(l, k)) else SF(VAL0(l, k))

    def put(self, l, k, v):
        filed, opened = self.state()
        self.run.ghost["cache"] = (filed + ((l, k, v),), opened)

    # ---- the values the program sees
    def outer(self):
        def formula_key(i, v):
            t = i.formula_term(v)
            if t is None:
                raise Unsupported("key of the cache that is not a formula")
            return key(t)

        def table(l):
            def get(i, a, kw):
                k = formula_key(i, a[0])
                self.known(l, k)
                if self.run.branch(self.has(l, k)):
                    return self.value(i, l, k)
                return a[1] if len(a) > 1 else None

            def setdefault(i, a, kw):
                k = formula_key(i, a[0])
                self.known(l, k)
                if self.run.branch(self.has(l, k)):
                    return self.value(i, l, k)
                v = a[1] if len(a) > 1 else None
                self.put(l, k, v)
                return v

            def setitem(i, x, v):
                k = formula_key(i, x)
                self.known(l, k)
                self.put(l, k, v)

            def getitem(i, x):
                k = formula_key(i, x)
                self.known(l, k)
                if not self.run.branch(self.has(l, k)):
                    raise PyRaise(KeyError)
                return self.value(i, l, k)

            def contains(i, x):
                k = formula_key(i, x)
                self.known(l, k)
                return SB(self.has(l, k))

            def attr(i, v, name, default):
                if name in ("get", "setdefault"):
                    return I.Builtin("dict." + name, {"get": get, "setdefault": setdefault}[name])
                if name == "clear":
                    return I.Builtin("dict.clear", clear)
                raise Unsupported(f"{name} of a table of the cache")

            def clear(i, a, kw):
                if not any(n is not None and not self.run.branch(n > 0) for n in sizes):
                    self.lost = True

            def length(i):
                n = self.run.fresh(INT, "entries")
                self.run.assume(n >= int(any(b.eq(l) for b, _, _ in self.state()[0])))
                for k in self.seen:
                    self.run.assume(imp(self.has(l, k), n > 0))
                sizes.append(n)
                return SI(n)
            sizes = []
            return I.Opq("table", {"cls": dict, "attr": attr, "getitem": getitem, "setitem": setitem, "contains": contains,
                                   "is": lambda i, o: False, "truth": lambda i: length(i).t > 0, "len": length})

        def lg(i, x):
            return i.logic_term(x)

        def o_setdefault(i, a, kw):
            l = lg(i, a[0])
            if not self.run.branch(self.opened(l)):
                d = a[1]
                if not isinstance(d, I.Ref) or i.obj(d).kind != "dict" or i.obj(d).data != ():
                    raise Unsupported("table that is not an empty dictionary")
                self.run.ghost["cache"] = (self.state()[0], self.state()[1] + (l,))
            return table(l)

        def o_get(i, a, kw):
            l = lg(i, a[0])
            if self.run.branch(self.opened(l)):
                return table(l)
            return a[1] if len(a) > 1 else None

        def o_getitem(i, x):
            l = lg(i, x)
            if not self.run.branch(self.opened(l)):
                raise PyRaise(KeyError)
            return table(l)

        def o_setitem(i, x, v):
            l = lg(i, x)
            if not isinstance(v, I.Ref) or i.obj(v).kind != "dict" or i.obj(v).data != ():
                raise Unsupported("table that is not an empty dictionary")
            if self.run.branch(self.opened(l)):
                self.lost = True
            self.run.ghost["cache"] = (self.state()[0], self.state()[1] + (l,))

        def o_attr(i, v, name, default):
            if name in ("get", "setdefault"):
                return I.Builtin("dict." + name, {"get": o_get, "setdefault": o_setdefault}[name])
            raise Unsupported(f"{name} of the cache")
        return I.Opq("cache", {"cls": dict, "attr": o_attr, "getitem": o_getitem, "setitem": o_setitem,
                               "contains": lambda i, x: SB(self.opened(lg(i, x))), "is": lambda i, o: False, "truth": lambda i: True if self.state()[1] else unsupported("an empty cache")})


def ideal(it, c):
    """Arguments of a valid construction of class c and the formula asked for (a term)."""
    run = it.run
    x = run.fresh(F, "x")
    lg = FIXED_LG.get(c)
    kw = {}
    if c in NARY:
        s = ops(x)
        run.sterm[s.get_id()] = s
        run.assume(slen(s) >= 2)
        run.assume(All(klg(key(GE)) == (LC[lg] if lg else klg(key(x))), s))
        args = [("*segs", [run.seg(s)])]
    elif c in UNARY:
        a = run.fresh(F, "a")
        if c is B.Not:
            run.assume(klg(key(a)) != LC[Logic.RE])
        elif c not in (LDL.Prop, LDL.Star, LDL.Test):
            run.assume(klg(key(a)) == LC[lg])
        args = [SF(a)]
    elif c in ATOMS:
        args = [SStr([run.fresh(Str, "n")])]
    elif c in MODAL:
        a, b = run.fresh(F, "a"), run.fresh(F, "b")
        run.assume(z3.And(klg(key(a)) == LC[Logic.RE], klg(key(b)) == LC[Logic.LDL]))
        args = [SF(a), SF(b)]
    else:
        args = []
        if not lg:
            kw = {"logic": SLg(run.fresh(Lg, "lg"))}
    return args, kw


def prove(V_):
    for c in SCOPE:
        nm = c.__module__.rsplit(".", 1)[1] + "." + c.__name__

        def body(it, c=c):
            run = it.run
            accessors(it)
            it.contracts[B.AtomName] = atom_name
            it.attrs["__invert__"] = lambda i, x, *a: SF(negf(x.t))
            cache = Cache(it)
            root = cache.outer()
            it.class_attr["_context"] = lambda i, v: root
            asked = []
            tc = it.type_call

            def type_call(c2, a, k):
                o = tc(c2, a, k)
                if c2 is c and not asked:
                    asked.append(o)
                return o
            it.type_call = type_call
            args, kw = ideal(it, c)
            r = it.call_live(HC, [c] + args, kw)
            rt, at = it.formula_term(r), it.formula_term(asked[0]) if asked else None
            if rt is None or at is None:
                return [("returns a formula equal to the one asked for", False)]
            k = key(at)
            l0, k0 = run.fresh(Lg, "l"), run.fresh(K, "k")
            cache.known(l0, k0)
            cache.known(klg(k), k)
            mine = z3.And(l0 == klg(k), k0 == k)
            out = [("returns a formula equal to the one asked for", key(rt) == k),
                   ("it is filed under its logic", cache.has(klg(k), k)),
                   ("no table is emptied", not cache.lost),
                   ("nothing else is added, nothing is removed", cache.has(l0, k0) == z3.Or(HAS0(l0, k0), mine))]
            for a, b, v in cache.state()[0]:
                vt = it.formula_term(v)
                if v is not None and vt is None:
                    out.append(("a stored value is None or an equal formula", False))
                elif vt is not None:
                    out.append(("a stored value is None or an equal formula", key(vt) == b))
            return out
        V_.oblige(f"construction of {nm}", BASE + "_HashConsing.__call__/" + nm, body, mode=("wf",))

    def forbidden(it):
        """A class that is not a formula class is refused and the cache is unchanged."""
        cache = Cache(it)
        root = cache.outer()
        it.class_attr["_context"] = lambda i, v: root
        r = raises(it, lambda: it.call_live(HC, [int], {}), Exception)
        return [("refused", r[0] == "raise"), ("the cache is unchanged", cache.state() == ((), ()) and not cache.lost)]
    V_.oblige("construction of a class that is not a formula class", BASE + "_HashConsing.__call__", forbidden, mode=("wf",))

    def reset(it):
        root = Cache(it).outer()
        box = {"_context": root}
        it.class_attr["_context"] = lambda i, v: box["_context"]
        writes = []

        def wr(i, v, name, x):
            writes.append((v, name))
            box[name] = x
        it.class_setattr = wr
        it.call(B.reset_cache)
        now = it.call(B.get_cache_context)
        empty = isinstance(now, I.Ref) and it.obj(now).kind == "dict" and it.obj(now).data == ()
        return [("the cache is an empty dictionary", empty), ("get_cache_context returns it", now is box["_context"]),
                ("it is shared by every formula class", all(v is B._HashConsing and n == "_context" for v, n in writes) and len(writes) == 1)]
    V_.oblige("reset_cache", BASE + "reset_cache", reset, mode=("wf",))
    # every class reads the one cache of the metaclass
    owner = [c for c in SCOPE if any("_context" in k.__dict__ for k in c.__mro__)]
    metas = {m for c in SCOPE for m in type(c).__mro__ if "_context" in m.__dict__}
    V_.fact("the cache is one attribute of _HashConsing", BASE + "_HashConsing._context", not owner and metas == {B._HashConsing},
            f"classes {owner}, metaclasses {metas}")
    return V_.result(assumptions=[
        "dictionaries keyed by formulas hold one entry per formula up to == (equality and hash: C04; CPython dict)",
        "only _HashConsing.__call__ and reset_cache use the cache (frame)",
        "predicates and quantified formulas are outside the property (their equality is identity)",
        "the simplifying constructors reach _HashConsing.__call__ or return an operand (their bodies are executed in C01 with this contract)"])
