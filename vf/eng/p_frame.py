"""C15: operations never modify what they are given.

The bodies of the contracts of C01-C04, C13 and C16 are run again with a frame condition: whatever exists before a call of a real function
(formulas, operand lists, interpretations) is the same afterwards, except for the stored hash."""
import os

from .verify import *  # noqa: F401,F403
from .verify import I, z3, TT, made
from .interp import LiveDict
from . import p_cons, p_sem, p_eq, p_wf, p_sym
from .p_copy import is_hash
from pylogics_modalities.utils.to_string import to_string

STORED = object()


def view(o):
    """The data of an object without the stored hash."""
    if o.kind == "inst":
        return {k: v for k, v in o.data.items() if not is_hash(v)}
    return o.data


FIELDS = {n for c in CLASSES for k in c.__mro__ for f in [k.__dict__.get("__init__")] if hasattr(f, "__code__") for n in f.__code__.co_names}


def same(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        if not set(a) <= set(b):
            return False
        if set(a) != set(b):
            raise Unsupported(f"new attributes {sorted(set(b) - set(a))}")    # a memo, or a change: not decided here
        return all(a[k] is b[k] or (not isinstance(a[k], I.Val) and a[k] == b[k]) for k in a)
    return a is b or a == b


def watch(it):
    """Record the objects that a call of a real function, made by the contract itself, changes."""
    bad = []
    orig = it.call
    depth = [0]

    def call(f, args=(), kwargs=None, bypass=False):
        if depth[0]:
            return orig(f, args, kwargs, bypass)
        depth[0] = 1
        args = list(args)
        before = dict(it.run.heap)
        log = len(it.run.log)
        init = getattr(f, "__name__", "") in ("__init__", "__setstate__") and args and isinstance(args[0], I.Ref)
        try:
            return orig(f, args, kwargs, bypass)
        finally:
            depth[0] = 0
            for loc, o in before.items():
                n = it.run.heap.get(loc)
                if n is o or o.kind in ("frame", "iter") or init and loc == args[0].loc:
                    continue
                if n is None or not same(view(o), view(n)):
                    bad.append(f"{getattr(f, '__qualname__', f)} changes a {o.kind} {o.cls}")
            for w in it.run.log[log:]:
                if isinstance(w[1], str) and w[1].startswith("formula.") and not w[1].endswith("__hash"):
                    if w[1][8:] not in FIELDS:
                        raise Unsupported(f"new attribute {w[1][8:]}")
                    bad.append(f"{getattr(f, '__qualname__', f)} writes {w[1]} of a formula")
    it.call = call
    return bad


class FrameV:
    """Takes the obligations of another property and keeps their bodies with the frame clause."""

    def __init__(self, V, tag, keep=lambda name: True):
        self.V, self.tag, self.keep = V, tag, keep

    def oblige(self, name, function, body, **kw):
        if not self.keep(name):
            return

        def frame(it):
            bad = watch(it)
            try:
                body(it)
            except I.Changed as e:
                bad.append(str(e))
            return [("nothing that existed is changed", not bad, "; ".join(bad[:3]))]
        kw.setdefault("mode", ("val", "wf"))
        self.V.oblige(f"{self.tag} {name}", function, frame, **kw)

    def fact(self, *a, **k):
        return True

    def result(self, *a, **k):
        return {}


def printing(V_):
    for c in p_eq.SCOPE:
        where = c.__module__.rsplit(".", 1)[1] + "." + c.__name__
        for nm in ("__str__", "__repr__", "to_string"):
            def text(it, c=c, nm=nm):
                run = it.run
                x = run.fresh(F, "x")
                run.assume(kcls(key(x)) == CC[c])
                lg = FIXED_LG.get(c)
                if lg:
                    run.assume(klg(key(x)) == LC[lg])
                real = verify_real(it)
                o = made(it, x, c)
                bad = watch(it)

                def sub(i, a, k):
                    t = i.formula_term(a[0])
                    if isinstance(a[0], I.SF) and not a[0].t.eq(x):
                        return SStr([z3.Function("text", F, Str)(a[0].t)])
                    return i.call(to_string, a, k, bypass=True)
                it.contracts[to_string] = sub
                it.str_formula = lambda i, v, r: i.call(i.class_lookup(i.obj(v).cls, "__repr__" if r else "__str__"), [v]) if isinstance(v, I.Ref) \
                    else SStr([z3.Function("repr" if r else "str", F, Str)(v.t)])
                from pylogics_modalities.exceptions import PylogicsError
                try:
                    r = it.call(to_string, [o]) if nm == "to_string" else it.call_method(o, nm)
                except PyRaise as e:
                    r = None
                return [("nothing that existed is changed", not bad, "; ".join(bad[:3]))]
            V_.oblige(f"{nm} of {where}", f"syntax.{where}.{nm}" if nm != "to_string" else f"utils.to_string:to_string/{where}", text, mode=("wf",))


def verify_real(it):
    from .verify import real_objects
    return real_objects(it, ())


def handed_out(V_):
    for c in [c for c in p_eq.SCOPE if c in NARY]:
        where = c.__module__.rsplit(".", 1)[1] + "." + c.__name__

        def body(it, c=c):
            x = it.run.fresh(F, "x")
            it.run.assume(kcls(key(x)) == CC[c])
            verify_real(it)
            o = made(it, x, c)
            r = it.getattr(o, "operands")
            held = [v for v in it.obj(o).data.values() if isinstance(v, I.Ref) and it.obj(v).kind in ("list", "set", "dict")]
            frozen = isinstance(r, Tup)
            if not frozen and not (isinstance(r, I.Ref) and r not in held):
                return [("the operands handed out are immutable or a copy", False, f"{r!r}")]
            return [("the operands handed out are immutable or a copy", True)]
        V_.oblige(f"operands of {where}", f"syntax.{where}.operands", body, mode=("wf",))


def checking(V_):
    """The natural deduction checker: its rows, formulas, terms and boxes."""
    from . import p_nd
    fv = FrameV(V_, "proof checking:")
    p_nd.prove_builder(fv)
    p_nd.prove_check(fv)
    if os.environ["VF_ND"] == "fol":
        p_nd.prove_helpers(fv)
    p_nd.prove_handlers(fv)
    p_nd.prove_checker(fv)


def prove(V_):
    if os.environ.get("VF_ND"):
        checking(V_)
        return V_.result(assumptions=[])
    p_sem.prove(FrameV(V_, "evaluation:"))
    p_eq.prove(FrameV(V_, "comparison and hash:", lambda n: "stored" not in n))
    p_cons.prove_C01(FrameV(V_, "combination:"))
    p_sym.prove(FrameV(V_, "symbols:"))
    printing(V_)
    handed_out(V_)
    return V_.result(assumptions=[
        "an interpretation is read only through the operations that C02 models (get, copy, membership, fromkeys); any other operation is reported as undecided",
        "the functions read nothing that changes besides their arguments, the formula cache (C05) and the stored hash (C04), so a second call gives the same answer",
        "the frame of natural deduction is shown on the objects of the contracts of C10 and C11: rows, references, formulas and terms that are described, not built; "
        "that the sets of disjuncts are fresh is the contract of the constructors"])
