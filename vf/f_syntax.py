"""Executable contracts (run on the real code) for C01-C05, C13-C16.

For each property: `cases(gen, tier)` yields JSON-able cases and `check(case)` returns None
(held), a string (violation) or ("known", finding-id, text).
"""
import copy
import itertools
import json
import os
import pickle
import random
import subprocess
import sys

from . import sp
from .sp import B, FOL, LDL, LTL, PL, PLTL, Logic
from .gen import RESERVED, small_pl

J, U = sp.to_json, sp.from_json
BLG = ("pl", "ltl", "pltl", "ldl")
OPCALL = {"and": lambda a, b: a & b, "or": lambda a, b: a | b, "implies": lambda a, b: a >> b}


class Skip(Exception):
    """The case does not exercise the property."""


def walk(t, fn, memo=None):
    """Build t bottom-up with the real constructors; fn(op, operand objects, result, how) at each construction."""
    op = t[0]
    if op in ("atom", "true", "false", "ptrue", "pfalse", "pred", "var", "const", "fun"):
        return sp.build(t)
    args = [walk(a, fn) for a in t[1:]]
    return fn(op, args, t)


# ------------------------------------------------------------------ C01
def _bool_node(op, args, t, findings):
    if op not in sp.BOOLEAN or (op == "not" and len(args) != 1):
        return sp.OP2CLS[op](*args)
    at = [sp.read(a) for a in args]
    lgs = {sp.logic(a) for a in at}
    if len(lgs) > 1:
        raise Skip
    lg = lgs.pop()
    res = None
    calls = [("class", lambda: sp.OP2CLS[op](*args))]
    if op in OPCALL and len(args) == 2:
        calls.append(("operator", lambda: OPCALL[op](*args)))
    if op == "not":
        calls.append(("operator", lambda: ~args[0]))
    for how, call in calls:
        try:
            r = call()
        except Exception as e:  # noqa
            raise Bad(f"{op} ({how}) of {[sp.show(a) for a in at]} raises {e!r}")
        try:
            rt = sp.read(r)
        except Exception as e:  # noqa
            raise Bad(f"{op} ({how}) of {[sp.show(a) for a in at]} returns {r!r}: {e!r}")
        if [sp.read(a) for a in args] != at:
            raise Bad(f"{op} ({how}) of {[sp.show(a) for a in at]} changes its operands")
        if sp.LGI.get(r.logic) != lg:
            raise Bad(f"{op} ({how}) of {[sp.show(a) for a in at]} belongs to logic {r.logic}, expected {lg}")
        spec = (op,) + tuple(at)
        leaves = sp.bool_leaves(spec)
        sp.bool_leaves(rt, leaves)
        for asg in sp.assignments(leaves, random.Random(7)):
            if sp.val(rt, asg) != sp.val(spec, asg):
                if op == "equiv" and len({sp.key(a) for a in at}) < len(at):
                    d = {}
                    for a in at:
                        d.setdefault(sp.key(a), a)
                    if all(sp.val(rt, g) == sp.val(("equiv",) + tuple(d.values()), g)
                           for g in sp.assignments(leaves, random.Random(7))):
                        findings.append("C01-equiv-repeated-operand")
                        break
                true = [sp.show(leaves[k]) for k in leaves if asg[k]]
                raise Bad(f"{op} ({how}) of {[sp.show(a) for a in at]} is {sp.show(rt)}, whose value differs from the "
                          f"connective when exactly {true} are true")
        res = res if res is not None else r
    return res


class Bad(Exception):
    pass


class C01:
    @staticmethod
    def cases(g, tier):
        for v in (True, False):
            for lg in sp.LG:
                yield {"mb": [v, lg]}
        for lg in ("pl", "ltl"):
            for t in small_pl(lg=lg):
                yield {"t": J(t)}
        for n in g.big:
            for op in ("and", "or", "implies", "equiv"):
                ops = [("atom", "pl", f"a{i}") for i in range(n)]
                yield {"t": J((op,) + tuple(ops))}
                yield {"t": J((op,) + tuple(ops[:-1]) + (("not", ops[0]),))}
                yield {"t": J((op,) + tuple(ops) + (("false", "pl"),))}
                yield {"t": J((op,) + (("not", ops[0]),) + tuple(ops) + (("true", "pl"),))}
                if n > 1:
                    b = ("atom", "pl", "b")
                    yield {"t": J((op, (op,) + tuple(ops), (op, b) + tuple(ops[::-1])))}
                    yield {"t": J((op, (op,) + tuple(ops), b, (op, ("not", b)) + tuple(ops[::-1])))}
                    yield {"t": J((op, (op,) + tuple(ops), (op, b, ("not", ops[-1]))))}
                t = ops[0]
                for i in range(min(n, 60)):
                    t = (op, ops[i], ("not", t)) if op in ("and", "or") else (op, t, ops[i])
                yield {"t": J(t)}
        g.phase = 1
        while True:
            lg = g.rng.choice(BLG + ("fol",))
            few = g.rng.random() < .6
            yield {"t": J(g.tree(lg, g.rng.choice([1, 2, 2, 3, 3, 4]), few))}
            if g.rng.random() < .03:
                yield {"t": J(g.deep(g.rng.choice(BLG), g.rng.choice([10, 30, 60])))}

    @staticmethod
    def check(c):
        if "mb" in c:
            v, lg = c["mb"]
            f = B.make_boolean(v, logic=sp.LG[lg])
            want = ("true" if v else "false", lg)
            return None if sp.read(f) == want else f"make_boolean({v}, {lg}) is {f!r}"
        found = []
        try:
            walk(U(c["t"]), lambda op, a, t: _bool_node(op, a, t, found))
        except Skip:
            return None
        except Bad as e:
            return str(e)
        if found:
            return ("known", found[0], "an equivalence drops repeated operands (a <-> a is a)")
        return None


# ------------------------------------------------------------------ C03
def _nf_node(op, args, t):
    if op not in ("and", "or", "not"):
        return sp.OP2CLS[op](*args)
    at = [sp.read(a) for a in args]
    if len({sp.logic(a) for a in at}) > 1:
        raise Skip
    calls = [lambda: sp.OP2CLS[op](*args)]
    if op == "not":
        calls.append(lambda: ~args[0])
    elif len(args) == 2:
        calls.append(lambda: OPCALL[op](*args))
    for call in calls:
        r = call()
        rt = sp.read(r)
        txt = f"{op} of {[sp.show(a) for a in at]} is {sp.show(rt)}"
        if op == "not":
            if rt[0] == "not" and rt[1][0] in ("not", "true", "false", "ptrue", "pfalse"):
                raise Bad(f"{txt}: a negation wraps {rt[1][0]}")
            back = sp.read(~r)
            if sp.key(back) != sp.key(at[0]) or not (~r == args[0]):
                raise Bad(f"{txt}; negating again gives {sp.show(back)}")
            continue
        _nf_shape(rt, txt)
        fl = [sp.key(x) for x in sp.flat(op, at)]
        if rt[0] == op and not any(sp.key(rt) == sp.key(a) for a in at[:0]):
            pos = []
            for x in rt[1:]:
                if sp.key(x) not in fl:
                    raise Bad(f"{txt}: operand {sp.show(x)} was not given")
                pos.append(fl.index(sp.key(x)))
            if pos != sorted(pos):
                raise Bad(f"{txt}: not in the order of first occurrence")
    return r if op != "not" else calls[0]()


def _nf_shape(rt, txt):
    op = rt[0]
    if op not in ("and", "or"):
        return
    xs = rt[1:]
    ks = [sp.key(x) for x in xs]
    lg = sp.logic(rt)
    if len(xs) < 2:
        raise Bad(f"{txt}: fewer than two operands")
    if len(set(ks)) < len(ks):
        raise Bad(f"{txt}: repeated operand")
    for x in xs:
        if x[0] == op:
            raise Bad(f"{txt}: nested {op}")
        if x in (("true", lg), ("false", lg)):
            raise Bad(f"{txt}: constant operand")
        if sp.key(sp.neg(x)) in ks:
            raise Bad(f"{txt}: {sp.show(x)} and its negation")


class C03:
    cases = C01.cases

    @staticmethod
    def check(c):
        if "mb" in c or sp.logic(U(c["t"])) == "fol":
            return None  # predicates have no structural equality
        try:
            walk(U(c["t"]), _nf_node)
        except Skip:
            return None
        except Bad as e:
            return str(e)


# ------------------------------------------------------------------ C02
def near(n):
    """Names that are easily taken for n."""
    from .f_text import is_name
    i = n.strip('"')
    out = {n.lower(), n.upper(), n.swapcase(), n.capitalize(), i, '"%s"' % i, n + "_", n + "1", n + "x", n[:-1], n.replace("-", "_"), n.replace("_", "-"), " ".join(n.split()), n.strip(), "_" + n,
           '"%s"' % i.strip(), n.casefold(), n.lstrip("_"), n.rstrip("0123456789"), "not_" + n, '"~%s"' % i, '"%s "' % i, '" %s"' % i}
    return sorted(x for x in out if x != n and is_name(x) and x not in RESERVED["pl"])


class C02:
    @staticmethod
    def _interp(g, t):
        names = sorted({x[2] for x in sp.bool_leaves(t).values()})
        r = g.rng
        true = {n for n in names if r.random() < .5}
        extra = {g.name("pl") for _ in range(r.choice([0, 0, 1, 3]))}
        if names and r.random() < .3:
            extra = {x for x in near(r.choice(names)) if x not in names}
        if r.random() < .5:
            return {"set": sorted(true | extra)}
        d = {n: True for n in true}
        for n in names:
            if n not in true and r.random() < .5:
                d[n] = False
        for n in extra:
            d.setdefault(n, r.random() < .5)
        return {"dict": d}

    @staticmethod
    def cases(g, tier):
        for t in small_pl():
            for sub in itertools.product((0, 1), repeat=2):
                s = [n for n, b in zip("ab", sub) if b]
                yield {"t": J(t), "set": s}
                yield {"t": J(t), "dict": {n: (n in s) for n in "ab"}}
                yield {"t": J(t), "dict": {n: True for n in s}}
        for n in g.big:
            for op in ("and", "or", "implies", "equiv"):
                ops = [("atom", "pl", f"a{i}") for i in range(n)]
                for miss in (0, n - 1, n // 2, None):
                    yield {"t": J((op,) + tuple(ops)), "set": [f"a{i}" for i in range(n) if i != miss]}
                    yield {"t": J((op,) + tuple(ops)), "set": [f"a{miss}"]}
        for k in ("next", "alw", "until", "before", "since", "box", "star", "seq", "pred", "forall", "ltlatom", "pltlatom",
                  "union", "test", "prop"):
            yield {"other": k, "set": ["a"]}
        for n in g.names:
            if n not in RESERVED["pl"]:
                o = near(n)
                for s in ({"set": [n]}, {"set": []}, {"dict": {n: False}}, {"dict": {n: True}}, {"set": o}, {"set": o + [n]}, {"dict": {x: True for x in o}},
                          {"dict": {**{x: True for x in o}, n: False}}, {"dict": {**{x: False for x in o}, n: True}}):
                    yield dict(s, t=J(("atom", "pl", n)))
        g.phase = 1
        while True:
            t = g.tree("pl", g.rng.choice([1, 2, 3, 3, 4, 5]), g.rng.random() < .4)
            for _ in range(3):
                yield dict(C02._interp(g, t), t=J(t))
            if g.rng.random() < .02:
                t = g.deep("pl", g.rng.choice([20, 60, 120]))
                yield dict(C02._interp(g, t), t=J(t))

    OTHER = {
        "next": ("next", ("atom", "ltl", "a")), "alw": ("alw", ("false", "ltl")),
        "until": ("until", ("atom", "ltl", "a"), ("atom", "ltl", "b")), "before": ("before", ("atom", "pltl", "a")),
        "since": ("since", ("atom", "pltl", "a"), ("true", "pltl")),
        "box": ("box", ("prop", ("atom", "pl", "a")), ("true", "ldl")),
        "star": ("star", ("prop", ("atom", "pl", "a"))), "test": ("test", ("true", "ldl")),
        "prop": ("prop", ("atom", "pl", "a")),
        "seq": ("seq", ("prop", ("atom", "pl", "a")), ("prop", ("true", "pl"))),
        "union": ("union", ("prop", ("atom", "pl", "a")), ("prop", ("true", "pl"))),
        "pred": ("pred", "P"), "forall": ("forall", ("var", "x"), ("pred", "P", ("var", "x"))),
        "ltlatom": ("atom", "ltl", "a"), "pltlatom": ("atom", "pltl", "a"),
    }

    @staticmethod
    def check(c):
        from pylogics_modalities.semantics.pl import evaluate_pl
        from pylogics_modalities.exceptions import PylogicsError
        i = set(c["set"]) if "set" in c else dict(c["dict"])
        if "other" in c:
            f = sp.build(C02.OTHER[c["other"]])
            for h in (f, ~f):
                try:
                    r = evaluate_pl(h, i)
                except PylogicsError:
                    continue
                except Exception as e:  # noqa
                    return f"evaluate_pl of {h!r} raises {e!r} instead of PylogicsError"
                return f"evaluate_pl accepts {h!r} and returns {r!r}"
            return None
        try:
            f = sp.build(U(c["t"]))
            t = sp.read(f)
        except Exception:  # noqa
            return None
        true = i if isinstance(i, set) else {n for n, b in i.items() if b}
        want = sp.val(t, {k: x[2] in true for k, x in sp.bool_leaves(t).items()})
        for again in range(2):
            try:
                got = evaluate_pl(f, i)
            except Exception as e:  # noqa
                return f"evaluate_pl({sp.show(t)}, {i}) raises {e!r}"
            if bool(got) != want or got not in (True, False):
                return f"evaluate_pl({sp.show(t)}, {i}) = {got!r}, truth table says {want}"
        # the caller changes the same interpretation object and asks again
        for n in sorted({x[2] for x in sp.bool_leaves(t).values()})[:2]:
            b = n not in true
            if isinstance(i, dict):
                i[n] = b
            else:
                (i.add if b else i.discard)(n)
            true = true | {n} if b else true - {n}
            want = sp.val(t, {k: x[2] in true for k, x in sp.bool_leaves(t).items()})
            got = evaluate_pl(f, i)
            if bool(got) != want:
                return f"evaluate_pl({sp.show(t)}, {i}) = {got!r} after the interpretation was changed, truth table says {want}"
        return None


# ------------------------------------------------------------------ C04
COLLIDING = {}


def colliding():
    if not COLLIDING:
        for lg, cls in list(sp.ATOM.items()):
            COLLIDING[lg] = type(cls)("Atomic", (cls,), {"__hash__": lambda self: 7})
    return COLLIDING


class C04:
    JUNK = [None, 0, "a", (), "tt", 3.5, Logic.PL, object()]

    @staticmethod
    def cases(g, tier):
        pool = []
        A, Bb = ("atom", "ltl", "a"), ("atom", "ltl", "b")
        for lg in BLG + ("re",):
            pool += [g_leaf for g_leaf in C04.leaves(lg)]
        for lg in BLG + ("re",):
            ls = C04.leaves(lg)[:3]
            x, y = ls[0], ls[1]
            if lg != "re":
                for op in ("and", "or", "implies", "equiv"):
                    pool += [(op, x, y), (op, y, x), (op, x, y, ls[2]), (op, ls[2], y, x)]
                pool += [("not", x), ("not", y)]
            for op in list(sp.UN.get(lg, ())):
                pool += [(op, x), (op, y)]
            for op in list(sp.BI.get(lg, ())):
                pool += [(op, x, y), (op, y, x), (op, x, x), (op, x, y, x)]
            if lg == "re":
                pool += [("star", x), ("test", ("true", "ldl")), ("test", ("false", "ldl")), ("seq", x, y), ("seq", y, x),
                         ("seq", x, x), ("union", x, y), ("union", y, x), ("union", x, x), ("seq", x, y, x), ("union", x, y, x)]
            if lg == "ldl":
                r1, r2 = C04.leaves("re")[:2]
                pool += [(m, r, t) for m in ("box", "diamond") for r in (r1, r2) for t in (x, y)]
        for a, b in itertools.combinations_with_replacement(pool, 2):
            yield {"a": J(a), "b": J(b)}
        g.phase = 1
        while True:
            lg = g.rng.choice(BLG + ("re",))
            a = g.tree(lg, g.rng.choice([1, 2, 3]), True)
            b = C04.mutate(g, a) if g.rng.random() < .85 else g.tree(lg, 2, True)
            yield {"a": J(a), "b": J(b)}

    @staticmethod
    def leaves(lg):
        if lg in ("pl", "ltl", "pltl"):
            l = [("atom", lg, "a"), ("atom", lg, "b"), ("atom", lg, '"a"'), ("true", lg), ("false", lg)]
            return l + ([("ptrue", lg), ("pfalse", lg)] if lg != "pl" else [])
        if lg == "ldl":
            p = ("prop", ("atom", "pl", "a"))
            return [("diamond", p, ("true", lg)), ("box", p, ("true", lg)), ("box", p, ("false", lg)), ("true", lg), ("false", lg)]
        return [("prop", ("atom", "pl", "a")), ("prop", ("atom", "pl", "b")), ("prop", ("true", "pl"))]

    @staticmethod
    def mutate(g, t):
        """A tree near t: same, permuted, repeated or changed at one place."""
        r = g.rng
        if t[0] in ("atom", "true", "false", "ptrue", "pfalse") or r.random() < .15:
            x = r.random()
            if x < .6:
                return t
            try:
                return g.leaf(sp.logic(t), True)
            except ValueError:
                return t
        i = r.randrange(1, len(t))
        x = r.random()
        if x < .6:
            return t[:i] + (C04.mutate(g, t[i]),) + t[i + 1:]
        if len(t) > 2 and t[0] not in ("box", "diamond"):
            if x < .75:
                l = list(t[1:]); r.shuffle(l)
                return (t[0],) + tuple(l)
            if x < .82:
                return t + (r.choice(t[1:]),)
            if x < .88 and len(t) > 3:
                return t[:-1]
        if x < .95:
            lg = sp.logic(t)
            alts = [o for o in sp.OP2CLS if o != t[0] and sp.LOGIC_OF_OP.get(o, lg) == lg and (o in sp.BOOLEAN) == (t[0] in sp.BOOLEAN)
                    and (o in ("not", "star", "test", "prop") or o in sum(map(list, sp.UN.values()), [])) == (len(t) == 2)]
            alts = [o for o in alts if o not in ("test", "prop", "box", "diamond", "forall", "exists")]
            if alts and t[0] not in ("test", "prop", "box", "diamond"):
                return (r.choice(alts),) + t[1:]
            if t[0] in ("box", "diamond"):
                return ({"box": "diamond", "diamond": "box"}[t[0]],) + t[1:]
        return t

    @staticmethod
    def check(c):
        r = C04.judge(c)
        if r is None and not c.get("plain"):
            old = dict(sp.ATOM)
            try:  # the same with atoms whose hashes collide
                sp.ATOM.update(colliding())
                r = C04.judge(c)
                r = r and "with atoms whose hashes collide: " + r
            finally:
                sp.ATOM.clear()
                sp.ATOM.update(old)
        return r

    @staticmethod
    def judge(c):
        try:
            f, h = sp.build(U(c["a"])), sp.build(U(c["b"]))
            tf, th = sp.read(f), sp.read(h)
        except Exception:  # noqa
            return None
        txt = f"{sp.show(tf)} and {sp.show(th)}"
        want = sp.key(tf) == sp.key(th)
        hf0, hh0 = hash(f), hash(h)
        for x, y in ((f, h), (h, f)):
            if (x == y) is not want:
                return f"{txt}: == is {x == y!r}, structural equality is {want}"
            if (x != y) is want:
                return f"{txt}: != is {x != y!r}, structural equality is {want}"
        if want and hash(f) != hash(h):
            return f"{txt} are equal but their hashes differ"
        if not (f == f) or not (h == h):
            return f"{txt}: not equal to itself"
        g2 = sp.build(U(c["a"]))
        if not (g2 == f) or hash(g2) != hf0:
            return f"{sp.show(tf)} built twice: equality or hash differs"
        for j in C04.JUNK:
            if f == j or j == f or not (f != j):
                return f"{sp.show(tf)} equals {j!r}"
        if hash(f) != hf0 or hash(h) != hh0:
            return f"{txt}: the hash changed"
        if len({f, h}) != (1 if want else 2):
            return f"{txt}: a set of both has {len({f, h})} elements"
        return None


# ------------------------------------------------------------------ C05
class C05:
    @staticmethod
    def cases(g, tier):
        base = [("atom", "pl", "a"), ("atom", "ltl", "a"), ("and", ("atom", "pl", "a"), ("atom", "pl", "b")),
                ("and", ("atom", "pl", "b"), ("atom", "pl", "a")), ("true", "pl"), ("true", "ltl"), ("ptrue", "ltl"),
                ("not", ("atom", "pl", "a"))]
        for n in (1, 2, 3):
            for h in itertools.product(base + [("reset",)], repeat=n):
                yield {"h": [J(x) for x in h]}
        for n in sorted(set(g.huge) | {b for b in g.big if b > 12} | {600}):
            yield {"many": n + 2}
        g.phase = 1
        while True:
            h = []
            for _ in range(g.rng.choice([3, 6, 12, 12, 25] + [b for b in g.big if b > 12][:3])):
                if g.rng.random() < .12:
                    h.append(["reset"])
                elif h and g.rng.random() < .3 and h[-1] != ["reset"]:
                    x = U(g.rng.choice([x for x in h if x != ["reset"]] or [["true", "pl"]]))
                    h.append(J(C04.mutate(g, x)))
                else:
                    h.append(J(g.tree(g.rng.choice(BLG + ("re",)), g.rng.choice([0, 1, 2]), True)))
            yield {"h": h}

    @staticmethod
    def check(c):
        B.reset_cache()
        if B.get_cache_context() != {}:
            return "reset_cache leaves entries in the cache"
        if "many" in c:
            for lg in BLG:
                fs = [sp.build(("atom", lg, f"a{i}") if lg != "ldl" else ("diamond", ("prop", ("atom", "pl", f"a{i}")), ("true", "ldl"))) for i in range(c["many"])]
                ctx = B.get_cache_context().get(sp.LG[lg], {})
                for i, f in enumerate(fs):
                    if f not in ctx:
                        return f"after {c['many']} formulas of {lg}, number {i} is not in the cache"
            return None
        built = []

        def node(op, args, t):
            before = [sp.read(a) for a in args]
            r = sp.OP2CLS[op](*args)
            got = sp.key(sp.read(r))
            want = sp.key(sp.norm1(op, before))
            if op not in ("and", "or", "not", "equiv", "implies") and got != want:
                raise Bad(f"{op} of {[sp.show(x) for x in before]} returns {sp.show(sp.read(r))}")
            built.append((got, r))
            return r

        def leafs(t):
            if t[0] in ("atom", "true", "false", "ptrue", "pfalse"):
                r = sp.build(t)
                if sp.read(r) != t:
                    raise Bad(f"asked for {sp.show(t)}, got {sp.show(sp.read(r))}")
                built.append((sp.key(t), r))
                return r
            return node(t[0], [leafs(a) for a in t[1:]], t)

        for x in c["h"]:
            t = U(x)
            if t == ("reset",):
                B.reset_cache()
                built.clear()
                if B.get_cache_context() != {}:
                    return "reset_cache leaves entries in the cache"
            else:
                try:
                    leafs(t)
                except Bad as e:
                    return str(e)
                except (AssertionError, ValueError, AttributeError, TypeError):
                    continue  # ill-formed tree
            ctx = B.get_cache_context()
            entries = []
            for lg, d in ctx.items():
                for e in d:
                    if e.logic != lg:
                        return f"after {c['h']}: {e!r} is filed under {lg}"
                    entries.append(e)
            ks = [sp.key(sp.read(e)) for e in entries]
            if len(set(ks)) != len(ks):
                return f"after {c['h']}: two equal entries in the cache"
            for k, r in built:
                if k not in ks:
                    return f"after {c['h']}: {r!r} has no entry in the cache"
                if r not in ctx.get(r.logic, {}):
                    return f"after {c['h']}: {r!r} is not found in the cache"
        return None


# ------------------------------------------------------------------ C13
def _valid_parts(t):
    f = sp.build(t)
    return f


class C13:
    BAD_OBJ = ["none", "str", "int", "logic", "class", "list", "formula_in_list", "term"]

    @staticmethod
    def obj(k):
        return {"none": None, "str": "a", "int": 3, "logic": Logic.PL, "class": B.And, "list": [], "term": FOL.Variable("x"),
                "formula_in_list": [PL.Atomic("a")], "false": False}[k]

    @staticmethod
    def cases(g, tier):
        nary = list(sp.BOOL) + list(sp.BI["ltl"]) + list(sp.BI["pltl"]) + list(sp.RE_BI)
        un = ["not"] + list(sp.UN["ltl"]) + list(sp.UN["pltl"]) + list(sp.RE_UN)
        for op in nary + un + ["box", "diamond", "forall", "exists"]:
            yield {"reject": op, "args": []}
        for op in nary:
            lg = sp.LOGIC_OF_OP.get(op, "pl")
            x = C04.leaves(lg)[0]
            y = C04.leaves(lg)[1]
            if op not in sp.BOOL:
                yield {"reject": op, "args": [J(x)]}
            for b in C13.BAD_OBJ:
                for n in range(1 if op in sp.BOOL else 2, 5):
                    for i in range(n):
                        a = [J(x), J(y), J(x), J(y)][:n]
                        a[i] = ["bad", b]
                        yield {"reject": op, "args": a}
                        if op in sp.BOOL:
                            for z in (("false", "pl"), ("true", "pl"), ("not", x)):
                                d = list(a)
                                d[(i + 1) % n] = J(z)
                                d[i] = ["bad", b]
                                yield {"reject": op, "args": d}
                            yield {"reject": op, "args": [["bad", b]] * n}
        for n in [b for b in g.big if b > 4][:40]:
            for op in nary:
                lg = sp.LOGIC_OF_OP.get(op, "pl")
                ops = ([J(("atom", lg, f"a{i}")) for i in range(n)] if lg in ("pl", "ltl", "pltl") else
                       [J(("prop", ("atom", "pl", f"a{i}"))) for i in range(n)])
                for i in (0, 1, n // 2, n - 1):
                    for b in ("none", "str", "int"):
                        a = list(ops)
                        a[i] = ["bad", b]
                        yield {"reject": op, "args": a}
        for op in un:
            for b in C13.BAD_OBJ:
                yield {"reject": op, "args": [["bad", b]]}
        for op in sp.BOOL:
            for r in [("prop", ("atom", "pl", "a")), ("star", ("prop", ("atom", "pl", "a"))), ("test", ("true", "ldl")),
                      ("seq", ("prop", ("atom", "pl", "a")), ("prop", ("atom", "pl", "b"))),
                      ("union", ("prop", ("atom", "pl", "a")), ("prop", ("atom", "pl", "b")))]:
                r2 = ("star", r)
                for n in (2, 3, 5):
                    yield {"reject": op, "args": [J(r), J(r2), J(("star", r2)), J(("star", ("star", r2))), J(("prop", ("atom", "pl", "b")))][:n]}
        re_ok, ldl_ok = J(("prop", ("atom", "pl", "a"))), J(("true", "ldl"))
        foreign = [("atom", "pl", "a"), ("atom", "ltl", "a"), ("true", "pl"), ("true", "pltl"), ("pred", "P"),
                   ("next", ("atom", "ltl", "a"))]
        for m in ("box", "diamond"):
            for f in foreign + [("true", "ldl"), ("box", ("prop", ("true", "pl")), ("true", "ldl"))]:
                yield {"reject": m, "args": [J(f), ldl_ok]}
            for f in foreign + [("prop", ("true", "pl")), ("star", ("prop", ("true", "pl")))]:
                yield {"reject": m, "args": [re_ok, J(f)]}
            for b in C13.BAD_OBJ:
                yield {"reject": m, "args": [["bad", b], ldl_ok]}
                if b != "term":
                    yield {"reject": m, "args": [re_ok, ["bad", b]]}
        for q in ("forall", "exists"):
            body = J(("pred", "P", ("var", "x")))
            for v in (("const", "c"), ("fun", "f", ("var", "x")), ("pred", "P"), ("atom", "pl", "a")):
                yield {"reject": q, "args": [J(v), body]}
            for b in C13.BAD_OBJ:
                if b != "term":
                    yield {"reject": q, "args": [["bad", b], body]}
                    yield {"reject": q, "args": [J(("var", "x")), ["bad", b]]}
            for f in [("atom", "pl", "a"), ("atom", "ltl", "a"), ("true", "pl"), ("true", "ldl"), ("prop", ("true", "pl")),
                      ("and", ("atom", "pl", "a"), ("atom", "pl", "b"))]:
                yield {"reject": q, "args": [J(("var", "x")), J(f)]}
        for lg in BLG + ("re",):
            for x in C04.leaves(lg):
                yield {"keep": J(x)}
        g.phase = 1
        while True:
            lg = g.rng.choice(BLG + ("re", "fol"))
            if lg == "fol":
                yield {"keep": J(C13.fol(g, g.rng.choice([1, 2, 3])))}
            yield {"keep": J(g.tree(lg, g.rng.choice([1, 2, 3]), g.rng.random() < .5))}

    @staticmethod
    def fol(g, d):
        r = g.rng
        term = lambda k=1: r.choice([("var", r.choice("xyz")), ("const", r.choice("cd"))] + ([("fun", "f", term(0))] if k else []))  # noqa
        if d == 0:
            return ("pred", r.choice("PQR")) + tuple(term() for _ in range(r.choice([0, 1, 2, 3])))
        k = r.choice(["forall", "exists", "and", "or", "not", "implies"])
        if k in ("forall", "exists"):
            return (k, ("var", r.choice("xyz")), C13.fol(g, d - 1))
        if k == "not":
            return (k, C13.fol(g, d - 1))
        return (k, C13.fol(g, d - 1), C13.fol(g, d - 1))

    @staticmethod
    def check(c):
        if "reject" in c:
            args = []
            for a in c["args"]:
                if a[0] == "bad":
                    args.append(C13.obj(a[1]))
                else:
                    args.append(sp.build(U(a)))
            try:
                r = sp.OP2CLS[c["reject"]](*args)
            except Exception:  # noqa
                return None
            return f"{c['reject']} of {args!r} is accepted and returns {type(r).__name__}"

        def node(op, args, t):
            before = list(args)
            bt = [None if isinstance(a, FOL.Term) else sp.read(a) for a in args]
            if op in sp.BOOL and len({sp.logic(x) for x in bt}) > 1:
                raise Skip
            try:
                r = sp.OP2CLS[op](*args)
            except Exception as e:  # noqa
                raise Bad(f"{op} of well-formed {args!r} raises {e!r}")
            lg = sp.LOGIC_OF_OP.get(op) or sp.logic(bt[0])
            if sp.LGI.get(r.logic) != lg:
                raise Bad(f"{op} of {args!r} belongs to logic {r.logic}")
            if op in ("implies",) and len(args) >= 2 and ("false", lg) not in bt[:-1]:
                same(r.operands, before, op)
            elif op in sp.BI.get("ltl", {}) or op in sp.BI["pltl"] or op in sp.RE_BI:
                same(r.operands, before, op)
            elif op in sp.UN["ltl"] or op in sp.UN["pltl"] or op in sp.RE_UN:
                same([r.argument], before, op)
            elif op in sp.MOD:
                same([r.regular_expression, r.tail_formula], before, op)
            elif op in sp.QUANT:
                same([r.variable, r.formula], before, op)
                same(r.operands, before, op)
            elif op == "not" and bt[0] is not None and bt[0][0] not in ("not", "true", "false", "ptrue", "pfalse"):
                same([r.argument], before, op)
            elif op in ("and", "or", "not"):
                want = sp.norm1(op, bt)
                if "pred" not in repr(want) and sp.read(r) != want:
                    # any other legal simplification must keep the meaning: decided by C01/C03
                    pass
            return r

        def same(got, want, op):
            got = list(got)
            if len(got) != len(want) or any(g is not w for g, w in zip(got, want)):
                if len(got) != len(want) or any(isinstance(w, FOL.Term) or not (g == w) for g, w in zip(got, want)):
                    raise Bad(f"{op} of {want!r} has parts {got!r}")

        try:
            f = walk(U(c["keep"]), node)
            t = U(c["keep"])
            if t[0] == "atom" and (f.name != t[2] or sp.LGI[f.logic] != t[1]):
                return f"atom {t} has name {f.name!r} and logic {f.logic}"
        except Skip:
            return None
        except Bad as e:
            return str(e)
        return None


# ------------------------------------------------------------------ C14
_CHILD = r'''
import sys, pickle, json
sys.path.insert(0, sys.argv[1]); sys.path.insert(1, sys.argv[2])
from vf import sp
bad = []
for i, (t, blob) in enumerate(pickle.load(sys.stdin.buffer)):
    try:
        f = pickle.loads(blob)
        g = sp.build(t)
        if any("hash" in k for k in f.__dict__): bad.append([i, "carries a stored hash"]); continue
        if not (f == g) or not (g == f): bad.append([i, "differs from the formula in the other interpreter"]); continue
        if hash(f) != hash(g): bad.append([i, "its hash is not the one of the other interpreter"]); continue
        if hash(f) != hash(g) or len({f, g}) != 1: bad.append([i, "hash inconsistent with equality"]); continue
        if sp.read(f) != sp.read(g): bad.append([i, "parts differ"]); continue
    except Exception as e:
        bad.append([i, repr(e)])
print(json.dumps(bad))
'''


class C14:
    @staticmethod
    def cases(g, tier):
        pool = []
        for lg in BLG + ("re",):
            ls = C04.leaves(lg)
            pool += ls
            x, y = ls[0], ls[1]
            if lg != "re":
                pool += [(op, x, y) for op in sp.BOOL] + [("not", x), ("not", ("and", x, y)), ("not", ("not", x))]
            pool += [(op, x) for op in sp.UN.get(lg, ())] + [(op, x, y) for op in sp.BI.get(lg, ())]
        pool += [("star", ("prop", ("true", "pl"))), ("seq",) + tuple(C04.leaves("re")), ("union",) + tuple(C04.leaves("re")),
                 ("test", ("not", ("box", ("prop", ("true", "pl")), ("false", "ldl"))))]
        for t in pool:
            for h in (0, 1, 2):
                yield {"t": J(t), "hashed": h}
        yield {"batch": [J(t) for t in pool]}
        for n in [b for b in g.big if b <= 310]:
            at, ps = [("atom", "ltl", f"a{i}") for i in range(n)], [("prop", ("atom", "pl", f"a{i}")) for i in range(n)]
            ts = [(op,) + tuple(at) for op in list(sp.BOOL) + list(sp.BI["ltl"])] + [("seq",) + tuple(ps), ("union",) + tuple(ps), ("atom", "pl", "a" * n)]
            t = at[0]
            for i in range(min(n, 60)):
                t = ("next" if i % 2 else "not", ("and", t, at[i]))
            for t in ts + [t]:
                for h in (0, 1):
                    yield {"t": J(t), "hashed": h}
            yield {"batch": [J(t) for t in ts]}
        g.phase = 1
        while True:
            ts = [g.tree(g.rng.choice(BLG + ("re",)), g.rng.choice([1, 2, 3]), True) for _ in range(40)]
            for t in ts:
                yield {"t": J(t), "hashed": g.rng.randrange(3)}
            if g.rng.random() < .2:
                yield {"batch": [J(t) for t in ts]}

    @staticmethod
    def check(c):
        if "batch" in c:
            items = []
            for x in c["batch"]:
                for hashed in (False, True):
                    try:
                        f = sp.build(U(x))
                    except Exception:  # noqa
                        continue
                    if hashed:
                        hash(f)
                    try:
                        items.append((U(x), pickle.dumps(f)))
                    except Exception as e:  # noqa
                        return f"pickling {f!r} raises {e!r}"
            env = dict(os.environ, PYTHONHASHSEED="4242", PYTHONDONTWRITEBYTECODE="1")
            repo = os.environ.get("VERIF_REPO", "/repo")
            p = subprocess.run([sys.executable, "-c", _CHILD, repo, os.path.dirname(os.path.dirname(os.path.abspath(__file__)))],
                               input=pickle.dumps(items), capture_output=True, env=env)
            if p.returncode:
                return f"restoring in another interpreter fails: {p.stderr.decode()[-300:]}"
            bad = json.loads(p.stdout)
            if bad:
                i, msg = bad[0]
                return f"{sp.show(items[i][0])} restored in another interpreter: {msg}"
            return None
        try:
            f = sp.build(U(c["t"]))
            t = sp.read(f)
        except Exception:  # noqa
            return None
        h0 = None
        if c["hashed"]:
            h0 = hash(f)
            if c["hashed"] == 2:
                _ = {f: 1}, f == f, repr(f)
        snap = dict(f.__dict__)

        def pure(x):
            if snap.keys() != x.__dict__.keys() or any(snap[k] is not x.__dict__[k] for k in snap):
                return False
            return sp.read(x) == t

        for how, dup in (("pickle", lambda x: pickle.loads(pickle.dumps(x))), ("pickle protocol 2", lambda x: pickle.loads(pickle.dumps(x, 2))),
                         ("copy", copy.copy), ("deepcopy", copy.deepcopy)):
            try:
                r = dup(f)
                rt = sp.read(r)
            except Exception as e:  # noqa
                return f"{how} of {sp.show(t)} raises {e!r}"
            if not pure(f):
                return f"{how} changes the original {sp.show(t)}"
            if any("hash" in k for k in r.__dict__):
                return f"{how} of {sp.show(t)} carries a stored hash"
            if rt != t or not (r == f) or not (f == r):
                return f"{how} of {sp.show(t)} gives {sp.show(rt)}, equal: {r == f}"
            if hash(r) != hash(f) or hash(r) != hash(f):
                return f"{how} of {sp.show(t)}: hash differs from the original"
            if h0 is not None and hash(f) != h0:
                return f"{how}: the hash of the original {sp.show(t)} changed"
            snap = dict(f.__dict__)
        return None


# ------------------------------------------------------------------ C15
class C15:
    @staticmethod
    def cases(g, tier):
        for lg in BLG + ("re",):
            for x in C04.leaves(lg):
                yield {"t": J(x), "u": J(x)}
        g.phase = 1
        while True:
            lg = g.rng.choice(BLG + ("re", "pl"))
            t = g.tree(lg, g.rng.choice([1, 2, 3]), g.rng.random() < .5)
            u = C04.mutate(g, t) if g.rng.random() < .5 else g.tree(lg, 2, True)
            c = {"t": J(t), "u": J(u)}
            if lg == "pl":
                c.update(C02._interp(g, t))
                if "dict" in c and g.rng.random() < .5:
                    for n in list(c["dict"]) + ["zz"]:
                        if g.rng.random() < .4:
                            c["dict"][n] = g.rng.choice([None, 0, 1, "", "x"])
                c["as"] = g.rng.choice(["plain", "plain", "sub", "ordered", "names"])
            yield c
            if g.rng.random() < .2:
                yield {"nd": g.rng.randrange(10 ** 9)}

    @staticmethod
    def check(c):
        from pylogics_modalities.semantics.pl import evaluate_pl
        from pylogics_modalities.utils.to_string import to_string
        if "nd" in c:
            return C15.nd(c["nd"])
        try:
            f, h = sp.build(U(c["t"])), sp.build(U(c["u"]))
            tf, th = sp.read(f), sp.read(h)
        except Exception:  # noqa
            return None

        def snap(x, acc):
            if isinstance(x, B.Formula):
                acc.append((x, {k: (v, list(v) if isinstance(v, list) else None) for k, v in x.__dict__.items() if "hash" not in k}))
                for v in x.__dict__.values():
                    for y in (v if isinstance(v, (list, tuple)) else [v]):
                        snap(y, acc)
            return acc

        before = snap(f, snap(h, []))

        def intact(what):
            for x, d in before:
                now = {k: v for k, v in x.__dict__.items() if "hash" not in k}
                if now.keys() != d.keys() or any(now[k] is not d[k][0] or (d[k][1] is not None and list(now[k]) != d[k][1]) for k in d):
                    return f"{what} changes a formula ({x!r})"
            if sp.read(f) != tf or sp.read(h) != th:
                return f"{what} changes {sp.show(tf)} or {sp.show(th)}"
            return None

        i = set(c["set"]) if "set" in c else dict(c["dict"]) if "dict" in c else None
        i = C15.dress(i, c.get("as"))
        i0 = copy.deepcopy(i)
        look = lambda: ([(k, id(k), v, id(v)) for k, v in i.items()] if isinstance(i, dict) else sorted((k, id(k)) for k in i) if i is not None else None)  # noqa
        i1 = look()
        ops = [("hash", lambda: hash(f)), ("==", lambda: (f == h, h == f)), ("to_string", lambda: (to_string(f), to_string(h))),
               ("str/repr", lambda: (str(f) and 0, repr(f) and 0)), ("~", lambda: sp.key(sp.read(~f)))]
        lgs = {sp.logic(tf), sp.logic(th)}
        if len(lgs) == 1 and lgs != {"re"}:
            ops += [(o, lambda o=o: sp.key(sp.read(sp.OP2CLS[o](f, h)))) for o in sp.BOOL]
        if i is not None:
            ops.append(("evaluate_pl", lambda: evaluate_pl(f, i)))
        for name, op in ops:
            res = []
            for _ in range(3):
                try:
                    res.append(op())
                except RecursionError:
                    raise
                except Exception as e:  # noqa
                    res.append(("exc", type(e).__name__))
                m = intact(name)
                if m:
                    return m
                if i != i0 or look() != i1:
                    return f"{name} changes the interpretation {i0} to {i}"
            if any(r != res[0] for r in res):
                return f"{name} on {sp.show(tf)} answers {res}"
        for x in (f, h):
            if hasattr(x, "operands"):
                o = x.operands
                n = list(o)
                try:
                    o[0] = None
                except TypeError:
                    pass
                for meth in ("append", "clear", "pop", "reverse"):
                    if hasattr(o, meth):
                        try:
                            getattr(o, meth)(*([None] if meth == "append" else []))
                        except Exception:  # noqa
                            pass
                if list(x.operands) != n or any(a is not b for a, b in zip(x.operands, n)):
                    return f"changing the operands handed out by {type(x).__name__} changes the formula"
        return None

    @staticmethod
    def dress(i, how):
        """The same interpretation as another kind of set or dictionary."""
        import collections
        if i is None or how in (None, "plain"):
            return i
        if how == "names":
            def nm(x):
                try:
                    return B.AtomName(x)
                except ValueError:
                    return x
            return {nm(x) for x in i} if isinstance(i, set) else {nm(x): v for x, v in i.items()}
        if isinstance(i, set):
            return type("Names", (set,), {})(i)
        if how == "ordered":
            return collections.OrderedDict(i)
        return collections.defaultdict(bool, i)

    @staticmethod
    def nd(seed):
        from . import f_nd
        r = random.Random(seed)
        p = f_nd.random_proof(r)
        try:
            pr = f_nd.to_real(p)
        except Exception:  # noqa
            return None

        def view(x):
            if isinstance(x, list):
                return [view(y) for y in x]
            if isinstance(x, tuple):
                return tuple(view(y) for y in x)
            return id(x)

        raw = copy.copy(f_nd.raw_list(p))
        before = view(pr)
        from pylogics_modalities.deduction.fol import NaturalDeduction as ND
        texts = repr(pr)
        res = []
        for _ in range(2):
            try:
                res.append(ND.check(pr))
            except Exception as e:  # noqa
                res.append(type(e).__name__)
            if view(pr) != before or repr(pr) != texts:
                return f"proof checking changes the proof {p}"
        if res[0] != res[1]:
            return f"proof checking answers {res} on {p}"
        v = view(raw)
        try:
            ND.Proof(raw)
        except Exception:  # noqa
            return None
        if view(raw) != v:
            return f"building a proof changes the list it is given: {p}"
        return None


# ------------------------------------------------------------------ C16
class C16:
    @staticmethod
    def cases(g, tier):
        for kind in ("pred", "fun"):
            for n in sorted({0, 1, 2, 3, 4, 5} | {b for b in g.big if b <= 60}):
                for m in sorted({0, 1, 2, 3, n - 1, n, n + 1}):
                    if m >= 0:
                        yield {"k": kind, "n": n, "args": [["var", f"x{i}"] for i in range(m)], "name": "P"}
                for i in range(min(n, 6)):
                    for b in ("none", "str", "atom", "pred", "int"):
                        a = [["var", f"x{j}"] for j in range(n)]
                        a[i] = ["bad", b]
                        yield {"k": kind, "n": n, "args": a, "name": "P"}
                        if n > 6:
                            a = [["var", f"x{j}"] for j in range(n)]
                            a[n - 1 - i] = ["bad", b]
                            yield {"k": kind, "n": n, "args": a, "name": "P"}
        # symbols and arguments over a small pool of shared terms
        for kind in ("pred", "fun"):
            for n in range(1, 5):
                for formal in itertools.product(range(2), repeat=n):
                    for args in itertools.product(range(3), repeat=n):
                        yield {"k": kind, "formal": list(formal), "seq": [list(args), list(formal), list(args)[::-1]]}
        g.phase = 1
        while True:
            r = g.rng
            n = r.choice([0, 1, 2, 3, 4])
            m = r.choice([2, 3, 5])
            yield {"k": r.choice(["pred", "fun"]), "formal": [r.randrange(m) for _ in range(n)], "touch": r.random() < .5, "chain": r.random() < .5,
                   "seq": [[r.randrange(m) for _ in range(n if r.random() < .85 else r.randrange(5))] for _ in range(r.choice([1, 2, 4]))]}
            term = lambda d=2: r.choice([["var", r.choice("xyz")], ["const", r.choice(["c", "d", "c1"])]] + ([["fun", r.choice("fg")] + [term(d - 1) for _ in range(r.choice([0, 1, 2]))]] if d else []))  # noqa
            yield {"k": r.choice(["pred", "fun"]), "n": n, "args": [term() for _ in range(n if r.random() < .8 else r.choice([0, 1, 2, 3]))],
                   "name": r.choice(["P", "Q", "f", "loves", "R2", g.name("pl")])}

    @staticmethod
    def text(t):
        if t[0] in ("var", "const"):
            return t[1]
        return f"{t[1]}({', '.join(C16.text(a) for a in t[2:])})"

    @staticmethod
    def shared(c):
        """Several applications of one symbol to terms of a shared pool."""
        cls = {"pred": FOL.Predicate, "fun": FOL.Function}[c["k"]]
        pool = [FOL.Variable("x"), FOL.Constant("c"), FOL.Variable("y"), FOL.Function("f", [FOL.Variable("x")]), FOL.Variable("x")]
        txt = ["x", "c", "y", "f(x)", "x"]
        formal = [pool[i] for i in c["formal"]]
        s = first = cls("P", list(formal))
        show = lambda name, idx: f"{name}({', '.join(txt[i] for i in idx)})" if idx or c["k"] == "fun" else name  # noqa
        if c.get("touch"):
            str(s), hash(s), repr(s)
        for idx in c["seq"]:
            args = [pool[i] for i in idx]
            what = f"{show('P', c['formal'])} applied to {[txt[i] for i in idx]}"
            try:
                r = s(*args)
            except Exception as e:  # noqa
                if len(args) == len(formal):
                    return f"{what} raises {e!r}"
                continue
            if len(args) != len(formal):
                return f"{what} is accepted"
            if r is s or r is first:
                return f"{what} returns the symbol itself instead of a new {'atom' if c['k'] == 'pred' else 'term'}"
            if type(r) is not cls or r.name != "P" or len(r.operands) != len(args) or any(a is not b for a, b in zip(r.operands, args)):
                return f"{what} gives {r}"
            if str(r) != show("P", idx) and not (c["k"] == "fun" and not args):
                return f"{what} prints as {r}"
            if len(first.operands) != len(formal) or any(a is not b for a, b in zip(first.operands, formal)) or first.name != "P":
                return f"{what} changes the symbol to {first}"
            if str(first) != show("P", c["formal"]) and not (c["k"] == "fun" and not args):
                return f"after being applied, the symbol prints as {first}"
            if c.get("chain"):
                s = r
        return None

    @staticmethod
    def check(c):
        if "formal" in c:
            return C16.shared(c)
        cls = {"pred": FOL.Predicate, "fun": FOL.Function}[c["k"]]
        formal = [FOL.Variable(f"v{i}") for i in range(c["n"])]
        s = cls(c["name"], list(formal))
        junk = {"none": None, "str": "x", "atom": PL.Atomic("a"), "pred": FOL.Predicate("Q"), "int": 1}
        args = [junk[a[1]] if a[0] == "bad" else sp.build(U(a)) for a in c["args"]]
        ok = len(args) == c["n"] and not any(a[0] == "bad" for a in c["args"])
        try:
            r = s(*args)
        except Exception as e:  # noqa
            if ok:
                return f"{c['k']} {c['name']} of arity {c['n']} applied to {args!r} raises {e!r}"
            r = None
        else:
            if not ok:
                return f"{c['k']} {c['name']} of arity {c['n']} accepts {args!r}"
        if s.name != c["name"] or len(s.operands) != c["n"] or any(a is not b for a, b in zip(s.operands, formal)):
            return f"applying {c['k']} {c['name']} changes the symbol: {s!r}"
        if r is None:
            return None
        if type(r) is not cls or r.name != c["name"] or len(r.operands) != len(args) or any(a is not b for a, b in zip(r.operands, args)):
            return f"{c['k']} {c['name']} applied to {args!r} gives {r!r}"
        want = C16.text([c["k"], c["name"]] + c["args"])
        if c["k"] == "pred" and not args:
            want = c["name"]
        if str(r) != want and not (c["k"] == "fun" and not args and str(r) in (c["name"], c["name"] + "()")):
            return f"{c['k']} prints as {str(r)!r}, expected {want!r}"
        if sp.LGI[r.logic] != "fol":
            return f"{c['k']} belongs to {r.logic}"
        return None


ALL = {"C01": C01, "C02": C02, "C03": C03, "C04": C04, "C05": C05, "C13": C13, "C14": C14, "C15": C15, "C16": C16}
