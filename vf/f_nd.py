"""Executable contracts for C10-C12 (natural deduction)."""
import itertools
import random

from . import sp
from .sp import B, FOL
from .f_syntax import J, U

RULES = ["and_e1", "and_e2", "and_i", "assumption", "bot_e", "copy", "dneg_e", "dneg_i", "exists_e", "exists_i", "forall_e", "forall_i",
         "impl_e", "impl_i", "MT", "neg_e", "neg_i", "or_e", "or_i1", "or_i2", "premise"]
PROP_RULES = [r for r in RULES if "forall" not in r and "exists" not in r]
P, Q, R, S = (("atom", "pl", n) for n in "pqrs")
BOT = ("false", "pl")


def N(t):
    return sp.neg(t) if t[0] != "not" else t[1]


# A proof is a list of lines: [row, "f", tree, rule, refs] | [row, "t", term] | [row, "box", lines]
def obj(t):
    """Real formula of a tree; ('>>', a, b) is the operator >>."""
    if t[0] == ">>":
        return obj(t[1]) >> obj(t[2])
    if t[0] in sp.OP2CLS and t[0] not in ("prop",):
        return sp.OP2CLS[t[0]](*[obj(a) for a in t[1:]])
    if t[0] in ("pred", "fun"):
        return {"pred": FOL.Predicate, "fun": FOL.Function}[t[0]](t[1], [obj(a) for a in t[2:]])
    return sp.build(t)


def raw_list(lines, inner=False):
    """The list the library's Proof builder takes."""
    from pylogics_modalities.deduction.fol import NaturalDeduction as ND
    out = []
    for k, l in enumerate(lines):
        if not (inner and k == 0):
            out.append(l[0])
        if l[1] == "f":
            out += [obj(U(l[2])), (ND.rule[l[3]],) + tuple(l[4])]
        elif l[1] == "t":
            out += [obj(U(l[2])), (ND.rule.assumption,)]
        else:
            out.append(raw_list(l[2], True))
    return out


def fix_rows(lines):
    """A box has the row of its first line."""
    for l in lines:
        if l[1] == "box":
            fix_rows(l[2])
            if l[2]:
                l[0] = l[2][0][0]
    return lines


def to_real(lines):
    from pylogics_modalities.deduction.fol import NaturalDeduction as ND
    return ND.Proof(raw_list(lines))


def accepted(lines):
    from pylogics_modalities.deduction.fol import NaturalDeduction as ND
    try:
        return ND.check(to_real(lines)) is True
    except RecursionError:
        raise
    except Exception:  # noqa
        return False


# ---------------------------------------------------------------- propositional consequence
def tree(t):
    """Tree of the formula a proof line holds (built by the real constructors)."""
    return sp.read(obj(U(t)))


def unsound_prop(lines):
    hyp, leaves, todo = [], {}, []
    for l in lines:
        if l[1] == "f":
            t = tree(l[2])
            sp.bool_leaves(t, leaves)
            if l[3] in ("premise", "assumption"):
                hyp.append(t)
            todo.append((l, t, list(hyp)))
    if len(leaves) > 10:
        return None
    asgs = list(sp.assignments(leaves, random.Random(3), limit=1024))
    for l, t, h in todo:
        for a in asgs:
            if all(sp.val(x, a) for x in h) and not sp.val(t, a):
                return (f"accepted, but line {l[0]} ({sp.show(t)} by {l[3]}) does not follow from {[sp.show(x) for x in h]}: "
                        f"false when exactly {[sp.show(leaves[k]) for k in a if a[k]]} are true")
    return None


def pool_prop(r=None):
    lits = [P, Q, ("not", P), ("not", Q), BOT]
    two = [(o, a, b) for o in ("and", "or", ">>", "implies", "equiv") for a, b in ((P, Q), (Q, P), (P, ("not", Q)), (("not", P), Q), (P, BOT))]
    return lits + two + [("and", P, Q, R), ("or", P, Q, R), ("not", ("and", P, Q)), ("not", ("or", P, Q)), R, ("true", "pl"),
                         ("implies", P, Q, R), ("and", ("or", P, Q), R), (">>", ("and", P, Q), R), (">>", P, ("or", Q, R)),
                         ("or", ("and", P, Q), R), (">>", (">>", P, Q), R), (">>", ("not", P), ("not", Q))]


def rnd_f(r, d=2, atoms=(P, Q, R)):
    if d == 0 or r.random() < .25:
        return r.choice(list(atoms) + [BOT]) if r.random() < .92 else ("true", "pl")
    o = r.choice(["and", "or", ">>", "not", "and", "or", ">>", "implies", "equiv"])
    if o == "not":
        return ("not", rnd_f(r, d - 1, atoms))
    n = 2 if r.random() < .85 else 3
    if o == ">>":
        n = 2
    return (o,) + tuple(rnd_f(r, d - 1, atoms) for _ in range(n))


def correct_rule(r, rule, d=2):
    """(context lines, conclusion, refs) of a correct application with random metavariables."""
    a, b, c = rnd_f(r, d), rnd_f(r, d), rnd_f(r, d)
    prem = lambda i, t: [i, "f", J(t), "premise", []]  # noqa
    box = lambda i, t, body: [i, "box", [[i, "f", J(t), "assumption", []]] + body]  # noqa
    imp = (">>", a, b)
    if rule == "and_e1":
        return [prem(1, ("and", a, b))], a, [1]
    if rule == "and_e2":
        return [prem(1, ("and", a, b))], b, [1]
    if rule == "and_i":
        return [prem(1, a), prem(2, b)], ("and", a, b), [1, 2]
    if rule == "assumption" or rule == "premise":
        return [], a, []
    if rule == "bot_e":
        return [prem(1, BOT)], a, [1]
    if rule == "copy":
        return [prem(1, a)], a, [1]
    if rule == "dneg_e":
        return [prem(1, ("not", ("not", a)))], a, [1]
    if rule == "dneg_i":
        return [prem(1, a)], ("not", ("not", a)), [1]
    if rule == "impl_e":
        return [prem(1, a), prem(2, imp)], b, [1, 2]
    if rule == "impl_i":
        k = r.randrange(3)
        if k == 0:
            return [prem(1, b), box(2, a, [[3, "f", J(b), "copy", [1]]])], imp, [2]
        if k == 1:
            return [box(1, a, [])], (">>", a, a), [1]
        return [box(1, a, [[2, "f", J(("or", a, b)), "or_i1", [1]]])], (">>", a, ("or", a, b)), [1]
    if rule == "MT":
        return [prem(1, imp), prem(2, ("not", b))], ("not", a), [1, 2]
    if rule == "neg_e":
        return [prem(1, a), prem(2, ("not", a))], BOT, [1, 2]
    if rule == "neg_i":
        return [prem(1, b), prem(2, ("not", b)), box(3, a, [[4, "f", J(BOT), "neg_e", [1, 2]]])], ("not", a), [3]
    if rule == "or_e":
        return [prem(1, ("or", a, b)), prem(2, c), box(3, a, [[4, "f", J(c), "copy", [2]]]), box(5, b, [[6, "f", J(c), "copy", [2]]])], c, [1, 3, 5]
    if rule == "or_i1":
        return [prem(1, a)], ("or", a, b), [1]
    if rule == "or_i2":
        return [prem(1, b)], ("or", a, b), [1]
    raise ValueError(rule)


def subst_rows(lines, k):
    out = []
    for l in lines:
        if l[1] == "box":
            out.append([l[0] + k, "box", subst_rows(l[2], k)])
        elif l[1] == "f":
            out.append([l[0] + k, "f", l[2], l[3], [x + k for x in l[4]]])
        else:
            out.append([l[0] + k] + l[1:])
    return out


def random_proof(r):
    """Mostly plausible proof: correct applications, then mutated references, rules, formulas, nesting."""
    lines, row = [], 1
    hyps = [rnd_f(r, r.choice([0, 1, 1, 2])) for _ in range(r.choice([1, 2, 3]))]
    for h in hyps:
        lines.append([row, "f", J(h), "premise", []])
        row += 1

    def body(lines, visible, row, depth, budget):
        # visible: list of (row, tree | ('box', first, last))
        for _ in range(budget):
            x = r.random()
            forms = [(i, t) for i, t in visible if t[0] != "box#"]
            boxes = [(i, t) for i, t in visible if t[0] == "box#"]
            if x < .3 and depth < 3:
                a = rnd_f(r, r.choice([0, 0, 1]))
                inner = [[row, "f", J(a), "assumption", []]]
                start = row
                vis2 = visible + [(row, a)]
                row, last = body(inner, vis2, row + 1, depth + 1, r.choice([0, 1, 2, 3]))
                lines.append([start, "box", inner])
                end = inner[-1]
                while end[1] == "box" and end[2]:
                    end = end[2][r.choice([-1, -1, 0])]
                visible.append((start, ("box#", a, U(end[2]) if end[1] == "f" else a)))
                continue
            rule = r.choice([q for q in PROP_RULES if q != "premise" or depth == 0])
            if rule == "assumption" and r.random() < .9:
                rule = "copy"
            pick = lambda: r.choice(forms) if forms else (1, P)  # noqa
            (i, a), (j, b) = pick(), pick()
            try:
                concl, refs = derive(r, rule, i, a, j, b, boxes, forms)
            except LookupError:
                continue
            if r.random() < .12:
                concl = rnd_f(r, 1) if r.random() < .5 else a
            if r.random() < .1 and refs:
                refs = list(refs)
                refs[r.randrange(len(refs))] = r.randrange(1, row + 1)
            lines.append([row, "f", J(concl), rule, list(refs)])
            visible.append((row, concl))
            row += 1
        return row, None

    body(lines, [(l[0], U(l[2])) for l in lines], row, 0, r.choice([1, 2, 3, 5]))
    return lines


def derive(r, rule, i, a, j, b, boxes, forms):
    c = rnd_f(r, 1)
    strip = lambda t: t  # noqa
    if rule in ("and_e1", "and_e2"):
        c = [(i, t) for i, t in forms if t[0] in ("and", "or")]
        i, t = r.choice(c) if c else (i, a)
        k = 1 if rule == "and_e1" else 2
        return (t[k] if len(t) > k and t[0] in ("and", "or") else a), [i]
    if rule == "and_i":
        return ("and", a, b), [i, j]
    if rule in ("assumption", "premise"):
        return c, []
    if rule == "bot_e":
        bs = [i for i, t in forms if t == BOT]
        return c, [r.choice(bs) if bs else i]
    if rule == "copy":
        return a, [i]
    if rule == "dneg_e":
        return a, [i]
    if rule == "dneg_i":
        return ("not", ("not", a)), [i]
    if rule == "impl_e":
        cs = [(j, t) for j, t in forms if t[0] in (">>", "implies", "or")]
        j, t = r.choice(cs) if cs else (j, b)
        ks = [k for k, u in forms if len(t) > 1 and u == t[1]]
        return t[-1] if cs else b, [r.choice(ks) if ks else i, j]
    if rule in ("impl_i", "neg_i"):
        if not boxes:
            raise LookupError
        k, (_, x, y) = r.choice(boxes)
        return ((">>", x, y) if rule == "impl_i" else ("not", x)), [k]
    if rule == "MT":
        cs = [(k, t) for k, t in forms if t[0] in (">>", "implies")]
        k, t = r.choice(cs) if cs else (i, a)
        return ("not", t[1] if cs else b), [k, j]
    if rule == "neg_e":
        return BOT, [i, j]
    if rule == "or_e":
        if not boxes:
            raise LookupError
        (k, (_, x, y)), (l, (_, x2, y2)) = r.choice(boxes), r.choice(boxes)
        ds = [i for i, t in forms if t[0] == "or"]
        return y, [r.choice(ds) if ds else i, k, l]
    if rule == "or_i1":
        return (r.choice(["or", "or", "and", ">>"]), a, c), [i]
    if rule == "or_i2":
        return (r.choice(["or", "or", "and", ">>"]), c, a), [i]
    raise LookupError


class C10:
    @staticmethod
    def cases(g, tier):
        r = g.rng
        pool = pool_prop()
        small = [P, Q, ("not", P), BOT, ("and", P, Q), ("or", P, Q), (">>", P, Q), ("implies", P, Q), ("equiv", P, Q), ("not", Q), ("or", Q, P)]
        # every rule, every conclusion of the pool, one or two premises of the small pool
        for rule in PROP_RULES:
            if rule in ("assumption", "premise"):
                continue
            for c in pool:
                for a in pool:
                    yield {"p": [[1, "f", J(a), "premise", []], [2, "f", J(c), rule, [1]]]}
            for c in small:
                for a in small:
                    for b in small:
                        yield {"p": [[1, "f", J(a), "premise", []], [2, "f", J(b), "premise", []], [3, "f", J(c), rule, [1, 2]]]}
        # boxes: every rule, one or two boxes with one derived line each
        for rule in ("impl_i", "neg_i", "or_e", "copy", "and_i", "impl_e"):
            for a in small[:7]:
                for b in small[:7]:
                    for c in small:
                        bx = [2, "box", [[2, "f", J(a), "assumption", []], [3, "f", J(b), "copy", [1]]]]
                        yield {"p": [[1, "f", J(b), "premise", []], bx, [4, "f", J(c), rule, [2]]]}
                        yield {"p": [[1, "f", J(b), "premise", []], bx, [4, "f", J(c), rule, [3]]]}
                        yield {"p": [[1, "box", [[1, "f", J(a), "assumption", []], [2, "f", J(b), "assumption", []]]], [3, "f", J(c), rule, [1]]]}
                        yield {"p": [[1, "f", J(("or", a, b)), "premise", []], [2, "box", [[2, "f", J(a), "assumption", []]]],
                                     [3, "box", [[3, "f", J(b), "assumption", []]]], [4, "f", J(c), rule, [1, 2, 3]]]}
                        yield {"p": [[1, "f", J(("or", a, b)), "premise", []], [2, "box", [[2, "f", J(a), "assumption", []]]],
                                     [3, "box", [[3, "f", J(b), "assumption", []], [4, "f", J(a), "copy", [2]]]],
                                     [5, "f", J(c), rule, [1, 2, 3]]]}
                        yield {"p": [[1, "box", [[1, "f", J(a), "assumption", []], [2, "box", [[2, "f", J(b), "assumption", []], [3, "f", J(a), "copy", [1]]]],
                                                 [4, "f", J(c), rule, [2]]]], [5, "f", J(c), "copy", [4]], [6, "f", J(c), "copy", [1]]]}
                        yield {"p": [[1, "box", [[1, "f", J(a), "assumption", []], [2, "f", J(c), "premise", []]]], [3, "f", J((">>", a, c)), "impl_i", [1]]]}
        # boxes whose last (or first) line is a box
        for a in small[:7]:
            for b in small[:7]:
                for c in (a, b, BOT):
                    in2 = [[3, "f", J(b), "assumption", []], [4, "f", J(c), "copy", [1 if c == BOT else 2 if c == a else 3]]]
                    for lst in (in2, in2[:1], [[3, "box", in2]]):
                        bx = [[1, "f", J(BOT), "premise", []]] * (c == BOT) + [[2, "box", [[2, "f", J(a), "assumption", []], [3, "box", lst]]]]
                        rx = [[2, "box", [[2, "box", [[2, "f", J(a), "assumption", []], [3, "f", J(b), "assumption", []]]]]]]
                        for x in (a, b):
                            yield {"p": bx + [[6, "f", J((">>", a, x)), "impl_i", [2]]]}
                            yield {"p": rx + [[6, "f", J((">>", a, x)), "impl_i", [2]]]}
                        yield {"p": bx + [[6, "f", J(("not", a)), "neg_i", [2]]]}
                        yield {"p": [[0, "f", J(("or", a, a)), "premise", []]] + bx + [[6, "f", J(c), "or_e", [0, 2, 2]]]}
        # what a box contains is invisible after it: box length, depth, position and context vary
        for n in range(1, 5):
            for depth in range(1, 4):
                for pre in range(3):
                    for mid in range(3):
                        for at in range(n + depth):
                            for rule in ("copy", "or_i1", "dneg_i", "and_i"):
                                yield {"p": escape(n, depth, pre, mid, at, rule)}
        for n in [b for b in g.big if b <= 130]:
            for p in long_proofs(n):
                yield {"p": p}
        # forward references, self references, duplicate rows
        for c in small:
            for rule in PROP_RULES:
                for refs in ([1], [2], [1, 1], [1, 2], [2, 1], [0], [1, 1, 1], ["x"]):
                    yield {"p": [[1, "f", J(c), rule, refs], [2, "f", J(N(c)), "premise", []]]}
                    yield {"p": [[1, "f", J(P), "premise", []], [1, "f", J(c), rule, refs]]}
        g.phase = 1
        while True:
            p = random_proof(r)
            yield {"p": p}
            for _ in range(3):
                yield {"p": mutate(r, p)}
            yield {"p": renumber(r, leak(r, p))}

    @staticmethod
    def check(c):
        try:
            fix_rows(c["p"])
            if not accepted(c["p"]):
                return None
            return unsound_prop(c["p"])
        except (KeyError, IndexError, sp.ReadError):
            return None


def renumber(r, p):
    """The same proof with other row numbers, in the same order."""
    p = __import__("copy").deepcopy(p)
    rows = sorted({l[0] for _, l in all_lines(p) if isinstance(l[0], int)})
    at, new = r.choice([0, 0, 0, 1, 2, 99]), {}
    for k in rows:
        new[k] = at
        at += r.choice([1, 1, 1, 2, 10, 256])
    seen = set()
    for _, l in list(all_lines(p)):
        if id(l) in seen:
            continue
        seen.add(id(l))
        l[0] = new.get(l[0], l[0])
        if l[1] == "f":
            l[4] = [new.get(x, x) for x in l[4]]
    return p


def long_proofs(n):
    """Wrong proofs that are long, deep, or have long boxes."""
    pre = [[1000, "f", J(("atom", "pl", "s")), "premise", []]] + [[1000 + i, "f", J(("atom", "pl", "s")), "copy", [999 + i]] for i in range(1, n)]
    for a, c in ((P, Q), (("or", P, Q), P), (P, BOT), ((">>", P, Q), Q), (("not", P), Q), (("and", P, Q), R)):
        for rule in PROP_RULES:
            end = [[1, "f", J(a), "premise", []], [2, "f", J(c), rule, [1]]]
            yield pre + end
            yield [end[0]] + pre + [end[1]]
            yield [end[0], [500, "box", [[500, "f", J(R), "assumption", []]] + pre + [end[1]]], [501, "f", J((">>", R, c)), "impl_i", [500]]]
            if rule in ("copy", "and_e1", "or_i1", "impl_e"):
                t = [[2, "f", J(c), rule, [1]]]
                for i in range(min(n, 30)):
                    t = [[3000 + i, "box", [[3000 + i, "f", J(R), "assumption", []]] + t]]
                yield [end[0]] + t
        box = [[2, "f", J(P), "assumption", []]] + [[10 + i, "f", J(P), "copy", [2]] for i in range(n)]
        for rule in ("impl_i", "neg_i"):
            for x in ((">>", P, Q), (">>", Q, P), ("not", P)):
                yield [[2, "box", box], [3, "f", J(x), rule, [2]]]
        yield [[1, "f", J(("or", P, Q)), "premise", []], [2, "box", box], [5, "box", [[5, "f", J(Q), "assumption", []]]], [3, "f", J(P), "or_e", [1, 2, 5]]]
        yield [[2, "box", box], [3, "f", J(P), "copy", [9 + n]]]


def escape(n, depth, pre, mid, at, rule):
    """pre premises, boxes of n lines nested depth deep, mid lines, then a line that uses line `at` of the boxes."""
    row = [0]

    def nxt():
        row[0] += 1
        return row[0]
    lines = []
    for _ in range(pre):
        lines.append([nxt(), "f", J(R), "premise", []])
    inner = []

    def box(d):
        first = nxt()
        out = [[first, "f", J(P), "assumption", []]]
        inner.append(first)
        if d > 1:
            b = box(d - 1)
            out.append([b[0][0], "box", b])
        while len(out) < n:
            k = nxt()
            out.append([k, "f", J(P), "copy", [first]])
            inner.append(k)
        return out
    b = box(depth)
    lines.append([b[0][0], "box", b])
    for _ in range(mid):
        lines.append([nxt(), "f", J((">>", Q, Q)), "premise", []])
    ref = inner[at % len(inner)]
    c = {"copy": P, "or_i1": ("or", P, Q), "dneg_i": ("not", ("not", P)), "and_i": ("and", P, P)}[rule]
    lines.append([nxt(), "f", J(c), rule, [ref, ref] if rule == "and_i" else [ref]])
    return lines


def leak(r, p):
    """Copy a line of some box after the box."""
    p = __import__("copy").deepcopy(p)
    inside = []

    def walk(ls, d):
        for l in ls:
            if l[1] == "box":
                walk(l[2], d + 1)
            elif d and l[1] == "f":
                inside.append((l[0], l[2]))
    walk(p, 0)
    if inside:
        i, t = r.choice(inside)
        p.append([max(l[0] for _, l in all_lines(p)) + 1, "f", t, "copy", [i]])
    return p


def all_lines(p):
    for l in p:
        yield p, l
        if l[1] == "box":
            yield from all_lines(l[2])


def mutate(r, p):
    p = sp.to_json(sp.from_json(p)) if False else __import__("copy").deepcopy(p)
    ls = list(all_lines(p))
    cont, l = r.choice(ls)
    x = r.random()
    if l[1] == "f":
        if x < .25 and l[4]:
            l[4][r.randrange(len(l[4]))] = r.choice(ls)[1][0]
        elif x < .4:
            l[3] = r.choice(PROP_RULES)
        elif x < .6:
            l[2] = r.choice([m[2] for _, m in ls if m[1] == "f"])
        elif x < .75:
            cont.remove(l)
        elif x < .85:
            cont.append(l)
        else:
            l[3] = "assumption"
    elif l[1] == "box":
        if x < .3:
            cont.extend(l[2])
        elif x < .5:
            l[2].reverse()
        elif x < .7 and len(l[2]) > 1:
            l[2].pop()
        else:
            l[2].append(r.choice(ls)[1] if r.choice(ls)[1] is not l else [99, "f", J(P), "assumption", []])
            if any(m is l for _, m in all_lines(l[2])):
                l[2].pop()
    return p


# ---------------------------------------------------------------- C12
def plain(t):
    """The tree is what the constructors return for it (no simplification, no flattening)."""
    try:
        if t[0] == ">>":
            return plain(t[1]) and plain(t[2]) and sp.read(obj(t)) == ("or", sp.read(obj(("not", t[1]))), sp.read(obj(t[2]))) and \
                plain(("not", t[1])) and t[1] != t[2] and sp.read(obj(t[2]))[0] != "or" and sp.read(obj(t[1]))[0] not in ("not", "true", "false")
        if t[0] in ("atom", "true", "false", "pred", "var", "const", "fun"):
            return True
        if not all(plain(a) for a in t[1:] if isinstance(a, tuple)):
            return False
        return sp.read(obj(t)) == (t[0],) + tuple(sp.read(obj(a)) for a in t[1:])
    except Exception:  # noqa
        return False


FO_RULES = ["forall_i", "forall_e", "exists_i", "exists_e"]


def fol_f(r, d, vs, ts):
    """Formula over predicates P/1, R/2, S/0 and the terms ts; binds variables of vs."""
    if d == 0:
        k = r.random()
        if k < .45:
            return ("pred", r.choice("PQ"), r.choice(ts))
        if k < .9:
            return ("pred", "R", r.choice(ts), r.choice(ts))
        return ("pred", "S")
    o = r.choice(["and", "or", ">>", "not", "forall", "exists", "implies", "equiv"])
    if o == "not":
        return ("not", fol_f(r, d - 1, vs, ts))
    if o in ("forall", "exists"):
        v = ("var", r.choice(vs))
        return (o, v, fol_f(r, d - 1, vs, ts + [v, v]))
    return (o, fol_f(r, d - 1, vs, ts), fol_f(r, d - 1, vs, ts))


def rterm(r, d=1):
    k = r.random()
    if k < .4:
        return ("var", r.choice("xyz"))
    if k < .7:
        return ("const", r.choice("cd"))
    return ("fun", "f", rterm(r, d - 1)) if d else ("const", "c")


def free(t, bound=()):
    if t[0] == "var":
        return set() if t[1] in bound else {t[1]}
    if t[0] in ("forall", "exists"):
        return free(t[2], bound + (t[1][1],))
    return set().union(*[free(a, bound) for a in t[1:] if isinstance(a, tuple)]) if len(t) > 1 else set()


def vars_all(t):
    if t[0] == "var":
        return {t[1]}
    return set().union(set(), *[vars_all(a) for a in t[1:] if isinstance(a, tuple)])


def consts(t):
    if t[0] == "const":
        return {t[1]}
    return set().union(set(), *[consts(a) for a in t[1:] if isinstance(a, tuple)])


def substitute(t, x, a):
    """Capture-avoiding instances only: None when a variable of a would be bound."""
    if t[0] == "var":
        return a if t[1] == x else t
    if t[0] in ("forall", "exists"):
        if t[1][1] == x:
            return t
        if x in free(t[2]) and t[1][1] in vars_all(a):
            return None
        b = substitute(t[2], x, a)
        return None if b is None else (t[0], t[1], b)
    out = [t[0]]
    for y in t[1:]:
        if isinstance(y, tuple):
            y = substitute(y, x, a)
            if y is None:
                return None
        out.append(y)
    return tuple(out)


ATOM_FOL = {"p": ("pred", "P", ("const", "c")), "q": ("pred", "Q", ("var", "w")), "r": ("pred", "R", ("var", "w"), ("const", "c")), "s": ("pred", "S"), "n0": ("pred", "N0")}


def lift(t):
    """A propositional tree over predicates instead of atoms."""
    if t[0] == "atom":
        return ATOM_FOL[t[2]]
    if t[0] in ("true", "false"):
        return (t[0], "fol")
    return (t[0],) + tuple(lift(a) for a in t[1:])


def lifted(lines):
    """The same proof over first-order formulas (equal atoms are one object)."""
    return [[l[0], "box", lifted(l[2])] if l[1] == "box" else [l[0], "f", J(lift(U(l[2])))] + l[3:] for l in lines]


class C12:
    @staticmethod
    def embed(r, ctx, concl, rule, refs, depth, quant=False):
        """Put the correct application at the given nesting depth."""
        k = r.choice([10, 10, 300, 5000])
        lines = subst_rows(ctx, k + depth)
        n = [max([m[0] for _, m in all_lines(lines)], default=k + depth) + 1]
        noise = J(("atom", "pl", "n0") if not quant else ("pred", "N0"))

        def junk():
            """Correct lines that have nothing to do with the rule."""
            i = n[0]
            if r.random() < .5:
                n[0] += 2
                return [i, "box", [[i, "f", noise, "assumption", []], [i + 1, "f", noise, "copy", [i]]]]
            n[0] += 3
            return [i, "box", [[i, "f", noise, "assumption", []], [i + 1, "box", [[i + 1, "f", noise, "assumption", []]]], [i + 2, "f", noise, "copy", [i]]]]
        # the formulas of the context come first, at the top; its boxes at levels that do not decrease
        levels = [[] for _ in range(depth + 1)]
        at = 0
        for l in lines:
            if l[1] == "f" and depth:
                levels[0].append(l)
                continue
            if r.random() < .6:
                at = r.randrange(at, depth + 1)
            levels[at].append(l)
        for lv in levels:
            while r.random() < .25:
                lv.insert(r.randrange(len(lv) + 1), junk())
        levels[depth].append([n[0], "f", J(concl), rule, [x + k + depth for x in refs]])
        cur = levels[depth]
        for d in range(depth, 0, -1):
            cur = levels[d - 1] + [[d, "box", [[d, "f", J(R if not quant else ("pred", "S")), "assumption", []]] + cur]]
        return cur

    @staticmethod
    def cases(g, tier):
        for k, c in enumerate(C12.plain_cases(g, tier)):
            yield c
            if k % 2:
                yield {"p": renumber(g.rng, c["p"])}

    @staticmethod
    def plain_cases(g, tier):
        r = g.rng
        for rule in PROP_RULES:
            for depth in (0, 1, 2, 3, 5):
                for k in range(9):
                    c = C12.one(r, rule, depth)
                    if c:
                        yield c if k < 6 else {"p": lifted(c["p"])}
        for rule in FO_RULES:
            for depth in (0, 1, 2, 3):
                for _ in range(12):
                    c = C12.quant(r, rule, depth)
                    if c:
                        yield c
        for depth in [b for b in g.big if b <= 60]:
            for rule in ("copy", "and_i", "impl_i", "MT"):
                c = C12.one(r, rule, depth)
                if c:
                    yield c
        g.phase = 1
        while True:
            rule = r.choice(PROP_RULES + FO_RULES)
            depth = r.choice([0, 0, 1, 2, 4])
            c = C12.one(r, rule, depth) if rule in PROP_RULES else C12.quant(r, rule, depth)
            if c:
                yield {"p": lifted(c["p"])} if rule in PROP_RULES and r.random() < .3 else c

    @staticmethod
    def one(r, rule, depth):
        for _ in range(20):
            ctx, concl, refs = correct_rule(r, rule, r.choice([0, 1, 1, 2]))
            ts = [U(l[2]) for _, l in all_lines(ctx) if l[1] == "f"] + [concl]
            extra = []
            if rule == "MT":
                extra = [("not", ts[0][1]), ("not", ts[0][2])]
            ok = all(plain(t) for t in ts + extra) if rule not in ("dneg_e", "dneg_i") else all(plain(t[1][1] if t[0] == "not" and t[1][0] == "not" else t) for t in ts)
            if not ok or (rule == "premise" and depth) or (rule == "assumption" and depth):
                continue
            return {"p": C12.embed(r, ctx, concl, rule, refs, depth)}
        return None

    @staticmethod
    def quant(r, rule, depth):
        for _ in range(20):
            x = r.choice("xyz")
            phi = fol_f(r, r.choice([0, 1, 2, 3]), ["x", "y", "z"], [("var", x), ("var", x), ("const", "c"), ("var", "w"), ("fun", "f", ("var", x))])
            prem = lambda i, t: [i, "f", J(t), "premise", []]  # noqa
            if not plain(phi):
                continue
            if rule in ("forall_e", "exists_i"):
                a = rterm(r)
                inst = substitute(phi, x, a)
                if inst is None or not plain(inst):
                    continue
                q = ("forall" if rule == "forall_e" else "exists", ("var", x), phi)
                pair = (q, inst) if rule == "forall_e" else (inst, q)
                return {"p": C12.embed(r, [prem(1, pair[0])], pair[1], rule, [1], depth, True)}
            a = r.choice([("var", "a0"), ("const", "k0"), ("var", "b0")])
            inst = substitute(phi, x, a)
            if inst is None or not plain(inst):
                continue
            if rule == "forall_i":
                # from forall x phi, by elimination inside the box, to forall u phi[u]
                u = "u0"
                ren = substitute(phi, x, ("var", u))
                if ren is None or not plain(ren) or substitute(ren, u, a) != inst:
                    continue
                ctx = [prem(1, ("forall", ("var", x), phi)),
                       [2, "box", [[2, "t", J(a)], [3, "f", J(inst), "forall_e", [1]]]]]
                return {"p": C12.embed(r, ctx, ("forall", ("var", u), ren), "forall_i", [2], depth, True)}
            chi = fol_f(r, 1, ["x", "y"], [("const", "c"), ("var", "w")])
            if not plain(chi):
                continue
            ctx = [prem(1, ("exists", ("var", x), phi)), prem(2, chi),
                   [3, "box", [[3, "t", J(a)], [3, "f", J(inst), "assumption", []], [4, "f", J(chi), "copy", [2]]]]]
            if r.random() < .5:
                u = "u0"
                ren = substitute(phi, x, ("var", u))
                if ren is None or not plain(ren) or not plain(("exists", ("var", u), ren)) or substitute(ren, u, a) != inst:
                    continue
                chi = ("exists", ("var", u), ren)
                ctx[2][2][2] = [4, "f", J(chi), "exists_i", [3]]
            return {"p": C12.embed(r, ctx, chi, "exists_e", [1, 3], depth, True)}
        return None

    @staticmethod
    def check(c):
        from pylogics_modalities.deduction.fol import NaturalDeduction as ND
        p = c["p"]
        try:
            pr = to_real(p)
        except Exception as e:  # noqa
            return f"building the proof {show_proof(p)} raises {e!r}"
        try:
            ok = ND.check(pr)
        except Exception as e:  # noqa
            return f"checking the correct proof {show_proof(p)} raises {e!r}"
        if ok is not True:
            return f"rejected, although every line is a correct rule application: {show_proof(p)}"
        return None


def show_proof(p):
    out = []
    for l in p:
        if l[1] == "box":
            out.append(f"[{show_proof(l[2])}]")
        elif l[1] == "f":
            out.append(f"{l[0]}: {sp.show(U(l[2]))} {l[3]}{tuple(l[4])}")
        else:
            out.append(f"{l[0]}: {sp.show(U(l[2]))}")
    return "; ".join(out)


# ---------------------------------------------------------------- C11
class Lazy(dict):
    """A relation or function of many places, decided where it is looked at."""

    def __init__(self, pick):
        super().__init__()
        self.pick = pick

    def __missing__(self, k):
        self[k] = self.pick()
        return self[k]

    def __contains__(self, k):
        return self[k]


def wide(n):
    """Wrong first-order proofs with predicates and functions of n places, n conjuncts, n quantifiers, terms of depth n, after n lines."""
    a, b, x, y, c = ("var", "a"), ("var", "b"), ("var", "x"), ("var", "y"), ("const", "c")
    others = [("var", f"v{i}") for i in range(n - 1)]

    def deep(t):
        for _ in range(min(n, 40)):
            t = ("fun", "f", t)
        return t

    def quants(t):
        for i in range(min(n, 40)):
            t = ("exists" if i % 2 else "forall", ("var", f"q{i}"), t)
        return t
    shapes = [lambda *t: ("pred", "P") + tuple(others) + t, lambda *t: ("pred", "P") + t + tuple(others),
              lambda *t: ("pred", "P", ("fun", "g") + tuple(others) + t), lambda *t: ("pred", "P") + tuple(deep(u) for u in t),
              lambda *t: ("and",) + tuple(("pred", f"Q{i}", v) for i, v in enumerate(others)) + (("pred", "P") + t,) if n > 1 else ("pred", "P") + t,
              lambda *t: quants(("pred", "P") + t), lambda *t: ("not", ("or", ("pred", "S"), quants(("pred", "P") + t)))]
    for w in shapes:
        for pad in (0, n):
            pre = [[1000, "f", J(("pred", "S")), "premise", []]] + [[1000 + i, "f", J(("pred", "S")), "copy", [999 + i]] for i in range(1, pad)]
            pre = pre if pad else []
            f = lambda r, t, *j: [r, "f", J(t), j[0], list(j[1:])]  # noqa
            yield pre + [f(1, w(a), "premise"), [2, "box", [[2, "t", J(a)], f(3, w(a), "copy", 1)]], f(4, ("forall", x, w(x)), "forall_i", 2)]
            yield pre + [f(1, w(b, a), "premise"), [2, "box", [[2, "t", J(a)], f(3, w(b, a), "copy", 1)]], f(4, ("forall", x, w(b, x)), "forall_i", 2)]
            yield pre + [f(1, ("exists", x, w(x)), "premise"), [2, "box", [[2, "t", J(a)], f(2, w(a), "assumption"), f(3, w(a), "copy", 2)]], f(4, w(a), "exists_e", 1, 2)]
            yield pre + [f(1, ("exists", x, w(a, x)), "premise"), [2, "box", [[2, "t", J(a)], f(2, w(a, a), "assumption"), f(3, ("exists", y, w(y, y)), "exists_i", 2)]],
                         f(4, ("exists", y, w(y, y)), "exists_e", 1, 2)]
            yield pre + [f(1, ("forall", x, w(x, x)), "premise"), f(2, w(a, b), "forall_e", 1)]
            yield pre + [f(1, w(a), "premise"), f(2, w(b), "copy", 1)]
            yield pre + [f(1, ("forall", x, w(x, y)), "premise"), f(2, w(a, a), "forall_e", 1)]
            yield pre + [f(1, w(a, b), "premise"), f(2, ("exists", x, w(x, x)), "exists_i", 1)]
            yield pre + [f(1, ("forall", x, ("exists", y, w(x, y))), "premise"), f(2, ("exists", y, w(y, y)), "forall_e", 1)]
            yield pre + [f(1, ("forall", y, w(a, y)), "premise"), f(2, ("exists", x, ("forall", y, w(x, x))), "exists_i", 1)]


class Models:
    """All structures over a one- or two-element domain for the symbols of a proof (sampled when many)."""

    def __init__(self, trees, r):
        self.preds, self.funs, self.names = {}, {}, set()
        for t in trees:
            self.scan(t)
        self.r = r

    def scan(self, t):
        if t[0] == "pred":
            self.preds[(t[1], len(t) - 2)] = 1
        elif t[0] == "fun":
            self.funs[(t[1], len(t) - 2)] = 1
        elif t[0] in ("var", "const"):
            self.names.add(t)
        for a in t[1:]:
            if isinstance(a, tuple):
                self.scan(a)

    def sample(self, n):
        r = self.r
        for k in range(n):
            D = range(r.choice([1, 2, 2, 2, 3]))
            dens = r.choice([.3, .5, .7])
            rel = {p: {a for a in itertools.product(D, repeat=p[1]) if r.random() < dens} if p[1] < 5 else Lazy(lambda: r.random() < dens) for p in self.preds}
            fun = {f: {a: r.choice(D) for a in itertools.product(D, repeat=f[1])} if f[1] < 5 else Lazy(lambda: r.choice(D)) for f in self.funs}
            env = {x: r.choice(D) for x in self.names}
            yield D, rel, fun, env


def term_val(t, m, env):
    if t[0] in ("var", "const"):
        return env[t]
    return m[2][(t[1], len(t) - 2)][tuple(term_val(a, m, env) for a in t[2:])]


def fol_val(t, m, env):
    o = t[0]
    if o == "pred":
        return tuple(term_val(a, m, env) for a in t[2:]) in m[1][(t[1], len(t) - 2)]
    if o == "forall":
        return all(fol_val(t[2], m, {**env, t[1]: d}) for d in m[0])
    if o == "exists":
        return any(fol_val(t[2], m, {**env, t[1]: d}) for d in m[0])
    if o in ("true", "false"):
        return o == "true"
    if o == "not":
        return not fol_val(t[1], m, env)
    if o == "and":
        return all(fol_val(a, m, env) for a in t[1:])
    if o == "or":
        return any(fol_val(a, m, env) for a in t[1:])
    if o == "implies":
        return not all(fol_val(a, m, env) for a in t[1:-1]) or fol_val(t[-1], m, env)
    if o == "equiv":
        v = True
        for a in t[1:]:
            v = v == fol_val(a, m, env)
        return v
    raise ValueError(o)


TXY = [("var", "x"), ("var", "y"), ("const", "c"), ("var", "a")]


class C11:
    BODIES = None

    @staticmethod
    def bodies():
        x, y, a, c = TXY[0], TXY[1], TXY[3], TXY[2]
        at = [("pred", "P", t) for t in (x, y, a, c, ("fun", "f", x), ("fun", "f", a))] + [("pred", "R", s, t) for s, t in
             ((x, y), (y, x), (x, x), (y, y), (x, a), (a, a), (a, x), (c, x), (a, y))]
        return at + [("exists", y, ("pred", "R", x, y)), ("forall", y, ("pred", "R", x, y)), ("exists", y, ("pred", "R", y, y)), ("exists", x, ("pred", "P", x)),
                     ("forall", x, ("pred", "R", x, x)), ("exists", y, ("pred", "R", a, y)), ("not", ("pred", "P", x)), ("not", ("pred", "P", a)),
                     ("and", ("pred", "P", x), ("pred", "Q", x)), ("and", ("pred", "P", a), ("pred", "Q", a)),
                     ("implies", ("pred", "P", x), ("pred", "P", y)), ("equiv", ("pred", "P", x), ("pred", "Q", x)), ("forall", a, ("pred", "R", x, a)),
                     ("implies", ("pred", "P", x), ("forall", y, ("pred", "R", x, y))), ("equiv", ("pred", "P", x), ("exists", a, ("pred", "R", a, x))),
                     ("equiv", ("pred", "P", a), ("pred", "Q", a)), ("not", ("exists", y, ("pred", "R", x, y))), ("pred", "S")]

    @staticmethod
    def cases(g, tier):
        r = g.rng
        bs = C11.bodies()
        vs = [("var", "x"), ("var", "y"), ("var", "a")]
        for b in bs:
            for c in bs:
                for v in vs:
                    yield {"p": [[1, "f", J(("forall", v, b)), "premise", []], [2, "f", J(c), "forall_e", [1]]]}
                    yield {"p": [[1, "f", J(b), "premise", []], [2, "f", J(("exists", v, c)), "exists_i", [1]]]}
        terms = [("var", "a"), ("var", "x"), ("const", "k"), ("fun", "f", ("var", "a")), ("var", "y")]
        for t in terms:
            for b in bs:
                for c in bs:
                    yield {"p": [[1, "f", J(("forall", ("var", "x"), b)), "premise", []],
                                 [2, "box", [[2, "t", J(t)], [3, "f", J(c), "forall_e", [1]]]], [4, "f", J(("forall", ("var", "y"), c)), "forall_i", [2]]]}
                    d = r.choice(bs)
                    v = r.choice(vs)
                    yield {"p": [[1, "f", J(("forall", ("var", "x"), b)), "premise", []],
                                 [2, "box", [[2, "t", J(t)], [3, "f", J(c), "forall_e", [1]]]], [4, "f", J(("forall", v, d)), "forall_i", [2]]]}
                    yield {"p": [[2, "box", [[2, "t", J(t)], [2, "f", J(b), "assumption", []]]], [4, "f", J(("forall", v, c)), "forall_i", [2]]]}
                    yield {"p": [[1, "f", J(b), "premise", []],
                                 [2, "box", [[2, "t", J(t)], [3, "f", J(c), "copy", [1]]]], [4, "f", J(("forall", v, d)), "forall_i", [2]]]}
                    yield {"p": [[1, "f", J(("exists", v, b)), "premise", []],
                                 [2, "box", [[2, "t", J(t)], [2, "f", J(c), "assumption", []]]], [4, "f", J(c), "exists_e", [1, 2]]]}
                    yield {"p": [[1, "f", J(("exists", v, b)), "premise", []],
                                 [2, "box", [[2, "t", J(t)], [2, "f", J(c), "assumption", []], [3, "f", J(("exists", ("var", "y"), d)), "exists_i", [2]]]],
                                 [4, "f", J(("exists", ("var", "y"), d)), "exists_e", [1, 2]]]}
                    yield {"p": [[1, "f", J(("exists", v, b)), "premise", []], [5, "f", J(d), "premise", []],
                                 [2, "box", [[2, "t", J(t)], [2, "f", J(c), "assumption", []], [3, "f", J(d), "copy", [5]]]],
                                 [4, "f", J(d), "exists_e", [1, 2]]]}
        # a row number that is used again: what was derived from the first line is still in scope (in a box)
        A = ("pred", "P", ("var", "a"))
        for k in bs + [("pred", "S", ("const", "c"))]:
            for again in (1, 5):
                for deep in (False, True):
                    q = [[2, "box", [[2, "f", J(k), "assumption", []], [3, "f", J(A), "copy", [1]]]], [again, "f", J(k), "assumption" if not deep else "copy", [] if not deep else [6]],
                         [4, "box", [[4, "t", J(("var", "a"))], [7, "f", J((">>", k, A)), "impl_i", [2]]]],
                         [8, "f", J(("forall", ("var", "x"), (">>", k, ("pred", "P", ("var", "x"))))), "forall_i", [4]]]
                    pre = [[1, "f", J(A), "premise", []]]
                    if deep:
                        pre.append([6, "f", J(k), "premise", []])
                        q = [[10, "box", [[10, "f", J(k), "assumption", []]] + q], [11, "f", J((">>", k, q[-1][2])), "impl_i", [10]]]
                    yield {"p": pre + q}
        for n in [b for b in g.big if b <= 130]:
            for p in wide(n):
                yield {"p": p}
        g.phase = 1
        while True:
            if r.random() < .15:
                p = random_proof(r)
                yield {"p": lifted(p)}
                yield {"p": lifted(mutate(r, p))}
            p = C11.rnd(r)
            yield {"p": p}
            if r.random() < .1:
                ls = list(all_lines(p))
                if len(ls) > 1:
                    q = __import__("copy").deepcopy(p)
                    ls = [l for _, l in all_lines(q)]
                    r.choice(ls)[0] = r.choice(ls)[0]
                    yield {"p": q}

    @staticmethod
    def rnd(r):
        x = r.choice("xya")
        t = r.choice([("var", "a"), ("var", "x"), ("const", "k"), ("var", "y"), ("fun", "f", ("var", "a"))])
        tt = [("var", x), ("var", x), ("var", r.choice("xya")), ("const", "c"), t]
        b = fol_f(r, r.choice([0, 1, 2]), ["x", "y", "a"], tt)
        rule = r.choice(FO_RULES)

        def near(t0):
            """an instance, perhaps a wrong one"""
            y = C11.naive(t0, x, r.choice([t, t, ("var", "y"), ("const", "c"), ("fun", "f", ("var", "y"))]), r)
            return y
        c = near(b)
        if rule == "forall_e":
            p = [[1, "f", J(("forall", ("var", x), b)), "premise", []], [2, "f", J(c), rule, [1]]]
            if r.random() < .3:
                p += [[3, "f", J(("exists", ("var", r.choice("xya")), near(c))), "exists_i", [2]]]
            return p
        if rule == "exists_i":
            return [[1, "f", J(c), "premise", []], [2, "f", J(("exists", ("var", x), b)), rule, [1]]]
        v = ("var", r.choice(["u", "x", "y", x]))
        d = C11.naive(c, t[1], v, r) if t[0] in ("var", "const") else c
        if rule == "forall_i":
            ctx = [[1, "f", J(("forall", ("var", x), b)), "premise", []]]
            if r.random() < .4:
                ctx.append([9, "f", J(fol_f(r, 1, ["x", "y"], tt)), r.choice(["premise", "assumption"]), []])
            inner = [[2, "t", J(t)], [3, "f", J(c), "forall_e", [1]]]
            if r.random() < .2:
                inner.insert(1, [7, "f", J(c), "assumption", []])
            if r.random() < .2:
                inner[-1] = [3, "f", J(U(ctx[-1][2])), "copy", [ctx[-1][0]]]
                d = C11.naive(U(ctx[-1][2]), t[1] if t[0] != "fun" else x, v, r)
            lines = ctx + [[2, "box", inner], [4, "f", J(("forall", v, d)), "forall_i", [2]]]
        else:
            chi = r.choice([c, fol_f(r, 1, ["x", "y"], tt), ("exists", v, d)])
            inner = [[2, "t", J(t)], [2, "f", J(c), "assumption", []]]
            pre = [[1, "f", J(("exists", ("var", x), b)), "premise", []]]
            if chi[0] == "exists":
                inner.append([3, "f", J(chi), "exists_i", [2]])
            elif chi != c:
                pre.append([9, "f", J(chi), "premise", []])
                inner.append([3, "f", J(chi), "copy", [9]])
            lines = pre + [[2, "box", inner], [4, "f", J(chi), "exists_e", [1, 2]]]
        if r.random() < .25:
            s = ("pred", "P", t)
            k = 30
            lines = [[20, "box", [[20, "f", J(s), "assumption", []]] + [l for l in lines if l[3:4] != ["premise"]]]]+[] if r.random() < .5 else lines
            pre2 = []
        return lines

    @staticmethod
    def naive(t, x, a, r):
        """Replace (name) x by a, sometimes only some occurrences, sometimes under binders too."""
        if t[0] in ("var", "const"):
            return a if t[1] == x and r.random() < .93 else t
        if t[0] in ("forall", "exists"):
            if t[1][1] == x and r.random() < .9:
                return t
            return (t[0], t[1], C11.naive(t[2], x, a, r))
        return tuple(C11.naive(y, x, a, r) if isinstance(y, tuple) else y for y in t)

    @staticmethod
    def check(c):
        p = c["p"]
        try:
            fix_rows(p)
            if not accepted(p):
                return None
            hyp, todo, trees = [], [], []
            for l in p:
                if l[1] == "f":
                    t = tree(l[2])
                    trees.append(t)
                    if l[3] in ("premise", "assumption"):
                        hyp.append(t)
                    todo.append((l, t, list(hyp)))
        except (KeyError, IndexError, sp.ReadError, AttributeError):
            return None
        kinds = {}
        ms = Models(trees, random.Random(5))
        for k, n in ms.names:
            if kinds.setdefault(n, k) != k:
                return None
        for m in ms.sample(120):
            env = m[3]
            vals = {}
            for l, t, h in todo:
                if all(fol_val(x, m, env) for x in h) and not fol_val(t, m, env):
                    return (f"accepted: {show_proof(p)}; but line {l[0]} fails where the lines before it that are premises or assumptions hold: "
                            f"domain {list(m[0])}, relations {m[1]}, functions {m[2]}, values {env}")
        return None


ALL = {"C10": C10, "C11": C11, "C12": C12}
