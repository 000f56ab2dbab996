"""C06-C09: texts (printing, parsing, atom names)."""
import re
from lark import Tree, Token
from .verify import *  # noqa: F401,F403
from .verify import I, z3, TT, accessors, name_attr, raises, atom_name, real_objects, Run
from .p_cons import hash_consing, make_boolean_c, HC, B, op_segs
from .loops import PI
from . import core, rx, lr
from .lr import G, Hole, Name, Stuck, NAME, TOKENS, KEYWORDS, LOGICS, bare, shape
from .p_eq import SETS
from pylogics_modalities.utils.to_string import to_string

TXT = z3.Function("txt", F, Str)
BOOLC = [B.And, B.Or, B.Not, B.Implies, B.Equivalence]
KINDS = {
    "pl": (Logic.PL, BOOLC + [PL.Atomic, B.TrueFormula, B.FalseFormula]),
    "ltl": (Logic.LTL, BOOLC + [c for c in CLASSES if FIXED_LG.get(c) is Logic.LTL] + [B.TrueFormula, B.FalseFormula]),
    "pltl": (Logic.PLTL, BOOLC + [c for c in CLASSES if FIXED_LG.get(c) is Logic.PLTL] + [B.TrueFormula, B.FalseFormula]),
    "ldl": (Logic.LDL, BOOLC + [c for c in CLASSES if FIXED_LG.get(c) is Logic.LDL] + [B.TrueFormula, B.FalseFormula]),
    "re": (Logic.RE, [c for c in CLASSES if FIXED_LG.get(c) is Logic.RE and c is not LDL.Prop]),
    "re:prop": (Logic.RE, [LDL.Prop]),
}
# the kind of the parts of a class (None: the kind of the formula itself)
PART_KIND = {LDL.Prop: "pl", LDL.Test: "ldl"}


def kind_of_part(c, kind, i=0):
    if c in MODAL:
        return ("RE", "ldl")[i]
    if c in PART_KIND:
        return PART_KIND[c]
    return "RE" if kind in ("re", "re:prop") else kind


def expand_kinds(kinds):
    return [k2 for k in kinds for k2 in (("re", "re:prop") if k == "RE" else (k,))]


def where(c):
    return c.__module__.rsplit(".", 1)[1] + "." + c.__name__


# ------------------------------------------------------------------ printing
def the_formula(it, c, kind, x):
    """Assumptions on a formula of a class and kind: its parts belong to the logics that the constructors enforce (C13), and
    boolean connectives are normalised (C03)."""
    run = it.run
    lg = KINDS[kind][0]
    run.assume(z3.And(kcls(key(x)) == CC[c], klg(key(x)) == LC[lg]))
    s = ops(x)
    if c in NARY:
        run.sterm[s.get_id()] = s
        run.assume(slen(s) >= 2)
        run.assume(All(klg(key(GE)) == LC[lg], s))
        if c in (B.And, B.Or):
            run.assume(All(z3.Not(in_cls(key(GE), [c, B.TrueFormula, B.FalseFormula])), s))
            run.assume(z3.And(core.dist(s), core.cfree(s)))
        if c is B.Equivalence:
            run.assume(core.dist(s))
    elif c in UNARY:
        sub = {LDL.Prop: Logic.PL, LDL.Test: Logic.LDL}.get(c, lg)
        run.assume(klg(key(arg(x))) == LC[sub])
        if c is B.Not:
            run.assume(z3.Not(in_cls(key(arg(x)), [B.Not, B.TrueFormula, B.FalseFormula])))
            run.assume(core.negk(key(arg(x))) == key(x))
    elif c in MODAL:
        run.assume(z3.And(klg(key(part[0](x))) == LC[Logic.RE], klg(key(part[1](x))) == LC[Logic.LDL]))


def printer(it, x):
    """to_string: the real function on x, its contract (the text of the part) on proper parts."""
    accessors(it)
    name_attr(it)
    real_objects(it, ())
    it.strict_str = True
    first = [True]

    def rec(i, a, k):
        if first:
            first.pop()
            return i.call(to_string, a, k, bypass=True)
        t = i.formula_term(a[0])
        if t is None:
            raise Unsupported("to_string of something that is not a formula")
        return SStr([TXT(t)])
    it.contracts[to_string] = rec
    return it.call(to_string, [SF(x)])


def template(it, c, kind, x, r):
    """Pieces of a printed text; a join over the operands becomes ("join", separator, prefix, suffix)."""
    if isinstance(r, str):
        return (r,)
    if not isinstance(r, SStr):
        raise Unsupported("to_string does not return a string")
    out = []
    for p in r.parts:
        if isinstance(p, str):
            out.append(p)
        elif isinstance(p, I.Opq) and p.tag == "join":
            segs = p.data["segs"]
            if len(r.parts) != 1 or len(segs) != 1 or segs[0][0] != "c" or not segs[0][1].eq(ops(x)) or segs[0][2] or not z3.is_true(TT(segs[0][3])):
                raise Unsupported("join over something else than the operands in order")
            v = segs[0][4]
            if not isinstance(v, SStr) or len([q for q in v.parts if not isinstance(q, str)]) != 1 or not isinstance(p.data["sep"], str):
                raise Unsupported("text of an operand")
            k = [i for i, q in enumerate(v.parts) if not isinstance(q, str)][0]
            if not (z3.is_expr(v.parts[k]) and v.parts[k].eq(TXT(GE))):
                raise Unsupported("text of an operand")
            return (("join", p.data["sep"], "".join(v.parts[:k]), "".join(v.parts[k + 1:])),)
        elif z3.is_expr(p) and p.eq(kname(key(x))):
            out.append(("name",))
        elif z3.is_expr(p) and p.eq(TXT(arg(x))):
            out.append(("hole", 0))
        elif z3.is_expr(p) and any(p.eq(TXT(part[j](x))) for j in (0, 1)):
            out.append(("hole", [j for j in (0, 1) if p.eq(TXT(part[j](x)))][0]))
        else:
            raise Unsupported(f"piece {p!r} of a text")
    return tuple(out)


def printed(c, kind):
    """Template of the text of a formula of a class and kind (the same on every path)."""
    run = Run(mode=("wf",), timeout=4000)
    run.deadline = (time.process_time() + 60, time.time() + 10 * 60)
    used = set()

    def thunk():
        it = Interp(run)
        x = z3.Const("x", F)
        the_formula(it, c, kind, x)
        try:
            return template(it, c, kind, x, printer(it, x))
        finally:
            used.update(it.used)
    res = run.explore(thunk)
    vals = {v for k, v, *_ in res if k == "ok"}
    if len(vals) != 1 or any(k != "ok" for k, *_ in res):
        raise Unsupported(f"{len(vals)} texts, {[str(v) for k, v, *_ in res if k != 'ok'][:2]}")
    return vals.pop(), used


# ------------------------------------------------------------------ parsing templates
class Claims:
    """For a parser: at which nonterminal the text of a formula of a kind ends, in every state where one is met.

    The claim of (state, kind) is found on the smallest texts of the kind and then checked for every class of the kind."""

    BASE = {"pl": PL.Atomic, "ltl": LTL.Atomic, "pltl": PLTL.Atomic, "ldl": B.TrueFormula, "re": LDL.Test, "re:prop": LDL.Prop}

    def __init__(self, g, templates):
        self.g, self.t = g, templates
        self.n = {}
        self.todo = []

    def lookahead(self, q):
        return "$END" if q == self.g.start else "RIGHT_PARENTHESIS"

    def claim(self, q, kind):
        k = (q, kind)
        if k not in self.n:
            self.n[k] = None
            self.todo.append(k)
            c = self.BASE[kind]
            pcs = list(self.pieces(c, kind, 2))[0]
            st, _ = self.g.run(q, pcs, self.lookahead(q), self.claim)
            if len(st) != 1:
                raise Stuck(f"{kind} in state {q}: the text is not one phrase")
            self.n[k] = st[0][1]
        if self.n[k] is None:
            raise Unsupported("claims that depend on each other")
        return self.n[k]

    def pieces(self, c, kind, n):
        """The texts of a class with n operands, for every choice of kinds of the parts."""
        t = self.t[(c, kind)]
        if isinstance(t[0], tuple) and t[0][0] == "join":
            _, sep, pre, suf = t[0]
            ks = expand_kinds([kind_of_part(c, kind)])
            for combo in itertools.product(ks, repeat=n):
                out = []
                for i, k in enumerate(combo):
                    out += [sep + pre if i else pre, Hole(k, i), suf]
                yield glue(out)
            return
        holes = [p for p in t if isinstance(p, tuple) and p[0] == "hole"]
        opts = [expand_kinds([kind_of_part(c, kind, h[1])]) for h in holes]
        for combo in itertools.product(*opts):
            it = iter(combo)
            yield glue([p if isinstance(p, str) else Name() if p[0] == "name" else Hole(next(it), p[1]) for p in t])


def glue(ps):
    out = []
    for p in ps:
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        elif p != "":
            out.append(p)
    return out


def is_join(t):
    return isinstance(t[0], tuple) and t[0][0] == "join"


# ------------------------------------------------------------------ values
def text_env(it):
    accessors(it)
    it.contracts[HC] = hash_consing
    it.contracts[B.make_boolean] = make_boolean_c
    it.attrs["__invert__"] = lambda i, x, *a: SF(core.negf(x.t))
    it.contracts[B.AtomName] = atom_name
    it.strict_str = True
    return it


def value(it, g, v, hole):
    """Value of a tree: lark's Transformer, bottom up, with the real callbacks of the transformer object."""
    if isinstance(v, Hole):
        return hole(v)
    if isinstance(v, Name):
        return SStr([hole(v)], Token)
    if isinstance(v, Token):
        f = callback(g, v.type)
        if f is not None:
            raise Unsupported("a callback on tokens")
        return SStr([I.Opq("token " + v.type)], Token)
    if not isinstance(v, Tree):
        raise Unsupported(f"parse value {v!r}")
    args = [value(it, g, c, hole) for c in v.children]
    return apply_rule(it, g, v.data, args)


def callback(g, name):
    try:
        f = getattr(g.transformer, str(name))
    except AttributeError:
        return None
    if hasattr(f, "visit_wrapper"):
        raise Unsupported("visit wrapper")
    return f


def apply_rule(it, g, name, args):
    f = callback(g, name)
    if f is None:
        return I.Opq("tree " + str(name))
    return it.call(f, [args if isinstance(args, I.Opq) else it.new_list([("e", a) for a in args])])


def interleaved(it, vals, sep):
    """The children [v0, op, v1, op, ...] of a chain: vals are the segments of the operands."""
    n = it.run.len_segs(list(vals))

    def length(i):
        t = z3.simplify(2 * n - 1)
        return t.as_long() if z3.is_int_value(t) else SI(t)

    def take(i, lo, hi, st):
        if (lo in (None, 0)) and hi is None and st == 2:
            return i.new_list(list(vals))
        if lo == 1 and hi is None and st == 2:
            return I.Opq("the operator tokens")
        raise Unsupported("slice of the children")

    def get(i, k):
        if isinstance(k, int) and k % 2 == 0 and k >= 0:
            return i.index(list(vals), k // 2)
        if k == -1:
            return i.index(list(vals), -1)
        raise Unsupported("child")
    return I.Opq("children", {"cls": list, "len": length, "slice": take, "getitem": get})


def equals(it, r, x, c, lg):
    """Clauses: the value r is a formula equal to x (of class c and logic lg)."""
    run = it.run
    if isinstance(r, SF):
        return [("is the formula", key(r.t) == key(x))]
    if not isinstance(r, I.Ref) or it.obj(r).kind != "inst":
        return [("is a formula", False, f"{r!r}")]
    o = it.obj(r)
    if o.cls is not c:
        return [("has the connective of the formula", False, f"{o.cls.__name__} instead of {c.__name__}")]
    out = [("belongs to the logic", it.logic_term(it.getattr(r, "logic")) == LC[lg])]
    if c in NARY:
        segs = op_segs(it, r)
        if c in SETS and c is not LDL.Union:
            return out + [("has the operands of the formula", run.all_segs(lambda v: core.inst(PI, v), segs) == All(PI, ops(x)))]
        eq = it.seq_eq(it.segs_of(it.getattr(r, "operands")), [run.seg(ops(x))])
        return out + [("has the operands of the formula, in order", eq if isinstance(eq, bool) else eq.t)]
    if c in UNARY:
        return out + [("has the argument of the formula", same(it, it.getattr(r, "argument"), arg(x)))]
    if c in MODAL:
        for p, f in (("regular_expression", part[0]), ("tail_formula", part[1])):
            out.append((f"has the {p} of the formula", same(it, it.getattr(r, p), f(x))))
        return out
    if c in ATOMS:
        n = it.getattr(r, "name")
        return out + [("has the name of the atom", isinstance(n, SStr) and len(n.parts) == 1 and z3.is_expr(n.parts[0]) and n.parts[0].eq(kname(key(x))), f"{n!r}")]
    return out


import itertools  # noqa: E402
import time  # noqa: E402


def roundtrip(V_, parsers, only=None):
    """Induction on formulas: in every state in which the text of a formula is read, the parser ends the text with one
    phrase whose value is equal to the formula."""
    kinds_of = {"pl": ["pl"], "ltl": ["ltl"], "pltl": ["pltl"], "ldl": ["ldl", "re", "re:prop", "pl"]}
    templates = {}
    done = set()
    for logic in parsers:
        for kind in kinds_of[logic]:
            if kind in done:
                continue
            done.add(kind)
            for c in KINDS[kind][1]:
                t0 = time.time()
                try:
                    templates[(c, kind)], used = printed(c, kind)
                    if only is not None and c not in only:
                        continue
                    V_.used |= used
                    V_.fact(f"text of {where(c)} ({kind})", "utils.to_string:to_string/" + where(c), True, seconds=round(time.time() - t0, 2))
                except Unsupported as e:
                    if only is not None and c not in only:
                        continue
                    V_.fact(f"text of {where(c)} ({kind})", "utils.to_string:to_string/" + where(c), False, str(e), undecided=True)
    for logic in parsers:
        try:
            g = G(logic)
        except (Unsupported, AttributeError, KeyError) as e:
            V_.fact(f"parser of {logic}", f"parsers.{logic}", False, str(e), undecided=True)
            continue
        missing = [c for kind in kinds_of[logic] for c in KINDS[kind][1] if (c, kind) not in templates and (only is None or c in only)]
        if missing:
            V_.fact(f"parsing the texts of {logic}", f"parsers.{logic}", False, f"no text for {missing}", undecided=True)
            continue
        parse_texts(V_, g, templates, logic, only)


def parse_texts(V_, g, templates, logic, only):
    cl = Claims(g, templates)
    fn = f"parsers.{logic}:_{logic.upper()}Transformer"
    g.guards = {}
    try:
        cl.claim(g.start, logic)
    except (Stuck, Unsupported) as e:
        V_.fact(f"{logic}: texts are read as one phrase", fn, False, str(e), undecided=True)
        return
    trees = {}      # (class, kind, nonterminal, shape) -> tree
    ctx = {}
    while cl.todo:
        q, kind = cl.todo.pop(0)
        lg, classes = KINDS[kind]
        mine = [c for c in classes if only is None or c in only]
        k = ctx[kind] = ctx.get(kind, 0) + 1
        t0 = time.time()
        bad, und = [], []
        for c in classes:
            if c not in mine:
                # (only to find the contexts of the atoms)
                try:
                    if (c, kind) in templates:
                        texts_in(cl, g, q, c, kind)
                except (Stuck, Unsupported):
                    pass
                continue
            try:
                sts = texts_in(cl, g, q, c, kind)
                if any(len(st) != 1 or st[0][1] != cl.n[(q, kind)] for st, _ in sts):
                    und.append(f"{where(c)}: the text ends as another phrase")
                for st, _ in sts:
                    tree = st[0][2]
                    # (the same tree in several states is decided once)
                    trees.setdefault((c, kind, cl.n[(q, kind)], shape(tree)), tree)
                    if kind == "re:prop":
                        guard_value(g, cl.n[(q, kind)], tree)
            except Stuck as e:
                bad.append(f"the text of {where(c)} is rejected: {e}")
            except Unsupported as e:
                und.append(f"{where(c)}: {e}")
        if not mine:
            continue
        V_.fact(f"{logic}: a text of kind {kind} in its context {k}, for {'every class' if only is None else 'every atom'}, is accepted as one phrase ({cl.n[(q, kind)]})", fn, not bad and not und,
                "; ".join(bad or und)[:600], undecided=not bad, seconds=round(time.time() - t0, 2))
    for i, q in enumerate(g.name_states if only is None else ()):
        nm = f"{logic}: every name that is not reserved is read as one name, before a bracket and at the end [context {i + 1}]"
        t0 = time.time()
        try:
            ok, w = g.reads_names(q)
            V_.fact(nm, f"parsers.{logic}:lexer", ok, f"not {w!r}", seconds=round(time.time() - t0, 2))
        except Unsupported as e:
            V_.fact(nm, f"parsers.{logic}:lexer", False, str(e), undecided=True)
    count = {}
    for (c, kind, n, sh), tree in trees.items():
        k = count[(c, kind, n)] = count.get((c, kind, n), 0) + 1
        V_.oblige(f"{logic}: the text of {where(c)} ({kind}, read as {n}, tree {k}) gives the formula", fn,
                  lambda it, c=c, kind=kind, n=n, tree=tree: value_of(it, g, c, kind, n, tree), mode=("wf",))


BOOL_CALLS = {B.And: B._MonotoneBinaryOp.__call__, B.Or: B._MonotoneBinaryOp.__call__, B.Implies: B._MetaImpliesOp.__call__, B.Equivalence: B._MetaEquivalenceOp.__call__}


def rebuild_contract(c, x):
    """Contract of the call And/Or/Implies/Equivalence(*operands of x) for a formula x of that class: x (rebuild lemma)."""
    def h(i, a, k):
        segs = None
        if len(a) == 2 and not k and isinstance(a[1], tuple) and a[1][0] == "*segs":
            segs = [g for g in a[1][1]]
        if segs is not None and len(segs) == 1 and i._same_seg(segs[0], i.run.seg(ops(x))):
            if a[0] is c:
                return SF(x)
            if a[0] in BOOL_CALLS:
                raise Refuted(f"{a[0].__name__} is made instead of {c.__name__}")
        return i.call_live(type(a[0]).__call__, list(a), k)
    return h


class Refuted(Exception):
    pass


CONSTS = [B.TrueFormula, B.FalseFormula]
IN = z3.Function("in_operands", K, BOOL)
ANY = z3.Function("any_pred", K, BOOL)(key(GE))


def rebuild(V_):
    """The constructors, called on the operands of a formula that they returned, give that formula again."""
    for c in (B.And, B.Or):
        for what in ("constant", "operands"):
            def body(it, c=c, what=what):
                run = it.run
                text_env(it)
                x = run.fresh(F, "x")
                lg = run.fresh(Lg, "lg")
                run.assume(z3.And(kcls(key(x)) == CC[c], klg(key(x)) == lg))
                s = ops(x)
                run.sterm[s.get_id()] = s
                run.assume(slen(s) >= 2)
                run.assume(All(klg(key(GE)) == lg, s))
                run.assume(lg != LC[Logic.RE])
                other = z3.Not(in_cls(key(GE), [c, B.TrueFormula, B.FalseFormula]))
                inn, noneg = IN(key(GE)), z3.Not(IN(core.negk(key(GE))))
                it.pool = [other, inn, noneg]
                # IN: membership up to equality; no operand is the negation of another one (C03)
                for p in it.pool:
                    run.assume(All(p, s))
                it.base_pool = []
                if what == "operands":
                    it.pool.append(ANY)
                r = it.call(c, [("*segs", [run.seg(s)])])
                isnew = not isinstance(r, SF)
                if what == "constant":
                    return [("no constant", it.obj(r).cls is c if isnew else z3.Not(in_cls(key(r.t), CONSTS)))]
                # (a single operand: every operand equals it, which contradicts that they are different)
                if isnew:
                    return [("has the operands", run.all_segs(lambda v: core.inst(ANY, v), op_segs(it, r)) == All(ANY, s))]
                return [("has the operands", z3.Or(in_cls(key(r.t), CONSTS), core.inst(ANY, r.t) == All(ANY, s)))]
            V_.oblige(f"rebuild {c.__name__}: {what}", "syntax.base:_MonotoneBinaryOp.__call__/" + c.__name__, body, mode=("wf",), seconds=200)

    def implies(it):
        run = it.run
        text_env(it)
        x = run.fresh(F, "x")
        lg = run.fresh(Lg, "lg")
        run.assume(z3.And(kcls(key(x)) == CC[B.Implies], klg(key(x)) == lg, lg != LC[Logic.RE]))
        s = ops(x)
        run.sterm[s.get_id()] = s
        run.assume(slen(s) >= 2)
        run.assume(All(klg(key(GE)) == lg, s))
        notfalse = lambda e: key(e) != core.kconst(CC[B.FalseFormula], lg)
        it.pool = [notfalse(GE)]
        init = it.slice([run.seg(s)], None, -1, None)
        run.assume(run.all_segs(notfalse, it.zsegs(init)))
        r = it.call(B.Implies, [("*segs", [run.seg(s)])])
        if isinstance(r, SF):
            return [("does not collapse", False)]
        if it.obj(r).cls is not B.Implies:
            return [("does not collapse", False)]
        got = it.expand(list(it.segs_of(it.getattr(r, "operands"))))
        want = it.expand([run.seg(s)])
        out = [("the operands are kept, in order", len(got) == len(want) and all(it._same_seg(a, b) for a, b in zip(got, want)))]
        return out
    V_.oblige("rebuild Implies", "syntax.base:_MetaImpliesOp.__call__", implies, mode=("wf",))

    def normal(it):
        """No operand of an implication before the last one is the false constant of its logic."""
        run = it.run
        text_env(it)
        it.base_pool = []
        lg = run.fresh(Lg, "lg")
        run.assume(lg != LC[Logic.RE])
        s = run.fresh(S, "s")
        run.sterm[s.get_id()] = s
        run.assume(slen(s) >= 2)
        run.assume(All(klg(key(GE)) == lg, s))
        false = core.kconst(CC[B.FalseFormula], lg)
        it.pool = [key(GE) != false]
        r = it.call(B.Implies, [("*segs", [run.seg(s)])])
        if isinstance(r, SF) or it.obj(r).cls is not B.Implies:
            return [("normalised", True)]
        init = it.slice(it.expand(list(it.segs_of(it.getattr(r, "operands")))), None, -1, None)
        return [("normalised", run.all_segs(lambda e: key(e) != false, it.zsegs(init)))]
    V_.oblige("implications are normalised", "syntax.base:_MetaImpliesOp.__call__", normal, mode=("wf",))

    def equivalence(it):
        run = it.run
        text_env(it)
        it.base_pool = [PI]
        x = run.fresh(F, "x")
        lg = run.fresh(Lg, "lg")
        run.assume(z3.And(kcls(key(x)) == CC[B.Equivalence], klg(key(x)) == lg, lg != LC[Logic.RE]))
        s = ops(x)
        run.sterm[s.get_id()] = s
        run.assume(slen(s) >= 2)
        run.assume(All(klg(key(GE)) == lg, s))
        run.assume(core.dist(s))
        r = it.call(B.Equivalence, [("*segs", [run.seg(s)])])
        if isinstance(r, SF) or it.obj(r).cls is not B.Equivalence:
            return [("does not collapse", False)]
        return [("has the operands", run.all_segs(lambda v: core.inst(PI, v), op_segs(it, r)) == All(PI, s))]
    V_.oblige("rebuild Equivalence", "syntax.base:_MetaEquivalenceOp.__call__", equivalence, mode=("wf",))


def texts_in(cl, g, q, c, kind):
    """Final stacks of the texts of a class; for chains, the induction on the number of operands."""
    la = cl.lookahead(q)
    if not is_join(cl.t[(c, kind)]):
        return [(g.run(q, p, la, cl.claim)[0], p) for p in cl.pieces(c, kind, 0)]
    stacks, ends, trees = None, set(), []
    out = []
    for n in (2, 3, 4):
        for p in cl.pieces(c, kind, n):
            st, trace = g.run(q, p, la, cl.claim)
            if len(st) != 1:
                raise Unsupported("a chain that is not one phrase")
            # the stacks when an operator between operands is shifted: from the second one on they are the same
            sep = [t for t in trace if t[2] not in ("LEFT_PARENTHESIS", "RIGHT_PARENTHESIS")]
            if len(sep) != n - 1 or len({t[2] for t in sep}) != 1:
                raise Unsupported("a chain with other tokens")
            later = {t[0] for t in sep[1:]}
            if stacks is None:
                stacks = (sep[0][0], None)
            if sep[0][0] != stacks[0] or len(later) > 1:
                raise Unsupported("a chain without a common state")
            if later:
                if stacks[1] is None:
                    stacks = (stacks[0], later)
                if later != stacks[1]:
                    raise Unsupported("a chain without a common state")
            # the states just before the operator that ends the chain differ only through the number of operands: the end is reached from
            # the stack after an operator and one operand, which is the same for all n >= 3
            tree = st[0][2]
            wraps, core_, kids = unwrap(tree, n)
            out.append((st, (wraps, core_, tuple(shape(k, lambda h: h.kind) for k in kids[::2]), tuple(k.type for k in kids[1::2]))))
            trees.append((wraps, core_))
    if len(set(trees)) != 1:
        raise Unsupported("chains of different lengths are read differently")
    # only the two-operand trees are evaluated, with a chain of any length in the place of the operands
    return [o for o in out if len(o[1][2]) == 2]


def unwrap(tree, n):
    """Rules above the chain, the rule of the chain, its 2n-1 children."""
    wraps = []
    while isinstance(tree, Tree) and len(tree.children) != 2 * n - 1:
        if len(tree.children) != 1:
            raise Unsupported("a chain inside another phrase")
        wraps.append(str(tree.data))
        tree = tree.children[0]
    if not isinstance(tree, Tree) or any(not isinstance(t, Token) for t in tree.children[1::2]) or any(isinstance(t, Token) for t in tree.children[::2]):
        raise Unsupported("a chain that is not operand, operator, operand, ...")
    order = [h for k in tree.children[::2] for h in holes(k)]
    if [h.term for h in order] != list(range(n)):
        return tuple(wraps), ("order", str(tree.data)), tree.children
    return tuple(wraps), str(tree.data), tree.children


def holes(t):
    if isinstance(t, Hole):
        return [t]
    if isinstance(t, Tree):
        return [h for c in t.children for h in holes(c)]
    return []


def value_of(it, g, c, kind, n, tree):
    """The value of the tree of a text is the formula."""
    text_env(it)
    run = it.run
    x = run.fresh(F, "x")
    lg = KINDS[kind][0]
    the_formula(it, c, kind, x)
    if c in BOOL_CALLS:
        for f in set(BOOL_CALLS.values()):
            it.contracts[f] = rebuild_contract(c, x)
    try:
        return _value_of(it, g, c, kind, n, tree, x, lg)
    except Refuted as e:
        return [("has the connective of the formula", False, str(e))]


def _value_of(it, g, c, kind, n, tree, x, lg):
    run = it.run

    def ih(h, t):
        """Value of the phrase of a part: equal to the part (the argument of the part, for a guard read as a proposition)."""
        if h.kind == "re:prop" and not reads_regex(g, h.n):
            run.assume(kcls(key(t)) == CC[LDL.Prop])
            run.assume(klg(key(arg(t))) == LC[Logic.PL])
            return SF(arg(t))
        return SF(t)
    if c in NARY:
        wraps, data, kids = unwrap(tree, 2)
        out = []
        if isinstance(data, tuple):
            return [("the operands are read in textual order", False)]
        for k in kids[::2]:
            e = run.fresh(F, "operand")
            run.assume(klg(key(e)) == LC[lg])
            for h in holes(k):
                if h.kind == "re:prop":
                    run.assume(kcls(key(e)) == CC[LDL.Prop])
                    run.assume(klg(key(arg(e))) == LC[Logic.PL])
            r = value(it, g, k, lambda h, e=e: ih(h, e))
            t = it.formula_term(r)
            if t is None:
                return [("an operand is read as a formula", False, f"{r!r}")]
            out.append(("an operand is read as itself", same(it, r, e)))
        r = apply_rule(it, g, data, interleaved(it, [run.seg(ops(x))], None))
        for w in reversed(wraps):
            r = apply_rule(it, g, w, [r])
    else:
        out = []

        def hole(h):
            if isinstance(h, Name):
                return kname(key(x))
            return ih(h, arg(x) if c in UNARY else part[h.term](x))
        r = value(it, g, tree, hole)
    if kind == "re:prop" and not reads_regex(g, n):
        return out + [("is the guard", isinstance(r, SF) and key(r.t) == key(arg(x)))]
    return out + equals(it, r, x, c, lg)


def reads_regex(g, n):
    """Is the value of a guard that is reduced to the nonterminal n the regular expression (or the proposition in it)?"""
    if n not in g.guards:
        raise Unsupported(f"no value of guards read as {n}")
    return g.guards[n]


def guard_value(g, n, tree):
    """What a guard read as n gives: the real callbacks on its tree."""
    run = Run(mode=("wf",), timeout=4000)
    run.deadline = (time.process_time() + 30, time.time() + 10 * 30)

    def thunk():
        it = text_env(Interp(run))
        x = run.fresh(F, "x")
        the_formula(it, LDL.Prop, "re:prop", x)
        r = value(it, g, tree, lambda h: SF(arg(x)))
        return isinstance(r, I.Ref) and it.obj(r).cls is LDL.Prop
    vals = {v for k, v, *_ in run.explore(thunk) if k == "ok"}
    if len(vals) != 1:
        raise Unsupported("value of a guard")
    v = vals.pop()
    if g.guards.setdefault(n, v) != v:
        raise Unsupported(f"guards read as {n} have different values")


def same(it, v, t):
    """The value v is a formula equal to t (equality is a congruence, C04)."""
    if isinstance(v, SF):
        return key(v.t) == key(t)
    if isinstance(v, I.Ref) and it.obj(v).kind == "inst" and it.obj(v).cls in UNARY:
        c = it.obj(v).cls
        return z3.And(kcls(key(t)) == CC[c], klg(key(t)) == it.logic_term(it.getattr(v, "logic")), same(it, it.getattr(v, "argument"), arg(t)))
    return z3.BoolVal(False)


def prove_C06(V_):
    rebuild(V_)
    roundtrip(V_, ("pl", "ltl", "pltl"))
    return V_.result(assumptions=ASSUME)


def prove_C07(V_):
    rebuild(V_)
    roundtrip(V_, ("ldl",))
    return V_.result(assumptions=ASSUME)


ASSUME = [
    "lark 1.1.5: the LALR driver, the contextual lexer and the Transformer follow their tables, scanners and callbacks (which are read from the live parser objects on every run)",
    "Python re: alternation is ordered, the scanner of a lexer is one alternation matched at the position",
    "induction hypothesis: the text of a part is read as the part itself; equality is a congruence (C04)",
    "formulas come from the constructors: parts belong to the logics they enforce (C13), And/Or are flat, duplicate-free and without complementary operands (C03); HashConsing by its C05 contract, atom names by C09",
    "chains of n operands are read alike for all n: the stacks at the operators repeat from the second one on (checked for n = 2, 3, 4)",
    "the atoms are not named by a word that the logic reserves (precondition of the property)",
]


# ------------------------------------------------------------------ names
def names(V_):
    """AtomName and the atom classes, run on an arbitrary string."""
    n = z3.Const("n", Str)
    for c in [B.AtomName] + ATOMS:
        for typ in (str, B.AtomName):
            nm = f"{c.__name__}({'a string' if typ is str else 'an atom name'}) [{c.__module__.rsplit('.', 1)[1]}]"
            seen, outcomes = {}, []
            run = Run(mode=("wf",), timeout=4000)
            run.deadline = (time.process_time() + 60, time.time() + 10 * 60)
            fn = "syntax.base:AtomName" if c is B.AtomName else f"{where(c)}.__init__"
            t0 = time.time()

            def thunk(c=c, typ=typ):
                it = Interp(run)
                it.strict_str = True
                it.contracts[HC] = hash_consing
                it.regex_seen = seen
                try:
                    r = it.call(c, [SStr([n], typ)])
                except PyRaise as e:
                    return ("raises", e.exc)
                finally:
                    V_.used |= it.used
                v = r if c is B.AtomName else it.getattr(r, "name")
                kept = isinstance(v, SStr) and len(v.parts) == 1 and z3.is_expr(v.parts[0]) and v.parts[0].eq(n)
                ty = it.class_of(v) is (str if c is not B.AtomName else c)
                return ("ok", kept, ty)
            try:
                for kind, v, st, pc in run.explore(thunk):
                    if kind == "raise":
                        v = ("raises", v.exc)
                    lits = {}
                    for p in st[0]:
                        p = z3.simplify(p)
                        neg = z3.is_not(p)
                        q = p.arg(0) if neg else p
                        if q.num_args() == 1 and q.decl().name() in seen and q.arg(0).eq(n):
                            lits[q.decl().name()] = not neg
                        elif not z3.is_true(p):
                            raise Unsupported(f"a condition {p} on the text")
                    outcomes.append((lits, v))
                acc = [l for l, v in outcomes if v[0] == "ok"]
                rej = [v for l, v in outcomes if v[0] != "ok"]
                V_.fact(f"{nm}: a text that is refused is refused with ValueError", fn, all(v[1] is ValueError for v in rej), f"{rej}")
                V_.fact(f"{nm}: the name is kept unchanged", fn, all(v[1] and v[2] for l, v in outcomes if v[0] == "ok"), "the name is another text or type")
                if len(seen) != 1 and not (typ is B.AtomName and not seen):
                    raise Unsupported(f"{len(seen)} patterns decide")
                if not seen:
                    continue    # (an accepted name, not matched again)
                (k, (pat, meth)), = seen.items()
                if acc != [{k: True}] or len(outcomes) != 2:
                    V_.fact(f"{nm}: accepted exactly when it is an atom name", fn, False, "the text is accepted although it does not match, or is refused although it does", undecided=acc != [{k: False}])
                    continue
                pre = r"[\s\S]*" if meth == "search" else ""
                post = "" if meth == "fullmatch" else r"[\s\S]*"
                P = rx.program([(0, f"{pre}(?:{pat.pattern}){post}")], pat.flags & ~re.UNICODE)
                ok, w = rx.same_language(P, rx.program([(0, NAME)]))
                V_.fact(f"{nm}: accepted exactly when it is an atom name", fn, ok, f"differs at {w!r}", seconds=round(time.time() - t0, 2), case={"s": w})
            except Unsupported as e:
                V_.fact(f"{nm}: accepted exactly when it is an atom name", fn, False, str(e), undecided=True)


def prove_C09(V_):
    names(V_)
    for logic in LOGICS:
        try:
            g = G(logic)
        except (Unsupported, AttributeError, KeyError) as e:
            V_.fact(f"parser of {logic}", f"parsers.{logic}", False, str(e), undecided=True)
            continue
        nm = f"{logic}: wherever a name may stand, every name that is not reserved is read as one name, before a bracket and at the end"
        t0 = time.time()
        try:
            bad = []
            n = 0
            for q, sts in g.lexers():
                if any(g.accepts(s, "SYMBOL_NAME") for s in sts):
                    n += 1
                    ok, w = g.reads_names(q)
                    bad += [] if ok else [w]
            V_.fact(nm + f" ({n} lexers)", f"parsers.{logic}:lexer", not bad and n > 0, f"not {bad[:3]!r}", seconds=round(time.time() - t0, 2),
                    case={"s": bad[0][0][:-1] if bad[0][0].endswith(")") else bad[0][0]} if bad else None)
        except Unsupported as e:
            V_.fact(nm, f"parsers.{logic}:lexer", False, str(e), undecided=True)
    roundtrip(V_, LOGICS, only=ATOMS)
    return V_.result(assumptions=ASSUME)
