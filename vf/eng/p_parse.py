"""C08: the parsers read the documented grammar with the documented meaning."""
import itertools
import logging
import time

import lark
from lark import Tree, Token
from lark.parsers.lalr_analysis import Shift, Reduce

from .verify import *  # noqa: F401,F403
from .verify import I, z3, TT, Run, accessors
from . import core, lr, rx
from .lr import G, Hole, NAME, TOKENS, KEYWORDS, LOGICS, bare
from .p_text import text_env, hash_consing, HC, interleaved, apply_rule, callback, value, where

# ------------------------------------------------------------------ the documented grammars (docs/grammars.md), as a specification
BOOL_LEVELS = [("EQUIVALENCE", B.Equivalence), ("IMPLY", B.Implies), ("OR", B.Or), ("AND", B.And)]
LEVELS = {
    "pl": BOOL_LEVELS,
    "ltl": BOOL_LEVELS + [("WEAK_UNTIL", LTL.WeakUntil), ("UNTIL", LTL.Until), ("RELEASE", LTL.Release), ("STRONG_RELEASE", LTL.StrongRelease)],
    "pltl": BOOL_LEVELS + [("SINCE", PLTL.Since), ("TRIGGERS", PLTL.Triggers)],
    "ldl": BOOL_LEVELS,
}
PREFIX = {
    "pl": [("NOT", B.Not)],
    "ltl": [("ALWAYS", LTL.Always), ("EVENTUALLY", LTL.Eventually), ("NEXT", LTL.Next), ("WEAK_NEXT", LTL.WeakNext), ("NOT", B.Not)],
    "pltl": [("HISTORICALLY", PLTL.Historically), ("ONCE", PLTL.Once), ("BEFORE", PLTL.Before), ("WEAKBEFORE", PLTL.WeakBefore), ("NOT", B.Not)],
}
# token of a constant -> what it denotes in the logic (the texts of the reference reading)
CONSTANTS = {"pl": {"TRUE": "true", "FALSE": "false"}, "ltl": {"TRUE": "true", "FALSE": "false", "TT": "tt", "FF": "ff", "LAST": "last"},
             "pltl": {"TRUE": "true", "FALSE": "false", "TT": "tt", "FF": "ff", "START": "start"}, "ldl": {"TT": "tt", "FF": "ff", "LAST": "last", "END": "end"}}
LGOF = {"pl": Logic.PL, "ltl": Logic.LTL, "pltl": Logic.PLTL, "ldl": Logic.LDL}


def chain_rules(p, levels, last):
    """?p0: p1 (OP p1)* ...; the rules of the levels, the last one over `last`."""
    names = [f"{p}_{op.lower()}" for op, _ in levels] + [last]
    return [f"?{a}: {b} ({op} {b})*" for a, b, (op, _) in zip(names, names[1:], levels)], names[0]


def pl_rules(p):
    out, top = chain_rules(p, LEVELS["pl"], f"{p}_not")
    return out + [f"?{p}_formula: {top}", f"?{p}_not: NOT {p}_not | {p}_wrapped", f"?{p}_wrapped: {p}_atomic | LEFT_PARENTHESIS {p}_formula RIGHT_PARENTHESIS",
                  f"?{p}_atomic: {p}_name | {p}_true | {p}_false", f"{p}_name: SYMBOL_NAME", f"{p}_true: TRUE", f"{p}_false: FALSE"]


def grammar(logic):
    """(grammar, meaning of its rule names)."""
    p = logic
    mean = {"start": ("same", 1)}
    if logic == "pl":
        rules = ["start: pl_formula"] + pl_rules("pl")
    elif logic in ("ltl", "pltl"):
        r, top = chain_rules(p, LEVELS[logic], f"{p}_unary")
        ops = PREFIX[logic]
        rules = [f"start: {p}_formula", f"?{p}_formula: {top}"] + r
        rules += [f"?{p}_unary: " + " | ".join(f"{p}_{op.lower()}" for op, _ in ops) + f" | {p}_wrapped"]
        rules += [f"?{p}_{op.lower()}: {op} {p}_unary" for op, _ in ops]
        rules += [f"?{p}_wrapped: {p}_atomic | LEFT_PARENTHESIS {p}_formula RIGHT_PARENTHESIS"]
        cs = list(CONSTANTS[logic])
        rules += [f"?{p}_atomic: {p}_name | " + " | ".join(f"{p}_c_{c.lower()}" for c in cs), f"{p}_name: SYMBOL_NAME"]
        # (true and false of the linear logics are written with the tokens of propositional logic)
        rules += [f"{p}_c_{c.lower()}: {'p_' + c.lower() if c in ('TRUE', 'FALSE') else c}" for c in cs] + ["p_true: TRUE", "p_false: FALSE"]
        for c in cs:
            mean[f"{p}_c_{c.lower()}"] = ("constant", c)
        mean["p_true"] = mean["p_false"] = ("ignored",)
        for op, c in ops:
            mean[f"{p}_{op.lower()}"] = ("prefix", c)
    else:
        r, top = chain_rules(p, LEVELS["ldl"], "ldl_unary")
        rules = ["start: ldl_formula", f"?ldl_formula: {top}"] + r + [
            "?ldl_unary: ldl_box | ldl_diamond | ldl_not | ldl_wrapped",
            "?ldl_box: LEFT_SQUARE_BRACKET regex RIGHT_SQUARE_BRACKET ldl_unary",
            "?ldl_diamond: LEFT_ANGLE_BRACKET regex RIGHT_ANGLE_BRACKET ldl_unary",
            "?ldl_not: NOT ldl_unary",
            "?ldl_wrapped: ldl_atomic | LEFT_PARENTHESIS ldl_formula RIGHT_PARENTHESIS",
            "?ldl_atomic: " + " | ".join(f"ldl_c_{c.lower()}" for c in CONSTANTS["ldl"])]
        rules += [f"ldl_c_{c.lower()}: {c}" for c in CONSTANTS["ldl"]]
        rules += ["regex: re_union", "?re_union: re_seq (UNION re_seq)*", "?re_seq: re_star (SEQ re_star)*", "?re_star: re_test STAR?",
                  "?re_test: ldl_formula TEST | re_wrapped", "?re_wrapped: re_prop | LEFT_PARENTHESIS regex RIGHT_PARENTHESIS", "re_prop: pl_formula"]
        rules += pl_rules("pl")
        for c in CONSTANTS["ldl"]:
            mean[f"ldl_c_{c.lower()}"] = ("constant", c)
        mean.update({"ldl_box": ("modal", LDL.Box), "ldl_diamond": ("modal", LDL.Diamond), "ldl_not": ("prefix", B.Not), "ldl_wrapped": ("wrapped",), "regex": ("same", 1),
                     "re_union": ("chain", LDL.Union), "re_seq": ("chain", LDL.Seq), "re_star": ("postfix", LDL.Star), "re_test": ("postfix", LDL.Test),
                     "re_wrapped": ("wrapped",), "re_prop": ("unary", LDL.Prop)})
    if logic in ("pl", "ldl"):
        mean.update({"pl_not": ("prefix", B.Not), "pl_wrapped": ("wrapped",), "pl_name": ("name", PL.Atomic), "pl_true": ("constant", "TRUE"), "pl_false": ("constant", "FALSE")})
        for op, c in LEVELS["pl"]:
            mean[f"pl_{op.lower()}"] = ("chain", c)
    for op, c in LEVELS[logic]:
        mean[f"{p}_{op.lower()}"] = ("chain", c)
    if logic in ("ltl", "pltl"):
        mean[f"{p}_wrapped"] = ("wrapped",)
        mean[f"{p}_name"] = ("name", {"ltl": LTL.Atomic, "pltl": PLTL.Atomic}[logic])
    terms = sorted({t for r in rules for t in r.replace("(", " ").replace(")", " ").replace("*", " ").replace("?", " ").split() if t.isupper() or t == "SYMBOL_NAME"})
    return "\n".join(rules + [f'{t}: "{t}"' for t in terms]), mean


class Spec:
    """The documented grammar, compiled to LALR tables by lark."""

    def __init__(self, logic):
        text, self.mean = grammar(logic)
        got = []

        class H(logging.Handler):
            def emit(self, r):
                got.append(r.getMessage())
        lg = lark.logger
        h, lv = H(), lg.level
        lg.addHandler(h)
        saved = [x for x in lg.handlers if x is not h]
        for x in saved:
            lg.removeHandler(x)
        lg.setLevel(logging.DEBUG)
        try:
            self.lark = lark.Lark(text, parser="lalr", debug=True)
        finally:
            lg.removeHandler(h)
            for x in saved:
                lg.addHandler(x)
            lg.setLevel(lv)
        self.conflicts = [m for m in got if "onflict" in m]
        lalr = self.lark.parser.parser
        self.states = lalr._parse_table.states
        self.start, self.end = lalr._parse_table.start_states["start"], lalr._parse_table.end_states["start"]
        self.callbacks = lalr.parser.callbacks


class Mismatch(Exception):
    def __init__(self, why, path, tok):
        super().__init__(why)
        self.path, self.tok = path, tok


def bisimulation(g, sp):
    """Lock step of the real and the documented tables: (pairs of states, pairs of rules, pairs of nonterminals)."""
    A, S = g.states, sp.states
    pairs = {(g.start, sp.start): ()}
    todo = [(g.start, sp.start)]
    nts, rules, gotos = {}, {}, []

    def pair(p, path):
        if p not in pairs:
            pairs[p] = path
            todo.append(p)
            for k in list(nts):
                goto(p, k)

    def goto(p, k):
        a, b = k
        x, y = A[p[0]].get(a), S[p[1]].get(b)
        if (x is None) != (y is None):
            raise Mismatch(f"after the phrase {b}: only one of the parsers continues", pairs[p], None)
        if x is not None:
            pair((x[1], y[1]), pairs[p] + (("phrase", b),))
    terminals = {t.name for t in g.lark.terminals} | {"$END"}
    while todo:
        p = todo.pop(0)
        ra = {bare(t): v for t, v in A[p[0]].items() if t in terminals}
        rb = {t: v for t, v in S[p[1]].items() if t.isupper() or t == "$END"}
        if len(ra) != len([t for t in A[p[0]] if t in terminals]):
            raise Unsupported("two terminals of one name")
        for t in sorted(set(ra) | set(rb)):
            if t not in ra or t not in rb:
                raise Mismatch(f"{t} is {'' if t in ra else 'not '}accepted in a context where the documented grammar does {'not ' if t in ra else ''}allow it", pairs[p], t)
            (k1, a1), (k2, a2) = ra[t], rb[t]
            if k1 is not k2:
                raise Mismatch(f"{t} does not end a phrase where it should, or ends one where it should not", pairs[p], t)
            if k1 is Shift:
                pair((a1, a2), pairs[p] + (t,))
            else:
                if len(a1.expansion) != len(a2.expansion):
                    raise Mismatch(f"a phrase of {len(a1.expansion)} parts instead of {len(a2.expansion)} before {t}", pairs[p], t)
                if rules.setdefault(a1, a2) is not a2:
                    raise Mismatch("one rule in the place of two documented ones", pairs[p], t)
                k = (a1.origin.name, a2.origin.name)
                if k not in nts:
                    nts[k] = True
                    if len({b for a, b in nts if a == k[0]}) > 1:
                        raise Mismatch(f"{k[0]} stands for different documented phrases", pairs[p], t)
                    for q in list(pairs):
                        goto(q, k)
    if (g.end, sp.end) not in pairs or any((p[0] == g.end) != (p[1] == sp.end) for p in pairs):
        raise Unsupported("end states")
    return pairs, rules, nts


# ------------------------------------------------------------------ texts that exercise a part of the grammar
TEXT = {"SYMBOL_NAME": "a", "LEFT_PARENTHESIS": "(", "RIGHT_PARENTHESIS": ")", "EQUIVALENCE": "<->", "IMPLY": "->", "OR": "|", "AND": "&", "NOT": "~", "TRUE": "true",
        "FALSE": "false", "TT": "tt", "FF": "ff", "LAST": "last", "END": "end", "START": "start", "LEFT_SQUARE_BRACKET": "[", "RIGHT_SQUARE_BRACKET": "]",
        "LEFT_ANGLE_BRACKET": "<", "RIGHT_ANGLE_BRACKET": ">", "UNION": "+", "SEQ": ";", "TEST": "?", "STAR": "*"}
TEXT.update({k: v.replace("\\", "") for k, v in lr.LETTERS.items()})


class Sentences:
    """Texts of the documented grammar."""

    def __init__(self, sp, logic):
        self.logic = logic
        self.rules = {}
        for r in sp.callbacks:
            self.rules.setdefault(r.origin.name, []).append(r)
        self.min = {}
        while True:
            new = {}
            for n, rs in self.rules.items():
                for r in rs:
                    e = self.expand(r)
                    if e is not None and (n not in self.min or len(e) < len(self.min[n])) and (n not in new or len(e) < len(new[n])):
                        new[n] = e
            if not new:
                break
            self.min.update(new)
        # a context for every nonterminal
        self.ctx = {"start": ((), ())}
        todo = ["start"]
        while todo:
            n = todo.pop(0)
            for r in self.rules[n]:
                for i, y in enumerate(r.expansion):
                    if y.name in self.rules and y.name not in self.ctx:
                        a, b = self.seq(r.expansion[:i]), self.seq(r.expansion[i + 1:])
                        self.ctx[y.name] = (self.ctx[n][0] + a, b + self.ctx[n][1])
                        todo.append(y.name)

    def expand(self, r):
        out = ()
        for y in r.expansion:
            if y.name in self.rules:
                if y.name not in self.min:
                    return None
                out += self.min[y.name]
            else:
                out += (y.name,)
        return out

    def seq(self, ys):
        return tuple(t for y in ys for t in (self.min[y.name] if y.name in self.rules else (y.name,)))

    def text(self, toks, i=0):
        """Token names to a text; names and constants vary with their position."""
        out, n = [], i
        for t in toks:
            if t == "SYMBOL_NAME":
                out.append("abcdefghijk"[n % 11])
                n += 1
            elif t in ("TT", "FF", "LAST", "END", "TRUE", "FALSE", "START") and i and toks.count(t) > 1:
                alt = [x for x in (("TT", "FF", "LAST", "END") if self.logic == "ldl" else ("TRUE", "FALSE", "TT", "FF")) if x != t]
                out.append(TEXT[([t] + alt)[n % 4]])
                n += 1
            else:
                out.append(TEXT.get(t, t))
        return " ".join(out)

    def of_rule(self, r, limit=300):
        """Texts in which the rule is used, its parts expanded in several ways."""
        a, b = self.ctx.get(r.origin.name, ((), ()))
        opts = []
        for y in r.expansion:
            if y.name in self.rules:
                o = [self.min[y.name]]
                todo, seen = [y.name], {y.name}
                while todo and len(o) < 12:
                    n = todo.pop(0)
                    for q in self.rules[n]:
                        e = self.expand(q)
                        if e is not None and e not in o:
                            o.append(e)
                        for z in q.expansion:
                            if z.name in self.rules and z.name not in seen and len(q.expansion) == 1:
                                seen.add(z.name)
                                todo.append(z.name)
                opts.append(o[:12])
            else:
                opts.append([(y.name,)])
        if len(r.expansion) == 2 and r.expansion[1].name.startswith("__"):
            # longer chains
            op = next(t.name for q in self.rules[r.expansion[1].name] for t in q.expansion if t.name not in self.rules)
            x = self.min[r.expansion[0].name]
            for n in (4, 5, 6, 7, 8, 9, 10, 12, 16, 17, 32, 33, 64, 65):
                yield self.text(a + x + ((op,) + x) * (n - 1) + b)
        for combo in itertools.islice(itertools.product(*opts), limit):
            toks = a + tuple(t for c in combo for t in c) + b
            yield self.text(toks)
            yield self.text(toks, 1)
            yield self.text(toks, 2)


def failing(logic, texts, limit=1500):
    """The first text on which the real parser differs from the documented reading."""
    from ..f_text import C08
    for s in itertools.islice(dict.fromkeys(texts), limit):
        case = {"lg": logic, "s": s}
        try:
            if C08.check(case):
                return case
        except Exception:  # noqa
            continue
    return None


def completions(lk, toks, depth=6, width=400):
    """Token sequences of a compiled grammar that continue toks to its end."""
    try:
        p = lk.parse_interactive("")
        for t in toks:
            p.feed_token(Token(t, TEXT.get(bare(t), t)))
    except Exception:  # noqa
        return
    todo = [((), p)]
    seen = set()
    for _ in range(depth):
        new = []
        for ts, q in todo:
            acc = q.accepts()
            if "$END" in acc:
                yield tuple(toks) + ts
            for t in sorted(acc - {"$END"}):
                q2 = q.copy()
                try:
                    q2.feed_token(Token(t, TEXT.get(bare(t), t)))
                except Exception:  # noqa
                    continue
                k = tuple(q2.parser_state.state_stack)
                if k not in seen or not ts:
                    seen.add(k)
                    new.append((ts + (t,), q2))
        todo = new[:width]


def path_texts(g, sp, sen, path, tok):
    """Texts that lead to a difference of the tables."""
    toks = ()
    for x in path:
        toks += sen.min.get(x[1], ()) if isinstance(x, tuple) else (x,)
    real = {bare(t.name): t.name for t in g.lark.terminals}
    starts = [toks] if tok in (None, "$END") else [toks + (tok,), toks]
    if tok == "$END":
        yield sen.text(toks)
    for st in starts:
        for q in itertools.islice(completions(sp.lark, st), 200):
            yield sen.text(q)
        if all(t in real for t in st):
            for q in itertools.islice(completions(g.lark, [real[t] for t in st]), 500):
                yield sen.text(tuple(bare(t) for t in q))


# ------------------------------------------------------------------ values of phrases
def constructors(it):
    """Contract of every formula constructor: some formula, remembered with the class and the arguments."""
    it.made_by = {}
    names = {c: where(c) for c in CLASSES}

    def h(i, a, k):
        if a[0] not in names or k:
            raise Unsupported(f"construction of {a[0]!r}")
        args = []
        for x in a[1:]:
            args += list(x[1]) if isinstance(x, tuple) and x and x[0] == "*segs" else [("e", x)]
        t = i.run.fresh(F, "made")
        i.made_by[t.get_id()] = (a[0], args)
        return SF(t)
    for f in {type(c).__call__ for c in CLASSES}:
        it.contracts[f] = h
    return it


def made_of(it, r, c, args):
    """Clause: r was constructed as c(*args)."""
    got = it.made_by.get(r.t.get_id()) if isinstance(r, SF) else None
    if got is None:
        return False, f"{r!r} is not constructed"
    if got[0] is not c:
        return False, f"{got[0].__name__} is constructed instead of {c.__name__}"
    a, b = it.expand(got[1]), it.expand(args)
    if len(a) != len(b) or not all(it._same_seg(x, y) for x, y in zip(a, b)):
        return False, f"{c.__name__} of other operands, or in another order"
    return True, ""


def spliced(n):
    return n.startswith("_")


class Parts:
    """Placeholders for the parts of a rule: tokens, phrases (holes), and repetitions of one to three operators."""

    def __init__(self, real, spec):
        self.real, self.spec = real, spec

    def children(self, reps):
        """(real children, spec children, order of holes)"""
        ra, sb, k = [], [], 0
        for i, (y, z) in enumerate(zip(self.real.expansion, self.spec.expansion)):
            if z.name.startswith("__"):
                if not spliced(y.name):
                    raise Unsupported(f"{y.name} is a phrase in the place of a repetition")
                kids = reps
                ra.append(Tree(y.name, list(kids)))
                sb.append(Tree(z.name, list(kids)))
            elif z.is_term:
                t = Token(y.name, TEXT.get(z.name, z.name))
                ra.append(t)
                sb.append(Token(z.name, t))
            else:
                if spliced(y.name):
                    raise Unsupported(f"the phrase {y.name} is spliced")
                h = Hole(z.name, k)
                k += 1
                ra.append(h)
                sb.append(h)
        return ra, sb


def norm(t):
    """Trees up to the names of tokens."""
    if isinstance(t, Hole):
        return ("hole", t.term)
    if isinstance(t, Token):
        return ("tok", bare(t.type))
    if isinstance(t, Tree):
        return ("tree", tuple(norm(c) for c in t.children))
    return t


def repetition(op, n, first=1):
    return [x for i in range(n) for x in (Token(op, TEXT.get(bare(op), op)), Hole("operand", first + i))]


def meanings(V_, g, sp, rules, sen):
    """The value that the real callbacks give to every phrase is the documented one."""
    logic = g.logic
    fn = f"parsers.{logic}:_{logic.upper()}Transformer"
    rterm = {t.name for t in g.lark.terminals}
    done = set()
    for r1, r2 in sorted(rules.items(), key=lambda p: (p[1].origin.name, p[1].order)):
        nm = f"{logic}: {r2.origin.name} -> {' '.join(y.name for y in r2.expansion)}"
        wit = lambda r2=r2: failing(logic, sen.of_rule(r2))
        ps = Parts(r1, r2)
        try:
            if r2.origin.name.startswith("__"):
                # a repetition: its parts one after the other
                op = [y.name for y, z in zip(r1.expansion, r2.expansion) if z.is_term]
                if len(op) != 1 or not spliced(r1.origin.name):
                    raise Unsupported("a repetition")
                for n in (1, 2, 3):
                    a, b = ps.children(repetition(op[0], n, 7))
                    x, y = g.callbacks[r1](a), sp.callbacks[r2](b)
                    if not isinstance(x, Tree) or norm(x) != norm(y):
                        raise Unsupported("the parts of a repetition")
                V_.fact(nm + " keeps its parts in order", f"parsers.{logic}:grammar", True)
                continue
            reps = [z for z in r2.expansion if z.name.startswith("__")]
            if reps:
                op = next(t.name for q in rules for t in q.expansion if t.name in rterm and rules[q].origin.name == reps[0].name)
                trees = []
                for n in (1, 2, 3):
                    a, b = ps.children(repetition(op, n, 1))
                    trees.append((g.callbacks[r1](a), sp.callbacks[r2](b)))
                m = sp_meaning(sp, trees[0][1])
                if m[0] != "chain" or any(not isinstance(x, Tree) or norm(x) != norm(y) or x.data != trees[0][0].data for x, y in trees):
                    raise Unsupported("the operands of a chain")
                c, data = m[1], trees[0][0].data
                key_ = ("chain", str(data), c)
                if key_ in done:
                    continue
                done.add(key_)
                for n in (1, 2):
                    V_.oblige(nm + f" with {n + 1} operands is {c.__name__} of them in order", fn, lambda it, t=trees[n - 1][0], c=c: phrase(it, g, t, ("chain", c)), mode=("wf",), witness=wit)
                V_.oblige(nm + f" with any number of operands is {c.__name__} of them in order", fn, lambda it, data=data, c=c: chain(it, g, data, c), mode=("wf",), witness=wit)
                continue
            a, b = ps.children([])
            x, y = g.callbacks[r1](a), sp.callbacks[r2](b)
            if isinstance(y, Hole):
                if isinstance(x, Hole) and x is y:
                    continue
                V_.oblige(nm + " is its part", fn, lambda it, x=x, y=y: phrase(it, g, x, ("same", y.term)), mode=("wf",), witness=wit)
                continue
            m = sp_meaning(sp, y)
            if m == ("ignored",):
                continue
            if m[0] == "constant":
                constant(V_, g, m[1], r2.origin.name, nm, fn)
                continue
            V_.oblige(nm + f" is {m[0]}{' ' + m[1].__name__ if len(m) > 1 and isinstance(m[1], type) else ''}", fn, lambda it, x=x, m=m: phrase(it, g, x, m), mode=("wf",), witness=wit)
        except Unsupported as e:
            c = wit()
            V_.fact(nm, fn, False, str(e), undecided=c is None, case=c)
        except (AttributeError, TypeError, IndexError, KeyError, StopIteration) as e:
            c = wit()
            V_.fact(nm, fn, False, f"{type(e).__name__}: {e}", undecided=c is None, case=c)


def sp_meaning(sp, tree):
    n = str(tree.data)
    if n not in sp.mean:
        raise Unsupported(f"no meaning of {n}")
    return sp.mean[n]


def phrase(it, g, tree, m):
    """Value of a phrase with arbitrary parts."""
    run = it.run
    text_env(it)
    constructors(it)
    vals = {}

    def hole(h):
        if h.term not in vals:
            vals[h.term] = SF(run.fresh(F, "part"))
        return vals[h.term]
    n = z3.Const("n", Str)
    if m[0] == "name":
        if not (isinstance(tree, Tree) and len(tree.children) == 1 and isinstance(tree.children[0], Token)):
            raise Unsupported("the phrase of a name")
        r = apply_rule(it, g, tree.data, [SStr([n], Token)])
        got = it.made_by.get(r.t.get_id()) if isinstance(r, SF) else None
        ok = got is not None and got[0] is m[1] and len(got[1]) == 1 and got[1][0][0] == "e" and isinstance(got[1][0][1], SStr) and list(got[1][0][1].parts) == [n]
        return [("is the atom of that name", ok, f"{got}")]
    r = value(it, g, tree, hole)
    if m[0] in ("same", "wrapped"):
        i = m[1] if m[0] == "same" and m[1] in vals else min(vals)
        return [("is its part", isinstance(r, SF) and r.t.eq(vals[i].t), f"{r!r}")]
    c = m[1]
    args = [("e", vals[i]) for i in sorted(vals)]
    want = {"prefix": 1, "postfix": 1, "unary": 1, "modal": 2, "chain": len(args)}[m[0]]
    ok, why = made_of(it, r, c, args)
    return [("constructs it", ok and len(args) == want, why)]


def chain(it, g, data, c):
    run = it.run
    text_env(it)
    constructors(it)
    s = run.fresh(S, "operands")
    run.sterm[s.get_id()] = s
    run.assume(slen(s) >= 2)
    r = apply_rule(it, g, data, interleaved(it, [run.seg(s)], None))
    ok, why = made_of(it, r, c, [run.seg(s)])
    return [("constructs it", ok, why)]


class Looked(Exception):
    pass


class Unread:
    """A token that may be handed on but not looked at."""

    def __getattribute__(self, n):
        if n == "__class__":
            return Token
        raise Looked(n)

    def _no(self, *a):
        raise Looked()
    __str__ = __repr__ = __eq__ = __ne__ = __hash__ = __len__ = __bool__ = __iter__ = __getitem__ = __contains__ = __add__ = __lt__ = __format__ = __int__ = _no


def unread(g, s, tok):
    """The callbacks on the tree of the text, with every token of the name replaced by one that cannot be looked at: the
    value is the same for all tokens of that name, wherever they stand."""
    from .p_text import callback

    def go(v):
        if isinstance(v, Token):
            return Unread() if bare(v.type) == tok else v
        kids = [go(c) for c in v.children]
        f = callback(g, v.data)
        return Tree(v.data, kids) if f is None else f(kids)
    return go(g.lark.parse(s))


def constant(V_, g, tok, nt, nm, fn):
    """A constant: the text has one tree, which is evaluated; the value does not depend on the token."""
    from .. import sp as S_, refparse
    lg = "pl" if nt.startswith("pl_") else g.logic
    w = CONSTANTS["pl" if nt.startswith("pl_") else g.logic][tok]
    ctx = (lambda s: f"[{s}]tt") if lg != g.logic else (lambda s: s)
    try:
        got = g.obj(ctx(w))
        want = [S_.read(S_.build(t)) for t in refparse.parse(ctx(w), g.logic)]
        ok = len(want) == 1 and S_.key(S_.read(got)) == S_.key(want[0])
        if ok:
            try:
                if S_.key(S_.read(unread(g, ctx(w), tok))) != S_.key(want[0]):
                    raise Looked()
            except Looked as e:
                V_.fact(nm + f" is the documented constant {w}", fn, False, f"the value depends on the token ({e})", undecided=True)
                return
        V_.fact(nm + f" is the documented constant {w}", fn, ok, f"{S_.show(S_.read(got))}", case={"lg": g.logic, "s": ctx(w)})
    except Exception as e:  # noqa
        V_.fact(nm + f" is the documented constant {w}", fn, False, f"{type(e).__name__}: {e}", case={"lg": g.logic, "s": ctx(w)})


# ------------------------------------------------------------------ lexers
LDL_WORDS = {"TT", "FF", "LAST", "END"}
# a bracket of LDL that also begins a longer operator, which cannot stand in its place
BEGINS = {"LEFT_ANGLE_BRACKET": ("EQUIVALENCE", "-"), "RIGHT_ANGLE_BRACKET": ("IMPLY", ">")}


def begins_with(P, ch):
    """Can a token of the scanner begin with the character?"""
    A = rx.Alphabet([P])
    todo = [{}]
    while todo:
        gs = todo.pop()
        try:
            th, _ = rx.closure(P, [P.start], gs, False)
        except rx.NeedGuess as e:
            todo += [{**gs, e.args[0]: True}, {**gs, e.args[0]: False}]
            continue
        if any(A.has(P.code[pc][1], c) for pc in th for c in A.classes if A.text((c,)) == ch or ch in A.text((c,))):
            return True
    return False


def lexing(V_, g, sp, pairs, sen):
    """In every context, the text is cut into the documented tokens: the longest one, reserved words before names."""
    logic = g.logic
    fn = f"parsers.{logic}:lexer"
    toks = {t for v in sp.states.values() for t in v if t.isupper() and t not in ("$END",)} & set(TOKENS)
    terms = {t.name for t in g.lark.terminals}
    path = {}
    for (q, _), p in pairs.items():
        path.setdefault(q, p)
    n = 0
    for q0, sts in g.lexers():
        for_states = [q for q in sts if q in path]
        if not for_states:
            continue
        n += 1
        nm = f"{logic}: the documented tokens are read [lexer {n}]"
        t0 = time.time()
        try:
            P, names, b = g.scanner(q0)
            acc = {bare(x) for x in names}
            expected = {bare(t) for q in for_states for t in g.states[q] if t in terms} | {"__IGNORE_0"}
            if set(b.ignore_types) != {x for x in names if bare(x) not in expected} and not set(b.ignore_types) <= set(names):
                raise Unsupported("ignored tokens")
            mine = set(toks)
            if logic == "ldl" and "SYMBOL_NAME" in acc and not acc & LDL_WORDS:
                mine -= LDL_WORDS      # (a name after a propositional operator)
            follow = []
            for t, (longer, ch) in BEGINS.items():
                if t in acc and longer not in acc:
                    mine -= {longer}
                    follow.append((t, ch))
            full = [(t, TOKENS[t]) for t in sorted(mine)] + [("__IGNORE_0", TOKENS["__IGNORE_0"])]
            rk = {t: (1000 if t == "SYMBOL_NAME" else i) for i, (t, _) in enumerate(full)}
            ign = {x: "__IGNORE_0" for x in b.ignore_types}
            Q = rx.program(full)
            ok, w = rx.compare([rx.Side(P), rx.Side(Q, False, lambda t: rk[t])], lambda m, i: ign.get(m, bare(m)) if i == 0 else m if m == "__IGNORE_0" or m in expected else None)
            case = None
            if not ok:
                q = for_states[0]
                texts = []
                for q in for_states[:20]:
                    pre = tuple(t for x in path[q] for t in (sen.min.get(x[1], ()) if isinstance(x, tuple) else (x,)))
                    for tail in ("", " a", "a", " b", " tt", "tt", ")", " )", "(a)", "(tt)", " & b"):
                        texts += [(sen.text(pre) + sep + w[0] + tail) for sep in (" ", "")]
                    for t in {w[1], w[2]} - {None, "__IGNORE_0"}:
                        for src, lk in ((pre + (t,), sp.lark),):
                            for cpl in itertools.islice(completions(lk, src), 60):
                                x = sen.text(pre), sen.text(cpl[len(pre) + 1:])
                                texts += [x[0] + " " + w[0] + " " + x[1], x[0] + " " + w[0] + x[1], x[0] + w[0] + x[1]]
                case = failing(logic, texts, 4000)
            V_.fact(nm, fn, ok, f"{w[:3]!r} where {sorted(expected)} is expected" if not ok else "", seconds=round(time.time() - t0, 2), undecided=case is None, case=case)
            for t, ch in follow:
                after = set()
                for q in for_states:
                    for x in g.states[q]:
                        if bare(x) == t:
                            after |= {a for p in g.states.values() for k, (kind, a) in p.items() if kind is Shift and bare(k) == t and k in terms}
                bad = [q for q in after if begins_with(g.scanner(q)[0], ch)]
                V_.fact(nm + f": nothing begins with {ch} after {t}", fn, not bad, f"states {bad}", undecided=True)
        except Unsupported as e:
            V_.fact(nm, fn, False, str(e), undecided=True)


# ------------------------------------------------------------------ the entry points
def entries(V_, g):
    """parse_<logic>(text) is the transformer applied to what lark reads in the text."""
    mod = g.module
    f = getattr(mod, "parse_" + g.logic, None)
    fn = f"parsers.{g.logic}:parse_{g.logic}"

    def body(it):
        it.strict_str = True
        it.live_objects = ("pylogics_modalities.parsers", "lark")
        log = []

        def parse(i, a, k):
            if a[0] is not g.lark or k or len(a) != 2:
                raise Unsupported("another parser")
            log.append(("parse", a[1]))
            return I.Opq("tree", {"of": a[1]})

        def transform(i, a, k):
            if a[0] is not g.transformer or k or len(a) != 2 or not (isinstance(a[1], I.Opq) and a[1].tag == "tree"):
                raise Unsupported("another transformer")
            log.append(("transform", a[1].data["of"]))
            return I.Opq("formula", {"of": a[1].data["of"]})
        it.contracts[lark.Lark.parse] = parse
        it.contracts[lark.Transformer.transform] = transform
        if type(g.transformer).transform is not lark.Transformer.transform:
            raise Unsupported("a transform of its own")
        text = SStr([z3.Const("text", Str)])
        r = it.call(f, [text])
        ok = isinstance(r, I.Opq) and r.tag == "formula" and isinstance(r.data["of"], SStr) and list(r.data["of"].parts) == list(text.parts)
        return [("returns the value of the whole text", ok, f"{r!r} {log}")]
    V_.oblige(f"{g.logic}: parse_{g.logic} reads the text", fn, body, mode=("wf",), witness=lambda: None)


def prove_C08(V_):
    for logic in LOGICS:
        t0 = time.time()
        try:
            g, sp = G(logic), Spec(logic)
        except (Unsupported, AttributeError, KeyError) as e:
            V_.fact(f"parser of {logic}", f"parsers.{logic}", False, str(e), undecided=True)
            continue
        sen = Sentences(sp, logic)
        fn = f"parsers.{logic}:grammar"
        if logic != "ldl":
            V_.fact(f"{logic}: the documented grammar gives every text one reading (no conflicts)", fn, not sp.conflicts, f"{sp.conflicts[:3]}", undecided=True)
        try:
            pairs, rules, nts = bisimulation(g, sp)
            V_.fact(f"{logic}: the tables accept exactly the documented grammar, phrase by phrase ({len(pairs)} pairs of states, {len(rules)} rules)", fn, True, seconds=round(time.time() - t0, 2))
        except Mismatch as e:
            c = failing(logic, itertools.chain(path_texts(g, sp, sen, e.path, e.tok), *[sen.of_rule(r, 60) for rs in sen.rules.values() for r in rs]))
            V_.fact(f"{logic}: the tables accept exactly the documented grammar, phrase by phrase", fn, False, f"{e} (after {e.path})", undecided=c is None, case=c)
            continue
        except Unsupported as e:
            V_.fact(f"{logic}: the tables accept exactly the documented grammar, phrase by phrase", fn, False, str(e), undecided=True)
            continue
        meanings(V_, g, sp, rules, sen)
        lexing(V_, g, sp, pairs, sen)
        entries(V_, g)
    return V_.result(assumptions=ASSUME)


ASSUME = [
    "lark 1.1.5: the LALR construction (applied to the documented grammar), the LALR driver, the contextual lexer, the tree builder and the Transformer follow their tables",
    "the documented grammar is vf/eng/p_parse.py:grammar and the tokens are vf/eng/lr.py:TOKENS (written from docs/grammars.md and docs/parsing.md)",
    "LDL: conflicts of the documented grammar are resolved as shift, in both tables; a word that only LDL reserves is a name after a propositional operator (docs leave it open)",
    "the value of a phrase depends on its parts by the callbacks only (lark's Transformer is bottom up); constructors by their contracts C01, C03, C13",
    "the step from chains of 2, 3, 4 operands to any length in the tree builder: repetitions keep their parts in order (checked for 1, 2, 3 operators)",
]
