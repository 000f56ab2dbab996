"""Logic core of the deductive verifier: sorts, background theory, path exploration.

Formulas of the library are terms of the sort F.  key : F -> K abstracts a formula to its class of
structural equality, so two formulas are `==` exactly when their keys are equal (the contract of
`__eq__`, proved under C04).  Everything that is a function of the equality class (connective, logic,
truth value, name, negation) is a function on K.  Operand sequences are terms of the sort S; a
sequence value of the program is a list of segments (single elements and comprehensions over an
S-term).  Statements about sequences are All_P(s) ("every element of s satisfies P"), Par_P(s) ("an
odd number of elements satisfies P"), len(s), Distinct(s), CompFree(s); they are axiomatised without
quantifiers by splitting along the known decompositions of s, by one Skolem witness per negated All,
and by instantiating All at every named member.  All reasoning is refutation by z3 on ground formulas.
"""
import os
import sys
import time

_Z = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _Z not in sys.path:
    sys.path.append(_Z)
import z3  # noqa: E402

from pylogics_modalities.syntax import base as B, pl as PL, ltl as LTL, pltl as PLTL, ldl as LDL, fol as FOL  # noqa: E402
from pylogics_modalities.syntax.base import Logic, Formula  # noqa: E402
import pylogics_modalities.utils.to_string  # noqa: E402,F401
import pylogics_modalities.deduction.fol.nd as ND  # noqa: E402
import pylogics_modalities.semantics.pl  # noqa: E402,F401


class Unsupported(Exception):
    """The construct is outside the verified fragment (the obligation is undecided)."""


class Changed(Unsupported):
    """A value that is given (described, not built) is changed."""


class Infeasible(Exception):
    """The current path has an unsatisfiable path condition."""


def concrete_classes():
    seen, out, todo = set(), [], [Formula]
    while todo:
        c = todo.pop(0)
        for s in c.__subclasses__():
            if s not in seen:
                seen.add(s)
                todo.append(s)
                if not s.__name__.startswith("_") and not getattr(s, "__abstractmethods__", None) and s.__module__.startswith("pylogics_modalities"):
                    out.append(s)
    out = [c for c in out if c is not B.AbstractAtomic]
    nd = os.environ.get("VF_ND")        # natural deduction: the formulas of one logic, and terms
    if nd:
        out = [c for c in out if c.__module__.endswith(("syntax.base", "syntax." + nd))]
        out += [c for c in FOL.Term.__subclasses__() if c.__module__.endswith("syntax." + nd)]
    return out


CLASSES = concrete_classes()
F = z3.DeclareSort("F")
K = z3.DeclareSort("K")
S = z3.DeclareSort("S")
Str = z3.DeclareSort("Str")
Cls, _cc = z3.EnumSort("Cls", [f"{c.__module__.rsplit('.', 1)[1]}.{c.__name__}" for c in CLASSES])
CC = dict(zip(CLASSES, _cc))
Lg, _lc = z3.EnumSort("Lg", [m.name for m in Logic])
LC = dict(zip(Logic, _lc))
BOOL = z3.BoolSort()
INT = z3.IntSort()
key = z3.Function("key", F, K)
kcls = z3.Function("kcls", K, Cls)
klg = z3.Function("klg", K, Lg)
kval = z3.Function("kval", K, BOOL)
kname = z3.Function("kname", K, Str)
karg = z3.Function("karg", K, K)
kp = [z3.Function(f"kp{i}", K, K) for i in (0, 1)]
kconst = z3.Function("kconst", Cls, Lg, K)
negk = z3.Function("negk", K, K)
ops = z3.Function("ops", F, S)
arg = z3.Function("arg", F, F)
part = [z3.Function(f"part{i}", F, F) for i in (0, 1)]
slen = z3.Function("len", S, INT)
dist = z3.Function("Distinct", S, BOOL)
cfree = z3.Function("CompFree", S, BOOL)
GE = z3.Const("_e", F)


def nge(t):
    """GE itself for a term equal to it (segments compare their value with `is GE`)."""
    return GE if z3.is_expr(t) and t.get_id() == GE.get_id() else t


strf = z3.Function("str", F, Str)
negf = z3.Function("neg", F, F)
constf = z3.Function("const", Cls, Lg, F)


def is_sub(*cs):
    return [c for c in CLASSES if issubclass(c, cs)]


NARY = [c for c in is_sub(B._BinaryOp) if not issubclass(c, FOL._Quantifier)]
UNARY = is_sub(B._UnaryOp)
TRUTH = is_sub(B.TrueFormula, B.FalseFormula)
ATOMS = is_sub(B.AbstractAtomic)
QUANT = is_sub(FOL._Quantifier)
MODAL = is_sub(LDL._TemporalFormula)
BOOLOP = [B.And, B.Or, B.Not, B.Implies, B.Equivalence]
# the logic a class is documented to belong to (None: the logic of its operands / of its argument)
FIXED_LG = {}
for _c in CLASSES:
    if _c.__module__.endswith("syntax.ltl"):
        FIXED_LG[_c] = Logic.LTL
    elif _c.__module__.endswith("syntax.pltl"):
        FIXED_LG[_c] = Logic.PLTL
    elif _c.__module__.endswith("syntax.pl"):
        FIXED_LG[_c] = Logic.PL
    elif _c.__module__.endswith("syntax.fol"):
        FIXED_LG[_c] = Logic.FOL
    elif _c.__module__.endswith("syntax.ldl"):
        FIXED_LG[_c] = Logic.LDL if _c in MODAL else Logic.RE


def in_cls(k, cs):
    cs = [c for c in cs if c in CC]
    if not cs:
        return z3.BoolVal(False)
    if len(cs) == len(CLASSES):
        return z3.BoolVal(True)
    return z3.Or([kcls(k) == CC[c] for c in cs]) if len(cs) > 1 else kcls(k) == CC[cs[0]]


def imp(a, b):
    return z3.Implies(a, b)


def TT(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


# ------------------------------------------------------------------ predicates over elements
_preds = {}      # (kind, ast id) -> (function, P)
_keep = []       # keeps ASTs alive so that ids stay unique
_pinfo = {}      # decl name -> (kind, P)


def _pfun(kind, P):
    P = z3.simplify(P)
    k = (kind, P.get_id())
    if k not in _preds:
        _keep.append(P)
        name = f"{kind}!{len(_preds)}"
        _preds[k] = z3.Function(name, S, INT if kind in ("cnt", "fst", "lst") else BOOL)
        _pinfo[name] = (kind, P)
    return _preds[k], P


def mentions(t, c):
    i = c.get_id()
    if i == _ge_id:
        return node(t).ge
    return any(a.id == i for a in subnodes(node(t)))


def inst(P, e):
    return z3.substitute(P, (GE, e)) if e is not GE else P


def All(P, s):
    f, P = _pfun("all", P)
    if z3.is_true(P):
        return P
    return f(s)


def Par(P, s):
    f, P = _pfun("par", P)
    if z3.is_false(P):
        return P
    return f(s)


def Cnt(P, s):
    if z3.is_true(z3.simplify(P)):
        return slen(s)
    f, P = _pfun("cnt", P)
    return f(s)


def First(P, s, last=False):
    """First (last) non-zero value of the integer term P over the elements of s; 0 if there is none."""
    f, P = _pfun("lst" if last else "fst", P)
    if z3.is_int_value(P) and P.as_long() == 0:
        return P
    return f(s)


set_like = set()   # ids of terms P such that equal elements agree on P != 0 (besides the key-invariant ones)


class Node:
    """Cached view of an AST node."""
    __slots__ = ("t", "id", "name", "kids", "ge", "sid", "ax", "sub", "true")

    def __init__(self, t, i):
        self.t, self.id = t, i
        self.kids = [node(c) for c in t.children()]
        d = t.decl()
        self.name = d.name()
        self.ge = i == _ge_id or any(k.ge for k in self.kids)
        self.sid = self.kids[0].id if len(self.kids) == 1 and t.arg(0).sort().eq(S) else None
        self.ax = {}
        self.sub = None
        self.true = z3.is_true(t)


_nodes = {}


def node(t):
    i = t.get_id()
    n = _nodes.get(i)
    if n is None:
        n = _nodes[i] = Node(t, i)
    return n


_ge_id = GE.get_id()


def subnodes(n):
    if n.sub is None:
        seen, out, todo = set(), [], [n]
        while todo:
            a = todo.pop()
            if a.id not in seen:
                seen.add(a.id)
                out.append(a)
                todo.extend(a.kids)
        n.sub = out
    return n.sub


def subapps(t):
    """All applications below t (t included), each once."""
    return [n.t for n in subnodes(node(t))]


_ki = {}


def key_invariant(P):
    """P depends on its element only through key(_e)."""
    i = P.get_id()
    if i not in _ki:
        def ok(t):
            if t.get_id() == GE.get_id():
                return False
            if t.decl().eq(key):
                return True if t.arg(0).get_id() == GE.get_id() else ok(t.arg(0))
            return all(ok(c) for c in t.children())
        _ki[i] = ok(P)
    return _ki[i]


# ------------------------------------------------------------------ background axioms


def context_free_axioms(n, mode):
    """Axioms triggered by a ground application (mode: frozenset of enabled contracts)."""
    r = n.ax.get(mode)
    if r is None:
        r = n.ax[mode] = [m for m in (node(TT(x)) for x in _axioms(n.t, mode)) if not m.true] if n.name in TRIGGERS else ()
    return r


TRIGGERS = {"key", "negk", "ops", "arg", "part0", "part1", "len"}


extra = {}      # name of a function -> axioms of its applications


def trigger(name, f):
    """Register axioms for the applications of a specification function."""
    extra[name] = f
    TRIGGERS.add(name)


def is_witness(t):
    return t.num_args() == 0 and t.decl().name().startswith("w<")


def _axioms(a, mode):
    d = a.decl()
    n = d.name()
    if n in extra:
        yield from extra[n](a)
        return
    if n == "key" and a.sort() == K:
        x = a.arg(0)
        k = a
        yield imp(in_cls(k, TRUTH), k == kconst(kcls(k), klg(k)))
        for c, lg in FIXED_LG.items():
            pass
        by = {}
        for c, lg in FIXED_LG.items():
            by.setdefault(lg, []).append(c)
        for lg, cs in by.items():
            yield imp(in_cls(k, cs), klg(k) == LC[lg])
        if "val" in mode:
            yield imp(kcls(k) == CC[B.TrueFormula], kval(k))
            yield imp(kcls(k) == CC[B.FalseFormula], z3.Not(kval(k)))
        if x.decl().eq(constf):
            yield kcls(k) == x.arg(0)
            yield klg(k) == x.arg(1)
            yield k == kconst(x.arg(0), x.arg(1))
        elif x.decl().eq(negf):
            yield k == negk(key(x.arg(0)))
        elif x.decl().eq(arg):
            pass
    elif n == "negk":
        k = a.arg(0)
        isn = kcls(k) == CC[B.Not]
        yield negk(a) == k if not k.decl().eq(negk) else a == a
        yield klg(a) == klg(k)
        yield a != k
        flips = [(t, f) for t, f in ((B.TrueFormula, B.FalseFormula), (LTL.PropositionalTrue, LTL.PropositionalFalse), (PLTL.PropositionalTrue, PLTL.PropositionalFalse)) if t in CC]
        for t, f in flips:
            yield imp(kcls(k) == CC[t], kcls(a) == CC[f])
            yield imp(kcls(k) == CC[f], kcls(a) == CC[t])
            yield imp(kcls(a) == CC[t], kcls(k) == CC[f])
            yield imp(kcls(a) == CC[f], kcls(k) == CC[t])
        yield imp(in_cls(a, TRUTH), a == kconst(kcls(a), klg(a)))
        yield imp(in_cls(k, TRUTH), k == kconst(kcls(k), klg(k)))
        yield imp(isn, z3.And(a == karg(k), z3.Not(in_cls(a, [B.Not, B.TrueFormula, B.FalseFormula]))))
        yield imp(z3.Not(in_cls(k, [B.Not] + TRUTH)), z3.And(kcls(a) == CC[B.Not], karg(a) == k))
        if "val" in mode:
            yield kval(a) == z3.Not(kval(k))
    elif n == "ops" and a.sort() == S:
        x = a.arg(0)
        k = key(x)
        yield slen(a) >= 0
        nary = in_cls(k, NARY)
        yield imp(z3.And(nary, z3.Not(in_cls(k, [B.And, B.Or, B.Equivalence, LDL.Union]))), slen(a) >= 2)
        yield imp(in_cls(k, [B.And, B.Or, B.Equivalence, LDL.Union]), slen(a) >= 2)
        yield imp(in_cls(k, [B.And, B.Or, B.Implies, B.Equivalence]), All(klg(key(GE)) == klg(k), a))
        if "wf" in mode:
            for c in (B.And, B.Or):
                yield imp(kcls(k) == CC[c], z3.And(All(z3.Not(in_cls(key(GE), [c, B.TrueFormula, B.FalseFormula])), a), dist(a), cfree(a)))
            yield imp(kcls(k) == CC[B.Equivalence], dist(a))
        if "val" in mode:
            yield from value_axioms(x, k, a)
    elif n == "arg" and a.sort() == F:
        x = a.arg(0)
        yield imp(in_cls(key(x), UNARY), key(a) == karg(key(x)))
        yield imp(kcls(key(x)) == CC[B.Not], z3.And(klg(key(a)) == klg(key(x)), key(x) == negk(key(a)),
                                                    z3.Not(in_cls(key(a), [B.Not, B.TrueFormula, B.FalseFormula]))))
    elif n in ("part0", "part1"):
        yield imp(in_cls(key(a.arg(0)), MODAL + QUANT), key(a) == kp[int(n[-1])](key(a.arg(0))))
    elif n == "len":
        yield a >= 0


V = kval(key(GE))
implast = z3.Function("implast", S, BOOL)   # value of the last operand
NV = z3.Not(V)
# value of a right-grouped implication chain, as a homomorphism: Imp(s) is the value of the chain of s
impl_val = z3.Function("ImpVal", S, BOOL)


def value_axioms(x, k, s):
    """Truth value of a boolean connective in terms of its operands (the specification)."""
    yield imp(kcls(k) == CC[B.And], kval(k) == All(V, s))
    yield imp(kcls(k) == CC[B.Or], kval(k) == z3.Not(All(NV, s)))
    yield imp(kcls(k) == CC[B.Equivalence], kval(k) == z3.Not(Par(NV, s)))
    yield imp(kcls(k) == CC[B.Implies], kval(k) == impl_val(s))


# ------------------------------------------------------------------ a run: path condition and theory state
class Stats:
    checks = 0
    unknown = 0
    time = 0.0
    hits = 0


_check_cache = {}
_quick_cache = {}


class Run:
    """One symbolic execution state with its exploration machinery."""

    def __init__(self, mode=("val", "wf"), timeout=4000):
        self.mode = frozenset(mode)
        self.timeout = timeout
        self.pc = []          # path condition and definitions
        self.defs = {}        # id(S-term) -> list of segment lists
        self.sterm = {}       # id -> S-term
        self.members = {}     # id(S) -> list of F-terms
        self.dedups = []      # (d, segs): d is segs without repetitions (first occurrences)
        self.same = []        # pairs of segment lists with the same set of elements
        self.heap = {}
        self.locs = 0
        self.names = 0
        self.decisions = []
        self.pos = 0
        self.log = []         # writes to objects that existed before (frame condition)
        self.fresh_from = 0
        self.ghost = {}
        self.depth = 0
        self.limit = 4000     # paths
        self.deadline = None
        self.inexact = False
        self.paths = 0

    # -------- state
    def snapshot(self):
        return (list(self.pc), {k: list(v) for k, v in self.defs.items()}, dict(self.sterm), {k: list(v) for k, v in self.members.items()},
                list(self.same), dict(self.heap), list(self.log), dict(self.ghost), self.fresh_from, self.names, self.locs, list(self.dedups))

    def restore(self, s):
        self.pc, self.defs, self.sterm, self.members, self.same, self.heap, self.log, self.ghost = (
            list(s[0]), {k: list(v) for k, v in s[1].items()}, dict(s[2]), {k: list(v) for k, v in s[3].items()}, list(s[4]), dict(s[5]), list(s[6]), dict(s[7]))
        self.fresh_from, self.names, self.locs = s[8:11]
        self.dedups = list(s[11])

    def fresh(self, sort, hint="v"):
        self.names += 1
        return z3.Const(f"{hint}!{self.names}", sort)

    # -------- logic
    def assume(self, c):
        c = TT(c)
        if z3.is_true(c):
            return
        self.pc.append(c)

    def closure(self, goals):
        out, queue, emitted = [], [], set()
        for t in list(self.pc) + list(goals):
            n = node(t)
            if n.id not in emitted:
                emitted.add(n.id)
                out.append(n)
                queue.append(n)
        seen = set()
        at = {}          # S id -> {pred name: P}

        def emit_node(n):
            if not n.true and n.id not in emitted:
                emitted.add(n.id)
                out.append(n)
                queue.append(n)

        def emit(t):
            emit_node(node(TT(t)))
        while queue:
            if len(emitted) > 30000:
                raise Unsupported("theory closure does not end")
            newp = []
            while queue:
                stack = [queue.pop()]
                while stack:
                    a = stack.pop()
                    if a.id in seen:
                        continue
                    seen.add(a.id)
                    stack.extend(a.kids)
                    if a.ge and a.kids:
                        continue
                    for x in context_free_axioms(a, self.mode):
                        emit_node(x)
                    if a.sid is not None and (a.name in _pinfo or a.name in ("len", "Distinct", "CompFree", "ImpVal")):
                        newp.append((a.kids[0].t, a.name))
            for s, n in newp:
                self._seq_axioms(s, n, at, emit)
        return out

    def _seq_axioms(self, s, n, at, emit):
        here = at.setdefault(s.get_id(), {})
        if n in here:
            return
        segss = self.defs.get(s.get_id(), [])
        if n == "len":
            here[n] = None
            L = slen(s)
            emit(L >= 0)
            for segs in segss:
                emit(L == self.len_segs(segs))
            for m, P in list(here.items()):
                if P is not None:
                    self._len_link(s, m, P, emit)
            return
        if n in ("Distinct", "CompFree", "ImpVal"):
            here[n] = None
            for segs in segss:
                v = self.rel_segs(n, segs)
                if v is not None:
                    emit({"Distinct": dist, "CompFree": cfree, "ImpVal": impl_val}[n](s) == v)
            for a, b in self.same:
                pass
            return
        kind, P = _pinfo[n]
        here[n] = P
        f = _preds[(kind, P.get_id())]
        app = f(s)
        if kind == "all":
            for segs in segss:
                emit(app == self.all_segs(lambda v: P if False else inst(P, v), segs))
            emit(imp(slen(s) == 0, app))
            self._len_link(s, n, P, emit)
            for e in self.members.get(s.get_id(), []):
                emit(imp(app, inst(P, e)))
            for d, segs in self.subs(s):
                x = All(P, d)
                if not z3.is_true(x):
                    emit(x == self.all_segs(lambda v: inst(P, v), segs))
            # witness of the negation; every other predicate is instantiated at it
            if self._wdepth(s) < 2:
                w = z3.Const(f"w<{n}|{s}>", F)
                emit(imp(z3.Not(app), z3.And(z3.Not(inst(P, w)), slen(s) >= 1)))
                for m, Q in list(here.items()):
                    if Q is not None and m != n and _pinfo[m][0] == "all":
                        emit(imp(z3.And(slen(s) >= 1, All(Q, s)), inst(Q, w)))
                        w2 = z3.Const(f"w<{m}|{s}>", F)
                        emit(imp(z3.And(slen(s) >= 1, app), inst(P, w2)))
            for A, Bs in self.same:
                ids = {g[1].get_id() for g in list(A) + list(Bs) if g[0] == "c"}
                if s.get_id() in ids and key_invariant(P):
                    emit(self.all_segs(lambda v: inst(P, v), A) == self.all_segs(lambda v: inst(P, v), Bs))
        elif kind == "par":
            for segs in segss:
                emit(app == self.par_segs(lambda v: inst(P, v), segs))
            emit(imp(slen(s) == 0, z3.Not(app)))
            emit(imp(All(z3.Not(P), s), z3.Not(app)))
        elif kind in ("fst", "lst"):
            for segs in segss:
                emit(app == self.first_segs(lambda v: inst(P, v), segs, kind == "lst"))
            emit((app == 0) == All(P == 0, s))
            for m, Q in list(here.items()):
                if Q is not None and m != n and _pinfo[m][0] == kind:
                    emit(imp(All(P == Q, s), app == _preds[(kind, Q.get_id())](s)))
            for d, segs in self.subs(s):
                emit(First(P, d, kind == "lst") == self.first_segs(lambda v: inst(P, v), segs, kind == "lst"))
            if kind == "fst" and (key_invariant(P) or P.get_id() in set_like):
                for d, z in self.dedups:
                    ids = {g[1].get_id() for g in z if g[0] == "c"} | {d.get_id()}
                    if s.get_id() in ids:
                        emit(First(P, d) == self.first_segs(lambda v: inst(P, v), z))
        elif kind == "cnt":
            emit(z3.And(app >= 0, app <= slen(s), (app == 0) == All(z3.Not(P), s)))
            for segs in segss:
                emit(app == z3.Sum([z3.If(inst(P, g[1]), 1, 0) if g[0] == "e" else Cnt(z3.And(g[3], z3.substitute(P, (GE, g[4]))), g[1]) for g in segs] + [z3.IntVal(0)]))

    def subs(self, s):
        """Sequences defined as a filtered copy of s."""
        i = s.get_id()
        return [(self.sterm[k], segs) for k, v in self.defs.items() for segs in v
                if len(segs) == 1 and segs[0][0] == "c" and segs[0][4] is GE and segs[0][1].get_id() == i]

    def _wdepth(self, s):
        return str(s).count("w<")

    def _len_link(self, s, n, P, emit):
        pass

    # -------- segments.  ('e', value) | ('c', S-term, reversed, guard(_e), value(_e))
    def seg(self, s):
        return ("c", s, False, z3.BoolVal(True), GE)

    def all_segs(self, P, segs):
        out = []
        for g in segs:
            if g[0] == "e":
                out.append(TT(P(g[1])))
            else:
                out.append(All(imp(g[3], TT(P(g[4]))), g[1]))
        return z3.And(out) if out else z3.BoolVal(True)

    def par_segs(self, P, segs):
        r = z3.BoolVal(False)
        for g in segs:
            r = z3.Xor(r, TT(P(g[1])) if g[0] == "e" else Par(z3.And(g[3], TT(P(g[4]))), g[1]))
        return r

    def first_segs(self, P, segs, last=False):
        """First non-zero value of P over a concatenation (last=True: of the reversed sequence)."""
        r = z3.IntVal(0)
        for g in (segs if last else list(segs)[::-1]):
            v = P(g[1]) if g[0] == "e" else First(z3.If(g[3], P(g[4]), 0), g[1], bool(g[2]) != last)
            r = v if z3.is_int_value(r) and r.as_long() == 0 else z3.If(v != 0, v, r)
        return r

    def len_segs(self, segs):
        out = z3.IntVal(0)
        for g in segs:
            out = out + (1 if g[0] == "e" else Cnt(g[3], g[1]))
        return z3.simplify(out)

    def rel_segs(self, n, segs):
        """Distinct / CompFree / value of the implication chain of a concatenation (None: not expressible)."""
        plain = all(g[0] == "e" or (z3.is_true(g[3]) and g[4] is GE) for g in segs)
        if n == "ImpVal":
            if not plain or not segs:
                return None
            *init, last = segs
            if last[0] != "e":
                if last[2]:
                    return None
                r = impl_val(last[1])
                if init:   # only when the last segment is not empty
                    r = z3.Or(z3.Not(self.all_segs(lambda v: kval(key(v)), init)), r)
                    less = self.rel_segs(n, init)
                    return z3.If(slen(last[1]) >= 1, r, less if less is not None else z3.Bool(f"imp?{segs}"))
                return r
            return imp(self.all_segs(lambda v: kval(key(v)), init), kval(key(last[1])))
        if not all(g[0] == "e" or g[4] is GE for g in segs):
            return None
        base = dist if n == "Distinct" else cfree
        out = []
        for i, g in enumerate(segs):
            if g[0] == "c":
                if not z3.is_true(g[3]):
                    # a subsequence of a distinct sequence is distinct; the converse is lost
                    return None
                if i > 0 and any(h[0] == "c" for h in segs[:i]):
                    return None
                out.append(base(g[1]))
                before = segs[:i]
                for h in before:
                    out.append(self._apart(n, h[1], [g]))
            else:
                out.append(self._apart(n, g[1], [h for h in segs[:i]]))
                if n == "CompFree":
                    pass
        return z3.And(out) if out else z3.BoolVal(True)

    def _apart(self, n, e, segs):
        if n == "Distinct":
            return self.all_segs(lambda v: key(v) != key(e), segs)
        return self.all_segs(lambda v: key(v) != negk(key(e)), segs)

    # -------- checks
    def check(self, *goals):
        """sat / unsat / unknown of the path condition with the goals."""
        if self.deadline and (time.process_time() > self.deadline[0] or time.time() > self.deadline[1]):
            raise Unsupported("time limit of the obligation")
        goals = [TT(g) for g in goals]
        quick = (self.mode, tuple(t.get_id() for t in self.pc), tuple(g.get_id() for g in goals), self.theory_sig())
        r = _quick_cache.get(quick)
        if r is not None:
            Stats.hits += 1
            return r
        _keep.extend(self.pc)
        _keep.extend(goals)
        ts = self.closure(goals)
        k = frozenset(t.id for t in ts)
        r = _check_cache.get(k)
        if r is not None:
            Stats.hits += 1
            _quick_cache[quick] = r
            return r
        t0 = time.time()
        s = z3.Solver()
        s.set("timeout", self.timeout)
        s.add(*[n.t for n in ts])
        r = str(s.check())
        Stats.checks += 1
        Stats.time += time.time() - t0
        if r == "unknown":
            Stats.unknown += 1
        _check_cache[k] = _quick_cache[quick] = r
        return r

    def theory_sig(self):
        """Identifies the sequence facts of the state."""
        def sg(segs):
            return tuple((g[0], g[1].get_id()) if g[0] == "e" else (g[1].get_id(), g[2], g[3].get_id(), g[4].get_id() if z3.is_expr(g[4]) else id(g[4])) for g in segs)
        return (tuple((i, tuple(sg(x) for x in v)) for i, v in self.defs.items()), tuple((sg(a), sg(b)) for a, b in self.same), tuple((d.get_id(), sg(z)) for d, z in self.dedups),
                tuple((i, tuple(e.get_id() for e in v)) for i, v in self.members.items()))

    def model(self, *goals):
        ts = self.closure([TT(g) for g in goals])
        s = z3.Solver()
        s.set("timeout", self.timeout)
        s.add(*[n.t for n in ts])
        return s.model() if s.check() == z3.sat else None

    def valid(self, c):
        c = z3.simplify(TT(c))
        if z3.is_true(c):
            return True
        return self.check(z3.Not(c)) == "unsat"

    def feasible(self):
        return self.check() != "unsat"

    def branch(self, c):
        """Decide a condition on this path, forking the exploration when both outcomes are possible."""
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        t = self.check(c) != "unsat"
        f = self.check(z3.Not(c)) != "unsat"
        if not t and not f:
            raise Infeasible()
        if t and f:
            r = self.decide(2) == 0
        else:
            r = t
        self.assume(c if r else z3.Not(c))
        return r

    def decide(self, n):
        """A choice between n alternatives (all are explored)."""
        if self.pos < len(self.decisions):
            r = self.decisions[self.pos][0]
        else:
            self.decisions.append([0, n])
            r = 0
        self.pos += 1
        return r

    def explore(self, thunk):
        """Run thunk on every path.  Returns [(outcome, value, state)]; the current state is restored."""
        start = self.snapshot()
        outer = (self.decisions, self.pos)
        results = []
        prefix = []
        base = len(self.pc)
        try:
            while True:
                self.paths += 1
                if self.paths > self.limit:
                    raise Unsupported("too many paths")
                self.decisions, self.pos = prefix, 0
                self.restore(start)
                try:
                    try:
                        v = thunk()
                        results.append(("ok", v, self.snapshot(), list(self.pc[base:])))
                    except PyRaise as e:
                        results.append(("raise", e.exc, self.snapshot(), list(self.pc[base:])))
                except Infeasible:
                    pass
                prefix = self.decisions
                del prefix[self.pos:]
                while prefix and prefix[-1][0] + 1 >= prefix[-1][1]:
                    prefix.pop()
                if not prefix:
                    return results
                prefix[-1][0] += 1
        finally:
            self.decisions, self.pos = outer
            self.restore(start)


class PyRaise(Exception):
    """An exception of the interpreted program."""

    def __init__(self, exc, args=()):
        self.exc = exc      # exception class
        self.xargs = args
        super().__init__(getattr(exc, "__name__", str(exc)))
