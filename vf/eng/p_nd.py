"""C10, C11, C12: the natural deduction checker.

Texts.  The checker compares texts.  The meaning of a formula is a function of its text (unique readability), so the truth of a formula x
in an assignment is sv(strf(x), assignment).  An assignment is an array from names (texts of variables and constants) to elements of the domain.

Soundness has two layers, both on the real code:
- every rule handler, run on an arbitrary conclusion and an arbitrary list of lines that follow from the assumptions in scope, accepts only
  conclusions that follow from them (for an arbitrary assignment);
- check_proof, with one arbitrary iteration of its loop over an arbitrary proof and an arbitrary map of the lines in scope, keeps the
  invariant "every line in scope follows from the assumptions in scope"."""
import ast

from .verify import *  # noqa: F401,F403
from .verify import I, z3, TT
from . import core, idioms
from .core import NARY, UNARY, QUANT, CLASSES, trigger, inst
from .interp import MISSING, NON, Builtin

N = ND.NaturalDeduction
RULE = ND.NaturalDeductionRule
RULES = list(RULE)
TERMS = [c for c in CLASSES if issubclass(c, FOL.Term)]
ATOMIC_T = [c for c in TERMS if c in (FOL.Variable, FOL.Constant)]
FORM = [c for c in CLASSES if c not in TERMS]
WITH_TERMS = [c for c in CLASSES if c in (FOL.Predicate, FOL.Function)]
NAMED = [c for c in CLASSES if c in (FOL.Predicate, PL.Atomic)] + TERMS
HC = B._HashConsing.__call__
D = z3.DeclareSort("D")
Sig = z3.ArraySort(Str, D)
sv = z3.Function("sv", Str, Sig, BOOL)
tv = z3.Function("tv", Str, Sig, D)
kind = z3.Function("kind", Str, INT)       # 1 formula, 2 term, 3 list
tcls = z3.Function("tcls", Str, Cls)
replf = z3.Function("replf", F, F, F, F)
findt = z3.Function("findt", F, F, BOOL)
capf = z3.Function("capf", F, F, F, BOOL)
safe = z3.Function("safe", F, F, F, BOOL)
LIST = ND.NaturalDeductionProof


def isform(x):
    return in_cls(key(x), FORM)


def isterm(x):
    return in_cls(key(x), TERMS)


def ev(x, s):
    """Value of a term."""
    return z3.If(in_cls(key(x), ATOMIC_T), z3.Select(s, strf(x)), tv(strf(x), s)) if ATOMIC_T else tv(strf(x), s)


class W:
    """What is known about the values of one run."""

    def __init__(self, it):
        self.it, self.run = it, it.run
        self.seen, self.made, self.replaced, self.quants = [], [], [], []
        self.boxes, self.found = [], []
        self.find_q = lambda i, t, src: unsupported("search in an abstract collection")
        self.ids = set()

    def sf(self, hint, cs=None):
        x = self.run.fresh(F, hint)
        if cs is not None:
            self.run.assume(in_cls(key(x), cs))
        self.know(x)
        return x

    def know(self, x):
        """Facts about the text of x and the kinds of its parts."""
        if x.get_id() in self.ids:
            return SF(x)
        self.ids.add(x.get_id())
        self.seen.append(x)
        self.run.assume(kind(strf(x)) == z3.If(isterm(x), z3.IntVal(2), z3.IntVal(1)))
        self.run.assume(tcls(strf(x)) == kcls(key(x)))
        return SF(x)

    def parts(self, x):
        """Well-formedness of the parts of x (C13, C16)."""
        r, k = self.run, key(x)
        for p, cs in zip(part, ([c for c in TERMS if c is FOL.Variable], FORM)):
            if QUANT:
                r.assume(imp(in_cls(k, QUANT), in_cls(key(p(x)), cs)))
        r.sterm[ops(x).get_id()] = ops(x)
        r.assume(imp(in_cls(k, NARY), All(isform(GE), ops(x))))
        if WITH_TERMS:
            r.assume(imp(in_cls(k, WITH_TERMS), All(isterm(GE), ops(x))))
        r.assume(imp(in_cls(k, UNARY), isform(arg(x))))


def attributes(it, w):
    run = it.run

    def missing(i, v, name):
        h = i.attrs.pop(name)
        try:
            return i.getattr(v, name)
        finally:
            i.attrs[name] = h

    def operands(i, v):
        k = key(v.t)
        if run.branch(in_cls(k, NARY)):
            w.parts(v.t)
            return Tup([run.seg(ops(v.t))])
        if WITH_TERMS and run.branch(in_cls(k, WITH_TERMS)):
            w.parts(v.t)
            return i.new_list([run.seg(ops(v.t))])
        if QUANT and run.branch(in_cls(k, QUANT)):
            w.parts(v.t)
            return Tup([("e", w.know(p(v.t))) for p in part])
        return noattr("operands")

    def noattr(name):
        raise PyRaise(AttributeError, (name,))

    def argument(i, v):
        if run.branch(in_cls(key(v.t), UNARY)):
            w.parts(v.t)
            return w.know(arg(v.t))
        return noattr("argument")

    def of_quant(n):
        def f(i, v):
            if QUANT and run.branch(in_cls(key(v.t), QUANT)):
                w.parts(v.t)
                return w.know(part[n](v.t))
            return noattr("variable")
        return f

    def name(i, v):
        if run.branch(in_cls(key(v.t), NAMED)):
            if ATOMIC_T:
                run.assume(imp(in_cls(key(v.t), ATOMIC_T), strf(v.t) == kname(key(v.t))))
            return SStr([kname(key(v.t))])
        return noattr("name")
    it.attrs.update({"operands": operands, "argument": argument, "variable": of_quant(0), "formula": of_quant(1), "name": name,
                     "logic": lambda i, v: SLg(klg(key(v.t)))})

    def to_str(i, v, r):
        t = i.formula_term(v) if isinstance(v, SF) else None
        if t is None or r:
            raise Unsupported("text of a new object")
        w.know(t)
        return SStr([strf(t)])
    it.str_formula = to_str
    getattr0 = it.getattr

    def getattr_(v, name, default=MISSING):
        if isinstance(v, SF) and default is not MISSING and name in it.attrs:
            try:
                return getattr0(v, name)
            except PyRaise as e:
                if e.exc is AttributeError:
                    return default
                raise
        return getattr0(v, name, default)
    it.getattr = getattr_


def constructors(it, w):
    """Contract of the boolean constructors (C01, C13): the value of the result, or an exception for operands that are not formulas."""
    run = it.run
    OPC = {B.And, B.Or, B.Not, B.Implies, B.Equivalence}

    def mk(i, c, segs):
        for g in segs:
            if g[0] == "e":
                if not isinstance(g[1], SF):
                    if isinstance(g[1], I.Ref):
                        raise Unsupported("operand made here")
                    raise PyRaise(ValueError)
                if not run.branch(isform(g[1].t)):
                    raise PyRaise(ValueError)
        zs = i.zsegs(segs)
        for g in zs:
            if g[0] == "c" and not run.branch(All(imp(g[3], isform(g[4])), g[1])):
                raise PyRaise(ValueError)
        r = w.sf("made", FORM)
        w.made.append((r, c, zs))
        return SF(r)

    def hc(i, a, k):
        c = a[0]
        segs = []
        for x in a[1:]:
            segs += list(x[1]) if isinstance(x, tuple) and len(x) == 2 and x[0] == "*segs" else [("e", x)]
        if c in OPC and not k:
            if any(g[0] == "q" for g in segs):
                raise Unsupported("operands")
            if c is B.Not and not (len(segs) == 1 and segs[0][0] == "e"):
                raise Unsupported("operands of a negation")
            return mk(i, c, segs)
        if c in QUANT and len(segs) == 2 and all(g[0] == "e" and isinstance(g[1], SF) for g in segs) and not k:
            v, p = segs[0][1].t, segs[1][1].t
            if not run.branch(z3.And(in_cls(key(v), [FOL.Variable]), isform(p))):
                raise PyRaise(ValueError)
            r = w.sf("quant", [c])
            run.assume(z3.And(strf(part[0](r)) == strf(v), strf(part[1](r)) == strf(p)))
            w.know(part[0](r)), w.know(part[1](r))
            w.made.append((r, c, i.zsegs(segs)))
            w.quants.append(r)
            return SF(r)
        if c in (B.TrueFormula, B.FalseFormula):
            r = w.sf("const", [c])
            run.assume(klg(key(r)) == i.logic_term(a[1] if len(a) > 1 else k.get("logic", Logic.PL)))
            return SF(r)
        return i.type_call(c, list(a[1:]), k)
    for m in {type(c).__call__ for c in CLASSES}:
        if hasattr(m, "__code__"):
            it.contracts[m] = hc

    def with_terms(c):
        def f(i, a, k):
            """A predicate or function over a list of terms."""
            if k or len(a) != 2:
                raise Unsupported("construction of a term")
            if not (isinstance(a[0], (SStr, str))):
                raise Unsupported("name")
            segs = i.zsegs(i.segs_of(a[1]))
            r = w.sf("made", [c])
            w.made.append((r, c, segs))
            w.names[r.get_id()] = a[0]
            return SF(r)
        return f
    w.names = {}
    for c in WITH_TERMS:
        it.contracts[c] = with_terms(c)
    bin_ = lambda c: (lambda i, x, y: two(i, c, x, y))

    def two(i, c, x, y):
        if not run.branch(isform(x.t)):
            raise PyRaise(TypeError)
        return mk(i, c, [("e", x), ("e", y)])
    it.attrs["__and__"] = bin_(B.And)
    it.attrs["__or__"] = bin_(B.Or)

    def rshift(i, x, y):
        if not run.branch(isform(x.t)):
            raise PyRaise(TypeError)
        return mk(i, B.Or, [("e", mk(i, B.Not, [("e", x)])), ("e", y)])
    it.attrs["__rshift__"] = rshift

    def invert(i, x):
        if not run.branch(isform(x.t)):
            raise PyRaise(TypeError)
        return mk(i, B.Not, [("e", x)])
    it.attrs["__invert__"] = invert
    typecall0 = it.type_call
    return mk


def conn(run, c, segs, s):
    """Truth value of a connective from the values of its operands."""
    v = lambda e: sv(strf(e), s)
    if c is B.And:
        return run.all_segs(v, segs)
    if c is B.Or:
        return z3.Not(run.all_segs(lambda e: z3.Not(v(e)), segs))
    if c is B.Not:
        return z3.Not(v(segs[0][1]))
    if c is B.Equivalence:
        return z3.Not(run.par_segs(lambda e: z3.Not(v(e)), segs))
    if c is B.Implies and all(g[0] == "e" for g in segs):
        return z3.Or([z3.Not(v(g[1])) for g in segs[:-1]] + [v(segs[-1][1])])
    return None


# ------------------------------------------------------------------ lines, boxes and argument lists
def rule_val(code):
    """The rule of a line: one of the 21 rules or something else."""
    def eq(i, o):
        if isinstance(o, RULE):
            return SB(code == RULES.index(o))
        if isinstance(o, I.Opq):
            raise Unsupported("comparison of rules")
        return False
    return I.Opq("rule", {"eq": eq, "is": eq, "hash": True})


def just_val(w, code, refs=None):
    """A justification: the rule and an arbitrary list of references."""
    rule = rule_val(code)

    def getitem(i, k):
        if k == 0:
            return rule
        raise Unsupported("reference")

    def slice_(i, lo, hi, st):
        if lo == 1 and hi is None and st is None and refs is not None:
            return refs
        raise Unsupported("slice of a justification")

    def it_(i):
        raise Unsupported("unpacking of a justification")
    return I.Opq("justification", {"getitem": getitem, "slice": slice_, "iter": it_, "cls": tuple})


class Source:
    """An abstract collection whose members are obtained one at a time (as in the segment ('q', source))."""

    witness = False     # any / all: look at the element that decides

    def __init__(self, elem, universal=None, transforms=()):
        self.elem0, self.universal0, self.transforms = elem, universal, transforms

    def elem(self, i):
        """A generic member (Infeasible when it does not pass the filters)."""
        v = self.elem0(i)
        for body in self.transforms:
            ok, v = body(i, v)
            if not ok:
                raise Infeasible()
        return v

    def map(self, body):
        r = Source(self.elem0, self.universal0, transforms=self.transforms + (body,))
        r.witness = self.witness
        return r

    def quantify(self, i, is_all, body):
        """any / all: on the outcome that is about all members, every known and future member satisfies it."""
        if i.run.decide(2) == 0:
            def fact(v):
                for b in self.transforms:
                    ok, v = b(i, v)
                    if not ok:
                        return
                ok, v = body(i, v)
                if ok:
                    t = TT(i.truth(v))
                    i.run.assume(t if is_all else z3.Not(t))
                    if not i.run.feasible():
                        raise Infeasible()
            if self.universal0:
                self.universal0(fact)
            return is_all
        if self.witness:
            ok, v = body(i, self.elem(i))
            if not ok:
                raise Infeasible()
            t = TT(i.truth(v))
            i.run.assume(z3.Not(t) if is_all else t)
            if not i.run.feasible():
                raise Infeasible()
        return not is_all

    def as_list(self, i):
        return qlist(i, self)

    def as_dict(self, i):
        def attr(i2, v, name, default):
            if name in ("values", "items", "keys"):
                n = {"values": 1, "keys": 0}.get(name)
                return Builtin(name, lambda i3, a, k: I.Opq("view", {"iter": lambda i4: [("q", self if n is None else self.map(
                    lambda i5, kv: (True, kv.segs[n][1])))]}))
            raise Unsupported(f"dict.{name}")
        return I.Opq("qdict", {"attr": attr, "cls": dict, "iter": lambda i2: [("q", self.map(lambda i5, kv: (True, kv.segs[0][1])))]})

    def value(self, i):
        return qlist(i, self)

    def front(self, i):
        raise Unsupported("unpacking of an abstract collection")

    def nonempty(self, i):
        raise Unsupported("length of an abstract collection")


def qlist(i, src):
    n = i.run.fresh(INT, "n")
    i.run.assume(n >= 0)
    got = {}

    def getitem(i2, k):
        if not isinstance(k, int) or k < 0:
            raise Unsupported("index of an abstract list")
        if not i2.run.branch(n > k):
            raise PyRaise(IndexError)
        if k not in got:
            got[k] = src.elem(i2)
        return got[k]
    return I.Opq("qlist", {"getitem": getitem, "len": lambda i2: SI(n), "truth": lambda i2: n > 0, "cls": list, "iter": lambda i2: [("q", src)]})


def arglist(w, line, off=0, st=None):
    """The lines that a justification refers to, in order; line(k) is the k-th one."""
    run = w.run
    if st is None:
        n = run.fresh(INT, "nargs")
        run.assume(n >= 0)
        st = (n, {})
    n, got = st

    def getitem(i, k):
        if not isinstance(k, int):
            raise Unsupported("index of the arguments")
        if k < 0:
            raise Unsupported("arguments from the end")
        if not run.branch(n > k + off):
            raise PyRaise(IndexError)
        if k + off not in got:
            got[k + off] = line(k + off)
        return got[k + off]

    class Args(Source):
        def value(self, i):
            return I.Opq("args", {"getitem": getitem, "len": lambda i2: SI(n - off), "truth": lambda i2: n > off, "cls": tuple, "iter": lambda i2: [("q", self)],
                                  "slice": lambda i2, lo, hi, step: arglist(w, line, off + lo, st).value(i2) if isinstance(lo, int) and lo >= 0 and hi is None and
                                  step is None else unsupported("slice of the arguments")})

        def front(self, i):
            if not run.branch(n > off):
                return []
            return [("e", getitem(i, 0)), ("q", arglist(w, line, off + 1, st))]
    return Args(lambda i: line(None))


def unsupported(s):
    raise Unsupported(s)


TXT = [0]


class Box:
    """A list of lines that the checker accepted, or is to check."""

    def __init__(self, w, valid=True):
        run = w.run
        self.w, self.valid = w, valid
        self.n = run.fresh(INT, "len")
        run.assume(self.n >= 0)
        self.lines = []            # (position, content, rule code)
        self.facts = []
        self.hasA = run.fresh(BOOL, "hasA")
        self.pA = run.fresh(INT, "pA")
        self.contentA = None
        self.txt = run.fresh(Str, "listtext")
        run.assume(kind(self.txt) == 3)
        src = Source(lambda i: self.line(i, self.some(i)), self.universal)
        src.witness = True
        self.val = I.Opq("box", {"cls": LIST, "getitem": self.getitem, "iter": lambda i: [("q", src)], "str": lambda i, r: SStr([self.txt]),
                                 "len": lambda i: SI(self.n), "truth": lambda i: self.n > 0, "binop": self.binop, "eq": lambda i, o: False,
                                 "attr": self.attr, "is": lambda i, o: False})
        self.val.box = self
        self.val.given = True
        w.boxes.append(self)

    def attr(self, i, v, name, default):
        if default is not MISSING and not hasattr(list, name):
            return default
        raise Unsupported(f"list.{name}")

    def binop(self, i, n, a, b):
        raise PyRaise(TypeError, ("list operand",))

    def some(self, i):
        p = i.run.fresh(INT, "p")
        i.run.assume(z3.And(p >= 0, p < self.n))
        return p

    def getitem(self, i, k):
        if not isinstance(k, int):
            raise Unsupported("index of a box")
        p = z3.IntVal(k) if k >= 0 else self.n + k
        if not i.run.branch(z3.And(p >= 0, p < self.n)):
            raise PyRaise(IndexError)
        return self.line(i, p)

    def line(self, i, p):
        run = i.run
        for q, c, code in self.lines:
            if run.branch(p == q):
                return self.triple(q, c, code)
        if self.valid and run.branch(z3.And(self.hasA, p == self.pA)):
            # the line that opens the box: the only assumption
            c = SF(self.w.sf("assumed", FORM))
            code = z3.IntVal(RULES.index(RULE.assumption))
            self.contentA = c.t
        else:
            c = content(self.w, "line")
            code = run.fresh(INT, "code")
            if self.valid and isinstance(c, SF):
                # before the assumption there are only terms; every other formula has another rule
                run.assume(imp(isform(c.t), z3.And(code != RULES.index(RULE.assumption), imp(self.hasA, p > self.pA))))
        self.lines.append((p, c, code))
        for f in self.facts:
            f(self.triple(p, c, code))
        return self.triple(p, c, code)

    def triple(self, p, c, code):
        return Tup([("e", I.Opq("row")), ("e", c), ("e", just_val(self.w, code))])

    def universal(self, fact):
        self.facts.append(fact)
        for p, c, code in list(self.lines):
            fact(self.triple(p, c, code))
        if self.valid and self.w.run.branch(self.hasA):
            self.w.run.assume(z3.And(self.pA >= 0, self.pA < self.n))
            self.line(self.w.it, self.pA)


def content(w, hint):
    """A formula, a term or a list of lines."""
    if w.run.decide(2) == 0:
        return SF(w.sf(hint))
    return nested(w).val


def nested(w):
    b = Box(w, valid=False)
    w.boxes.remove(b)
    return b


# ------------------------------------------------------------------ semantic facts at points
def structure(w, x, c, s):
    """The value of x, of class c, in s from its parts."""
    run = w.run
    t = sv(strf(x), s)
    if c in NARY:
        v = conn(run, c, [run.seg(ops(x))], s)
        return t == v if v is not None else True
    if c is B.Not:
        return t == z3.Not(sv(strf(arg(x)), s))
    if c is B.TrueFormula:
        return t
    if c is B.FalseFormula:
        return z3.Not(t)
    return True


def semantics(w, points, ds):
    """Everything that is known about the values of the formulas at the points."""
    run = w.run
    for x in list(w.seen):
        for c in [c for c in (B.And, B.Or, B.Not, B.Equivalence, B.TrueFormula, B.FalseFormula) if c in CLASSES]:
            if any(z3.is_expr(p) and p.eq(kcls(key(x)) == CC[c]) for p in run.pc) or run.valid(kcls(key(x)) == CC[c]):
                w.parts(x)
                for s in points:
                    run.assume(structure(w, x, c, s))
    for r, c, segs in w.made:
        for s in points:
            if c in QUANT:
                continue
            v = conn(run, c, segs, s)
            if v is None:
                raise Unsupported("value of a new formula")
            run.assume(sv(strf(r), s) == v)


def quantified(w, xs, points, ds, skolem=True):
    """Instances of the meaning of the quantified formulas xs at the points for the elements ds; returns the new points."""
    run = w.run
    new = []
    for x in xs:
        for s in points:
            y, p = strf(part[0](x)), strf(part[1](x))
            at = lambda d: z3.Store(s, y, d)
            for d in ds:
                new.append(at(d))
                run.assume(imp(kcls(key(x)) == CC[FOL.ForAll], imp(sv(strf(x), s), sv(p, at(d)))))
                run.assume(imp(kcls(key(x)) == CC[FOL.Exists], imp(sv(p, at(d)), sv(strf(x), s))))
            if skolem:
                d = run.fresh(D, "sk")
                new.append(at(d))
                run.assume(imp(kcls(key(x)) == CC[FOL.ForAll], imp(z3.Not(sv(strf(x), s)), z3.Not(sv(p, at(d))))))
                run.assume(imp(kcls(key(x)) == CC[FOL.Exists], imp(sv(strf(x), s), sv(p, at(d)))))
                w.sk = d
    return new


# ------------------------------------------------------------------ the rule handlers
def system(it):
    return it.type_call(N, [], {})


def fname(rule):
    return f"_check_justification_{rule.name}"


def handler(rule):
    return getattr(N, fname(rule), None)


def helpers(it, w):
    """Contracts of the helpers on formulas (proved below)."""
    run = it.run

    def find(i, a, k):
        t, rest = a[1], a[2:]
        if not isinstance(t, SF) or k:
            raise Unsupported("_find_term of something else")
        w.know(t.t)
        out = []
        for x in rest:
            for g in (x[1] if isinstance(x, tuple) and len(x) == 2 and x[0] == "*segs" else [("e", x)]):
                if g[0] == "q":
                    out.append(w.find_q(i, t.t, g[1]))
                elif g[0] == "c":
                    out.append(z3.Not(All(imp(g[3], z3.Not(findt(t.t, g[4]))), g[1])))
                elif isinstance(g[1], SF):
                    w.know(g[1].t)
                    w.found.append((t.t, g[1].t))
                    out.append(findt(t.t, g[1].t))
                elif isinstance(g[1], I.Opq) and hasattr(g[1], "box"):
                    out.append(z3.BoolVal(False))
                else:
                    raise Unsupported("_find_term in something else")
        return SB(z3.simplify(z3.Or(out + [z3.BoolVal(False)])))

    def repl(i, a, k):
        if k or len(a) != 4 or not all(isinstance(x, SF) for x in a[1:]):
            raise Unsupported("_replace of something else")
        f, x, t = [v.t for v in a[1:]]
        r = replf(f, x, t)
        if not is_generic(f):
            run.assume(isform(r) == isform(f))
            w.know(r), w.know(f), w.know(x), w.know(t)
            w.replaced.append((f, x, t))
        return SF(r)

    def capt(i, a, k):
        if k or len(a) != 4 or not all(isinstance(x, SF) for x in a[1:]):
            raise Unsupported("_is_captured of something else")
        f, x, t = [v.t for v in a[1:]]
        run.assume(imp(z3.Not(capf(f, x, t)), safe(f, x, t)))
        return SB(capf(f, x, t))

    def diff(i, a, k):
        if not k and len(a) == 3 and any(isinstance(x, I.Opq) for x in a[1:]):
            return i.call(N._find_diff, a, k, bypass=True)
        if k or len(a) != 3 or not all(isinstance(x, SF) for x in a[1:]):
            raise Unsupported("_find_diff of something else")
        if not run.valid(pair_kinds(a[1].t, a[2].t)):
            raise Unsupported("_find_diff of a term and a formula")
        return diffset(w)
    for n, h in (("_find_term", find), ("_replace", repl), ("_is_captured", capt), ("_find_diff", diff)):
        if hasattr(N, n):
            it.contracts[getattr(N, n)] = h


def pair_kinds(m, n):
    """A term is only paired with a term."""
    return imp(isterm(m), isterm(n))


def diffset(w, extra=()):
    """A set of pairs that respect pair_kinds, together with the pairs of the sets `extra`."""
    run = w.run

    def elem(i):
        if extra and run.decide(2) == 1:
            raise Unsupported("members of a set made here")
        m, n = w.sf("m"), w.sf("n")
        run.assume(pair_kinds(m, n))
        return Tup([("e", SF(m)), ("e", SF(n))])

    def binop(i, op, a, b):
        if op != "BitOr":
            raise Unsupported("operation on a set of pairs")
        out = ()
        for x in (a, b):
            if isinstance(x, I.Opq) and hasattr(x, "extra"):
                out += x.extra
            elif isinstance(x, I.Ref) and i.obj(x).kind in ("set", "frozenset"):
                out += tuple(i.obj(x).data)
            else:
                raise Unsupported("operation on a set of pairs")
        return diffset(w, out)
    v = I.Opq("diffset", {"iter": lambda i: [("q", Source(elem))], "cls": set, "truth": lambda i: run.fresh(BOOL, "nonempty"), "binop": binop})
    v.extra = tuple(extra)
    return v


def is_generic(t):
    return t.eq(GE) or str(t).startswith("e!")


def setup(it):
    w = W(it)
    attributes(it, w)
    constructors(it, w)
    helpers(it, w)
    it.rewrite = idioms.statement
    return w


def accepted(it, r):
    """The line is accepted when the result of the handler is not equal to False."""
    e = it.eq(r, False)
    return z3.Not(TT(e.t if isinstance(e, SB) else e))


def box_facts(w, b, points, s0, ds):
    """The accepted box b: fresh first term, and its lines follow from the scope and its assumption."""
    run = w.run
    if not b.lines:
        return []
    L0 = z3.Function(f"scope<{b.n}>", Sig, BOOL)
    run.assume(L0(s0))
    first = [c for p, c, code in b.lines if run.valid(p == 0) and isinstance(c, SF)]
    new = []
    t = None
    if first and run.valid(isterm(first[0].t)):
        t = first[0].t
        run.assume(kcls(key(t)) != CC[FOL.Function])
        for s in [s0]:
            for d in ds:
                new.append(z3.Store(s, strf(t), d))
                run.assume(L0(new[-1]))     # nothing in the scope of the box depends on t
    for p, c, code in list(b.lines):
        run.assume(imp(b.hasA, z3.And(b.pA >= 0, b.pA < b.n)))
        if isinstance(c, SF) and run.valid(isform(c.t)):
            run.assume(imp(b.hasA, b.pA <= p))
    for p, c, code in list(b.lines):
        if not isinstance(c, SF):
            continue
        for s in points + new:
            # the assumption of the box is its line at pA, which is one of the lines we look at
            A = z3.And([imp(z3.And(b.hasA, q == b.pA), z3.And(TT(isinstance(e, SF)), sv(strf(e.t), s) if isinstance(e, SF) else False)) for q, e, _ in b.lines])
            known = z3.Or([z3.Not(b.hasA)] + [q == b.pA for q, e, _ in b.lines])
            run.assume(imp(z3.And(L0(s), isform(c.t), known, A), sv(strf(c.t), s)))
    return new


def handler_body(rule, label=None):
    def body(it):
        run = it.run
        w = setup(it)
        phi = w.sf("phi", FORM)
        s0 = run.fresh(Sig, "sigma")

        def line(k):
            if k is None:
                raise Unsupported("iteration over the arguments")
            if run.decide(2) == 0:
                x = w.sf(f"arg{k}")
                run.assume(imp(isform(x), sv(strf(x), s0)))
                return SF(x)
            b = Box(w)
            return b.val
        self = system(it)
        try:
            r = it.call(handler(rule), [self, SF(phi), ("*segs", [("q", arglist(w, line))])])
            if r is None or not isinstance(r, (bool, SB)):
                raise Unsupported(f"result {r!r}")
            acc = accepted(it, r)
        except PyRaise:
            return [("an accepted line follows from the lines it refers to", True)]
        if not run.branch(acc):
            return [("an accepted line follows from the lines it refers to", True)]
        if rule in (RULE.premise, RULE.assumption):
            return [("an accepted line follows from the lines it refers to", True)]
        goal = sv(strf(phi), s0)
        ds, points = [], [s0]
        if FOL.ForAll in CLASSES:
            qs = [x for x in w.seen if run.valid(in_cls(key(x), QUANT))]
            for f, x, t in w.replaced:
                ds.append(ev(t, s0))
            new = quantified(w, qs, [s0], ds)
            sks = [p.arg(2) for p in new]
            points += new
            for b in w.boxes:
                points += box_facts(w, b, points, s0, ds + sks)
            absent = lambda t, u: z3.And(in_cls(key(t), ATOMIC_T), z3.Not(findt(t, u)))
            found = list(w.found)
            for t, u in w.found:
                if run.valid(in_cls(key(u), QUANT)):
                    # a quantified formula without t: neither the variable nor the body has it
                    body = part[1](u)
                    run.assume(imp(z3.Not(findt(t, u)), z3.And(strf(t) != strf(part[0](u)), z3.Not(findt(t, body)))))
                    found.append((t, body))
            for p in list(points):
                for f, x, t in w.replaced:
                    r = replf(f, x, t)
                    run.assume(imp(safe(f, x, t), sv(strf(r), p) == sv(strf(f), z3.Store(p, strf(x), ev(t, p)))))
                    run.assume(imp(strf(x) == strf(t), safe(f, x, t)))
                    for t2, u in found:
                        if t2.eq(t) and u.eq(f):
                            run.assume(imp(absent(t, f), safe(f, x, t)))
                for t, u in found:
                    for q in [p] + [z3.Store(p, strf(x), d) for f, x, a in w.replaced for d in sks + ds]:
                        run.assume(imp(absent(t, u), indep_at(t, u, q, sks + ds)))
        else:
            for b in w.boxes:
                box_facts(w, b, points, s0, [])
        semantics(w, points, ds)
        return [("an accepted line follows from the lines it refers to", goal)]
    return body


def indep_at(t, u, s, ds):
    """The value of u in s does not depend on the element that s gives to t."""
    out = []
    for d in ds:
        q = z3.Store(s, strf(t), d)
        out.append(z3.If(isterm(u), ev(u, q) == ev(u, s), sv(strf(u), q) == sv(strf(u), s)))
    return z3.And(out)


# ------------------------------------------------------------------ check_proof
class Done(Exception):
    """The obligation of this path is decided by these clauses."""

    def __init__(self, *clauses):
        self.clauses = list(clauses)


def row_val(hint="row"):
    return I.Opq(hint, {"eq": lambda i, o: unsupported("comparison of rows"), "cls": object})


class Refs(Source):
    """The rows that a justification names, in order."""

    def __init__(self, transforms=()):
        super().__init__(lambda i: row_val("ref"), None, transforms=transforms)

    def map(self, body):
        return Refs(self.transforms + (body,))

    def as_list(self, i):
        return I.Opq("refs", {"iter": lambda i2: [("q", self)], "cls": list})
    value = as_list


class Scope:
    """The map from rows to the lines in scope: its formulas hold in the assignment at hand, its boxes are accepted; the formula `mark`
    stands for an arbitrary premise or assumption in scope."""

    def __init__(self, w, complete=True, parent=None):
        self.w, self.run = w, w.run
        self.parent = parent
        self.complete = complete
        self.known = parent.known if parent else []         # (row, in scope, value)
        self.stored = []
        self.polluted = False
        if not hasattr(w, "mark"):
            w.mark, w.mark_row = SF(w.sf("inscope", FORM)), row_val("markrow")
            w.values = [w.mark]
        self.known_add(w.mark_row, z3.BoolVal(True), w.mark) if complete and not parent else None
        self.val = I.Opq("scope", {"cls": dict, "truth": self.truth, "len": lambda i: SI(self.size()), "contains": self.contains, "getitem": self.getitem,
                                   "setitem": self.setitem, "iter": lambda i: self.use() or [("q", Keys(self))], "attr": self.attr, "copy": self.copy,
                                   "is": lambda i, o: o is self.val, "eq": lambda i, o: unsupported("comparison of scopes")})
        self.val.scope = self
        self.n = None

    def use(self):
        if self.polluted:
            raise Unsupported("the map of the lines in scope was passed on to be changed")

    def size(self):
        if self.n is None:
            self.n = self.run.fresh(INT, "rows")
            self.run.assume(self.n >= 0)
        return self.n + len(self.stored)

    def truth(self, i):
        return self.size() > 0

    def known_add(self, row, ins, v):
        self.known.append([row, ins, v])
        return self.known[-1]

    def entry(self, k):
        if not isinstance(k, I.Opq):
            raise Unsupported("row of another kind")
        for e in self.known:
            if e[0] is k:
                return e
        return self.known_add(k, self.run.fresh(BOOL, "inscope"), None)

    def contains(self, i, k):
        self.use()
        for r, v in self.stored:
            if r is k:
                return True
        if self.stored:
            raise Unsupported("lookup after a store")
        return SB(self.entry(k)[1])

    def getitem(self, i, k):
        self.use()
        for r, v in self.stored:
            if r is k:
                return v
        if self.stored:
            raise Unsupported("lookup after a store")
        e = self.entry(k)
        if not self.run.branch(e[1]):
            raise PyRaise(KeyError)
        return self.value(e)

    def value(self, e):
        if e[2] is None:
            e[2] = SF(self.w.sf("scoped", FORM)) if self.run.decide(2) == 0 else Box(self.w).val
            self.w.values.append(e[2])
        return e[2]

    def setitem(self, i, k, v):
        self.use()
        self.stored.append((k, v))
        self.w.stores.append((self, k, v, len(self.run.pc)))
        if not any(r is k for r, *_ in self.known) or not self.run.valid(z3.Not(self.entry(k)[1])):
            self.complete = False       # a row of the scope may be lost

    def copy(self, i):
        self.use()
        if self.stored:
            raise Unsupported("copy after a store")
        return Scope(self.w, self.complete, self).val

    def attr(self, i, v, name, default):
        self.use()
        if name == "copy":
            return Builtin(name, lambda i2, a, k: self.copy(i2))
        if name == "keys":
            return Builtin(name, lambda i2, a, k: self.val)
        if name in ("values", "items"):
            pick = (lambda i2, r: (True, self.getitem(i2, r))) if name == "values" else (lambda i2, r: (True, Tup([("e", r), ("e", self.getitem(i2, r))])))
            return Builtin(name, lambda i2, a, k: I.Opq("view", {"iter": lambda i3: [("q", Keys(self, (pick,)))], "cls": list}))
        if name == "get":
            def get(i2, a, k):
                if not i2.run.branch(TT(self.truth_in(i2, a[0]))):
                    return a[1] if len(a) > 1 else None
                return self.getitem(i2, a[0])
            return Builtin(name, get)
        raise Unsupported(f"dict.{name}")

    def truth_in(self, i, k):
        c = self.contains(i, k)
        return c.t if isinstance(c, SB) else c


class Keys(Source):
    def __init__(self, scope, transforms=()):
        self.scope = scope
        super().__init__(self.row, self.mark, transforms=transforms)

    def row(self, i):
        r = row_val("key")
        self.scope.known_add(r, z3.BoolVal(True), None)
        return r

    def mark(self, fact):
        if self.scope.complete:
            fact(self.scope.w.mark_row)

    def map(self, body):
        return Keys(self.scope, self.transforms + (body,))

    def as_list(self, i):
        return I.Opq("scopelist", {"iter": lambda i2: [("q", self)], "cls": list})
    value = as_list

    def as_dict(self, i):
        """A new map made of the rows of the scope."""
        sc, run = self.scope, i.run
        if run.decide(2) == 0:
            r = self.row(i)
            v = self.through(i, r)
            if v is None:
                raise Infeasible()
            k, x = v.segs[0][1], v.segs[1][1]
            if k is not r or not any(e[0] is r and e[2] is x for e in sc.known):
                raise Unsupported("a map that is not part of the scope")
            raise Infeasible()
        v = self.through(i, sc.w.mark_row) if sc.complete else None
        return Scope(sc.w, v is not None and v.segs[0][1] is sc.w.mark_row and v.segs[1][1] is sc.w.mark, sc).val

    def through(self, i, v):
        for b in self.transforms:
            ok, v = b(i, v)
            if not ok:
                return None
        return v


class Lines:
    """A proof that is being checked: `loop` runs one arbitrary iteration, or leaves the loop at its end."""

    def __init__(self, w, goal, kinds, in_box):
        self.w, self.goal, self.kinds, self.in_box = w, goal, kinds, in_box
        self.prev = w.run.fresh(BOOL, "formula_before")
        self.prev_line = None
        self.state = None           # None, 'iteration', 'end'
        self.val = I.Opq("proof", {"cls": LIST, "loop": self.loop, "slice": self.slice, "iter": lambda i: unsupported("another pass over the proof"),
                                   "len": lambda i: unsupported("length of the proof"), "getitem": lambda i, k: unsupported("line of the proof")})
        self.val.given = True

    def slice(self, i, lo, hi, st):
        if lo in (None, 0) and st is None and hi is not None and hi is getattr(self, "index", None):
            def universal(fact):
                if i.run.branch(self.prev):
                    if self.prev_line is None:
                        self.prev_line = Tup([("e", row_val()), ("e", SF(self.w.sf("previous", FORM))), ("e", just_val(self.w, i.run.fresh(INT, "code")))])
                    fact(self.prev_line)
            src = self.earlier(Source(lambda i2: unsupported("earlier line"), universal))
            return I.Opq("prefix", {"cls": list, "iter": lambda i2: [("q", src)], "truth": lambda i2: unsupported("prefix"), "len": lambda i2: unsupported("prefix")})
        raise Unsupported("slice of the proof")

    def earlier(self, src):
        return src

    def loop(self, it, s, ctx, numbered):
        w, run = self.w, it.run
        if self.state is not None:
            raise Unsupported("another pass over the proof")
        # an arbitrary map of the lines in scope
        fr = it.obj(ctx.frame)
        d = dict(fr.data)
        empty = [n for n, v in d.items() if isinstance(v, I.Ref) and it.obj(v).kind == "dict" and it.obj(v).data == ()]
        given = [n for n, v in d.items() if isinstance(v, I.Opq) and hasattr(v, "scope")]
        names = {n.id for b in s.body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))}
        if names & set(empty + given):
            raise Unsupported("the map of the lines in scope is replaced in the loop")
        locs = {d[n].loc for n in empty}
        if len(locs) > 1:
            raise Unsupported("several maps")
        if not given or locs:
            sc = Scope(w)
        else:
            sc = d[given[0]].scope
        main = []
        for n in empty:
            d[n] = sc.val
            main.append(n)
        main += [n for n in given if d[n].scope is sc]
        carried = False
        for n in names:
            if n in d:
                carried = True
                d[n] = havoc()
        it.run.heap[ctx.frame.loc] = I.Obj(fr.kind, fr.cls, d)
        w.carried = carried
        if run.decide(2) == 1:
            self.state = "end"
            return it.block(s.orelse, ctx) if s.orelse else None
        self.state = "iteration"
        self.scope = sc
        row, content, just = self.line(it)
        t = Tup([("e", row), ("e", content), ("e", just)])
        if numbered:
            self.index = SI(run.fresh(INT, "index"))
            run.assume(self.index.t >= 0)
            t = Tup([("e", self.index), ("e", t)])
        it.assign(s.target, t, ctx)
        sig = it.block(s.body, ctx)
        if sig is None or sig[0] == "continue":
            if not all(it.obj(ctx.frame).data.get(n) is sc.val for n in main):
                raise Unsupported("the map of the lines in scope is replaced in the loop")
            if carried:
                run.inexact = True
            raise Done(*self.goal(self))
        if sig[0] == "break":
            return None
        return sig

    def line(self, it):
        w, run = self.w, it.run
        kind = self.kinds[run.decide(len(self.kinds))]
        self.kind = kind
        self.row = row_val()
        self.code = run.fresh(INT, "rule")
        run.assume(z3.And(self.code >= 0, self.code <= len(RULES)))
        self.refs = Refs()
        just = just_val(w, self.code, self.refs.as_list(it))
        if kind == "formula":
            self.content = SF(w.sf("content", FORM))
        elif kind == "term":
            self.content = SF(w.sf("content", TERMS))
        elif kind == "box":
            self.box = nested(w)
            self.content = self.box.val
            just = rule_val(z3.IntVal(RULES.index(RULE.assumption)))
        else:
            self.content = I.Opq("something", {"cls": object})
        self.justification = just
        w.content = self.content
        return self.row, self.content, just


def havoc():
    e = lambda *a: unsupported("a variable carried over from an earlier line")
    return I.Opq("carried", {k: e for k in ("truth", "eq", "is", "getitem", "iter", "len", "contains", "attr", "binop", "setitem", "slice", "str", "loop", "copy")})


def same(a, b):
    return a is b or isinstance(a, SF) and isinstance(b, SF) and a.t.eq(b.t)


def checker_setup(it, lines):
    """check_proof against the contracts of the rule handlers and of itself on a nested proof."""
    w, run = lines.w, it.run
    w.accepted, w.checked, w.stores = [], [], []

    def stub(rule):
        def f(i, a, k):
            if k or len(a) < 2:
                raise Unsupported("call of a rule")
            rest = []
            for x in a[2:]:
                rest += list(x[1]) if isinstance(x, tuple) and len(x) == 2 and x[0] == "*segs" else [("e", x)]
            d = run.decide(3)
            if d == 0:
                raise Done(*lines.args(i, rest))
            if d == 1:
                raise PyRaise(IndexError, ("from the rule",))
            acc = run.fresh(BOOL, f"accept_{rule.name}")
            w.accepted.append((rule, same(a[1], lines.content), acc))
            return SB(acc)
        return f
    for r in RULES:
        if handler(r) is not None:
            it.contracts[handler(r)] = stub(r)

    def rec(i, a, k):
        a = list(a)
        if "sound" in k and len(a) == 2:
            a.append(k.pop("sound"))
        if k or len(a) not in (2, 3):
            raise Unsupported("call of check_proof")
        sc = a[2].scope if len(a) == 3 and isinstance(a[2], I.Opq) and hasattr(a[2], "scope") else None
        if len(a) == 3 and sc is None and a[2] is not None:
            raise Unsupported("check_proof with another map")
        if run.decide(2) == 0:
            raise PyRaise(IndexError, ("from the nested proof",))
        if sc is not None and sc.parent is None:
            sc.polluted = True
        acc = run.fresh(BOOL, "accept_box")
        w.checked.append((a[1], sc, acc))
        return SB(acc)
    it.contracts[N.check_proof] = rec

    def find_q(i, t, src):
        out = [run.fresh(BOOL, "elsewhere")]

        def fact(v):
            for b in src.transforms:
                ok, v = b(i, v)
                if not ok:
                    return
            if isinstance(v, SF):
                w.found.append((t, v.t))
                out.append(findt(t, v.t))
        if src.universal0:
            src.universal0(fact)
        return z3.Or(out)
    w.find_q = find_q


def args_clause(lines):
    """A rule is applied to lines in scope only."""
    def args(i, rest):
        name = "a rule is applied to lines in scope"
        for g in rest:
            if g[0] == "e":
                if not any(same(g[1], v) for v in lines.w.values):
                    return [(name, z3.BoolVal(False), f"{g[1]!r}")]
            elif g[0] == "q":
                try:
                    v = g[1].elem(i)
                except PyRaise:
                    continue
                if not any(same(v, x) for x in lines.w.values):
                    return [(name, z3.BoolVal(False), f"{v!r}")]
            else:
                raise Unsupported("arguments of a rule")
        return [(name, True)]
    return args


def sound_goal(lines):
    """The invariant after a line that was not rejected."""
    w, run = lines.w, lines.w.run
    sc = lines.scope
    out = []
    fol = FOL.ForAll in CLASSES
    for s, k, v, at in w.stores:
        if s is sc and not same(v, lines.content):
            out.append(("only accepted lines come into scope", any(same(v, x) for x in w.values), f"{v!r}"))
        if s is sc and same(v, lines.content) and lines.kind not in ("formula", "box"):
            out.append(("only accepted lines come into scope", False, lines.kind))
    if sc.polluted:
        raise Unsupported("the map of the lines in scope was passed on to be changed")
    stored = any(s is sc and same(v, lines.content) and k is lines.row for s, k, v, at in w.stores)
    if lines.kind == "formula":
        holds = z3.Or([z3.BoolVal(False)] + [acc for r, ok, acc in w.accepted if ok and r not in (RULE.premise, RULE.assumption)])
        pre, ass = lines.code == RULES.index(RULE.premise), lines.code == RULES.index(RULE.assumption)
        allowed = z3.Or(pre, ass) if not lines.in_box else z3.And(ass, z3.Not(lines.prev))
        out.append(("a line that is not rejected was accepted by a rule, or is a premise or assumption in its place", z3.Or(holds, allowed)))
        if fol:
            out.append(("premises and assumptions stay in scope", z3.Or(z3.BoolVal(stored), holds)))
    if lines.kind == "box":
        oks = []
        for c, s, acc in w.checked:
            if c is lines.content and s is not None and (s.complete or not fol):
                oks.append(acc)
        out.append(("a box that is not rejected was checked with the lines in scope", z3.Or(oks + [z3.BoolVal(False)])))
        if fol:
            firsts = [c for p, c, code in lines.box.lines if run.valid(p == 0)]
            if not firsts:
                firsts = [lines.box.getitem(w.it, 0).segs[1][1]]
            t = firsts[0]
            if isinstance(t, SF):
                u = w.mark.t
                out.append(("the term of a box is a variable or a constant that does not occur in the premises and assumptions in scope",
                            imp(isterm(t.t), z3.And(kcls(key(t.t)) != CC[FOL.Function], z3.Not(findt(t.t, u))))))
    if fol:
        out.append(("no line in scope is lost", sc.complete))
    return out or [("nothing", True)]


def checker_body(in_box, goal, args, kinds=None):
    def body(it):
        run = it.run
        w = setup(it)
        lines = Lines(w, goal, kinds or (["formula", "box", "other"] + (["term"] if TERMS else [])), in_box)
        lines.args = args(lines)
        checker_setup(it, lines)
        self = system(it)
        a = [self, lines.val]
        if in_box:
            a.append(Scope(w).val)
        name = "the proof is rejected unless every line was accepted"
        try:
            r = it.call(N.check_proof, a, bypass=True)
        except Done as d:
            return d.clauses
        except PyRaise:
            return [(name, True)]
        if lines.state == "end":
            return [(name, True)]
        e = it.eq(r, False)
        return [(name, e.t if isinstance(e, SB) else e, f"returns {r!r}")]
    return body


def prove_checker(V_):
    for in_box in (False, True):
        V_.oblige(f"check_proof {'of a box' if in_box else 'at top level'}", "deduction.fol.nd:NaturalDeduction.check_proof",
                  checker_body(in_box, sound_goal, args_clause), mode=("nd",), seconds=200)


# ------------------------------------------------------------------ the helpers on formulas
def eqv(a, s1, b, s2):
    """The formulas (terms) a in s1 and b in s2 have the same value."""
    return z3.If(isterm(b), ev(a, s1) == ev(b, s2), sv(strf(a), s1) == sv(strf(b), s2))


def compositional(w, f, c, s1, r, s2):
    """The value of f (of class c) is determined by the values of its parts: facts that relate r in s1 and f in s2, where r is f or was
    built from parts by the constructor of c."""
    run = w.run
    w.parts(f)
    val = lambda e: eqv(e, s1, GE, s2)
    if r.eq(f):
        E = (GE, arg(f), part[0](f), part[1](f))
    else:
        hit = [m for m in w.made if m[0].eq(r)]
        if not hit or hit[0][1] is not c:
            return
        zs = hit[0][2]
        if c in QUANT:
            E = (None, None, zs[0][1], zs[1][1])
        elif c in UNARY and len(zs) == 1 and zs[0][0] == "e":
            E = (None, zs[0][1], None, None)
        elif len(zs) == 1 and zs[0][0] == "c" and zs[0][1].eq(ops(f)) and z3.is_true(zs[0][3]):
            if c in WITH_TERMS and not (isinstance(w.names[r.get_id()], SStr) and len(w.names[r.get_id()].parts) == 1 and w.names[r.get_id()].parts[0].eq(kname(key(f)))):
                return
            E = (zs[0][4], None, None, None)
        else:
            return
    same = lambda a, b: eqv(a, s1, b, s2)
    if c in NARY or c in WITH_TERMS:
        run.assume(imp(All(same(E[0], GE), ops(f)), eqv(r, s1, f, s2)))
    elif c in UNARY:
        run.assume(imp(same(E[1], arg(f)), eqv(r, s1, f, s2)))
    elif c in QUANT:
        # the same variable; some element is a witness when the values differ
        sk = run.fresh(D, "witness")
        y = strf(part[0](f))
        run.assume(imp(z3.And(strf(E[2]) == y, sv(strf(E[3]), z3.Store(s1, y, sk)) == sv(strf(part[1](f)), z3.Store(s2, y, sk))), eqv(r, s1, f, s2)))
        w.witness = sk
    elif c in ATOMIC_T:
        pass
    elif r.eq(f):
        run.assume(sv(strf(f), s1) == sv(strf(f), s2))       # a constant


def is_safe(f, x, a, s):
    """What safe(f, x, a) says in the assignment s."""
    return eqv(replf(f, x, a), s, f, z3.Store(s, strf(x), ev(a, s)))


def independent(f, t, s, d):
    return eqv(f, z3.Store(s, strf(t), d), f, s)


def over_parts(c, f, fact):
    """fact(e) for the parts e of f (of class c)."""
    if c in NARY or c in WITH_TERMS:
        return All(fact(GE), ops(f))
    if c in UNARY:
        return fact(arg(f))
    if c in QUANT:
        return fact(part[1](f))
    return z3.BoolVal(True)


def step_premise(c, f, x, a, apart):
    """When replacing x by a in f, of class c, keeps the meaning, given that of the parts; apart: a does not depend on the bound variable."""
    p = over_parts(c, f, lambda e: safe(e, x, a))
    if c in QUANT:
        y = strf(part[0](f))
        return z3.Or(y == strf(x), z3.And(p, apart))
    return p


def subject(it, c, hint="f"):
    w = setup(it)
    f = w.sf(hint)
    it.run.assume(kcls(key(f)) == CC[c])
    w.parts(f)
    return w, f


def replace_body(c, what):
    def body(it):
        run = it.run
        w, f = subject(it, c)
        x, a = w.sf("x", [FOL.Variable]), w.sf("a", TERMS)
        same_kind = lambda e: isform(replf(e, x, a)) == isform(e)
        run.assume(over_parts(c, f, same_kind))
        r = it.call(N._replace, [system(it), SF(f), SF(x), SF(a)], bypass=True)
        r = it.formula_term(r) if isinstance(r, (SF, I.Ref)) else None
        if r is None:
            return [("the result is a formula or a term", False)]
        if c in QUANT:
            for p in part:
                w.know(p(f))
            w.know(replf(part[1](f), x, a))
            run.assume(isform(replf(part[1](f), x, a)))
        s, d = run.fresh(Sig, "sigma"), run.fresh(D, "d")
        sx = z3.Store(s, strf(x), ev(a, s))
        if what == "kind":
            return [("a formula becomes a formula, a term becomes a term", isform(r) == isform(f))]
        if what in ("meaning", "self"):
            compositional(w, f, c, s, r, sx)
            pts = [s]
            if c in QUANT:
                y = strf(part[0](f))
                pts.append(z3.Store(s, y, w.witness) if hasattr(w, "witness") else s)
            for q in pts:
                run.assume(over_parts(c, f, lambda e: imp(safe(e, x, a), is_safe(e, x, a, q))))
            if c in QUANT and hasattr(w, "witness"):
                apart = ev(a, pts[-1]) == ev(a, s)
            else:
                apart = z3.BoolVal(True)
            if what == "self":
                run.assume(strf(a) == strf(x))
                run.assume(over_parts(c, f, lambda e: safe(e, x, a)))
                return [("replacing a variable by itself keeps the meaning", eqv(r, s, f, sx))]
            return [("replacing x by a has the meaning of giving x the value of a, unless a variable of a is captured",
                     imp(step_premise(c, f, x, a, apart), eqv(r, s, f, sx)))]
        if what == "unchanged":
            sd = z3.Store(s, strf(x), d)
            compositional(w, f, c, sd, f, s)
            run.assume(strf(r) == strf(f))
            hit = [m for m in w.made if m[0].eq(r)]
            if hit and hit[0][1] is c:          # equal texts of two formulas built by the same constructor have equal parts
                zs = hit[0][2]
                if c in QUANT:
                    run.assume(strf(zs[1][1]) == strf(part[1](f)))
                elif c in UNARY and zs[0][0] == "e":
                    run.assume(strf(zs[0][1]) == strf(arg(f)))
                elif len(zs) == 1 and zs[0][0] == "c" and zs[0][1].eq(ops(f)) and z3.is_true(zs[0][3]):
                    run.assume(All(strf(zs[0][4]) == strf(GE), ops(f)))
            pts = [s] + ([z3.Store(s, strf(part[0](f)), w.witness)] if c in QUANT else [])
            for q in pts:
                run.assume(over_parts(c, f, lambda e: imp(strf(replf(e, x, a)) == strf(e), z3.Or(strf(a) == strf(x), independent(e, x, q, d)))))
            return [("a formula that keeps its text does not depend on x, or a is x", z3.Or(strf(a) == strf(x), independent(f, x, s, d)))]
        if what == "text":
            run.assume(strf(replf(part[1](f), x, a)) == strf(part[1](f)))
            for m in w.made:
                if m[0].eq(r) and m[1] is c:
                    run.assume(imp(z3.And(strf(m[2][0][1]) == strf(part[0](f)), strf(m[2][1][1]) == strf(part[1](f))), strf(r) == strf(f)))
            return [("a quantified formula whose body keeps its text keeps its text", strf(r) == strf(f))]
    return body


def step(w, c, f, x, a, s):
    """The facts about _replace on f, of class c (proved by replace_body)."""
    run = w.run
    w.parts(f)
    run.assume(imp(isterm(f), safe(f, x, a)))
    apart = z3.BoolVal(True)
    if c in WITH_TERMS:
        run.assume(All(safe(GE, x, a), ops(f)))       # terms bind no variable
    if c in QUANT:
        apart = getattr(w, "apart", {}).get(f.get_id(), z3.BoolVal(False))
    run.assume(imp(step_premise(c, f, x, a, apart), safe(f, x, a)))
    run.assume(imp(strf(a) == strf(x), safe(f, x, a)))


def captured_body(c):
    def body(it):
        run = it.run
        w, f = subject(it, c)
        x, a = w.sf("x", [FOL.Variable]), w.sf("a", TERMS)
        r = it.call(N._is_captured, [system(it), SF(f), SF(x), SF(a)], bypass=True)
        t = it.truth(r)
        if run.branch(t):
            return [("replacing keeps the meaning unless it is reported", True)]
        s = run.fresh(Sig, "sigma")
        run.assume(over_parts(c, f, lambda e: imp(z3.Not(capf(e, x, a)), safe(e, x, a))))
        w.apart = {}
        d = None
        if c in QUANT:
            y, b = part[0](f), part[1](f)
            w.know(y), w.know(b), w.know(replf(b, x, a))
            # _find_term: a does not depend on the bound variable
            w.apart[f.get_id()] = z3.Not(findt(y, a))
            # _replace on the body and on f
            d = ev(a, s)
            run.assume(imp(strf(replf(b, x, a)) == strf(b), strf(replf(f, x, a)) == strf(f)))
            compositional(w, f, c, z3.Store(s, strf(x), d), f, s)
            q = z3.Store(s, strf(y), w.witness)
            run.assume(imp(strf(replf(b, x, a)) == strf(b), z3.Or(strf(a) == strf(x), independent(b, x, q, d))))
            run.assume(isform(replf(f, x, a)) == isform(f))
        step(w, c, f, x, a, s)
        return [("replacing keeps the meaning unless it is reported", z3.Or(safe(f, x, a), is_safe(f, x, a, s)))]
    return body


class Each(Source):
    """Arguments of which one arbitrary element is looked at."""

    def __init__(self, x, start, transforms=()):
        super().__init__(lambda i: x, lambda fact: fact(x), transforms=transforms)
        self.x, self.start = x, start

    def map(self, body):
        return Each(self.x, self.start, self.transforms + (body,))

    witness = True

    def quantify(self, i, is_all, body):
        if self.start[0] is not None:
            raise Unsupported("another search of the arguments")
        self.start[0] = "any"
        return super().quantify(i, is_all, body)

    def value(self, i):
        return I.Opq("each", {"iter": lambda i2: [("q", self)], "loop": self.loop, "cls": tuple})

    def loop(self, it, s, ctx, numbered):
        if numbered or self.start[0] is not None:
            raise Unsupported("loop over the arguments")
        d = it.obj(ctx.frame).data
        names = {n.id for b in s.body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))}
        if names & set(d):
            d = {**d, **{n: havoc() for n in names & set(d)}}
            fr = it.obj(ctx.frame)
            it.run.heap[ctx.frame.loc] = I.Obj(fr.kind, fr.cls, d)
        if it.run.decide(2) == 1:
            self.start[0] = "end"
            return it.block(s.orelse, ctx) if s.orelse else None
        self.start[0] = "iteration"
        it.assign(s.target, self.x, ctx)
        sig = it.block(s.body, ctx)
        if sig is None or sig[0] == "continue":
            raise Done()
        if sig[0] == "break":
            return None
        return sig


def findterm_body(c):
    def body(it):
        run = it.run
        w, u = subject(it, c, "u")
        t = w.sf("t", ATOMIC_T)
        name = "an argument in which t is not found does not depend on t, and replacing by t captures nothing in it"
        start = [None]

        def goals():
            s, d, X = run.fresh(Sig, "sigma"), run.fresh(D, "d"), w.sf("X", [FOL.Variable])
            compositional(w, u, c, z3.Store(s, strf(t), d), u, s)
            pts = [s]
            out = []
            hyp = lambda e, q: imp(z3.Not(findt(t, e)), z3.And(independent(e, t, q, d), safe(e, X, t)))
            w.apart = {}
            if c in QUANT:
                y, b = part[0](u), part[1](u)
                w.know(y), w.know(b)
                run.assume(imp(z3.Not(findt(t, y)), strf(t) != strf(y)))
                pts.append(z3.Store(s, strf(y), w.witness))
                w.apart[u.get_id()] = strf(t) != strf(y)
                out.append(("and it is not found in its parts", z3.And(strf(t) != strf(y), z3.Not(findt(t, b)))))
            for q in pts:
                run.assume(over_parts(c, u, lambda e: hyp(e, q)))
            step(w, c, u, X, t, s)
            out.append((name, z3.And(independent(u, t, s, d), safe(u, X, t))))
            if c in ATOMIC_T:
                out.append(("it is found by its text", strf(t) != strf(u)))
            return out
        try:
            r = it.call(N._find_term, [system(it), SF(t), ("*segs", [("q", Each(SF(u), start))])], bypass=True)
        except Done:
            return goals()
        if start[0] == "end":
            return [(name, True)]
        if run.branch(it.truth(r)):
            return [(name, True)]
        if start[0] == "iteration":
            return [("the search ends early only when t is found", False)]
        return goals()
    return body


def finddiff_body(c):
    def body(it):
        run = it.run
        w, x = subject(it, c, "x")
        y = w.sf("y")
        run.assume(pair_kinds(x, y))
        zip0 = I.BI[zip]
        name = "a term is only paired with a term"
        pairs = []

        def zip_(i, a, k):
            segs = [i.segs_of(v) for v in a]
            if all(g[0] == "e" for gs in segs for g in gs):
                return zip0(i, a, k)
            if k or len(a) != 2 or any(len(gs) != 1 for gs in segs):
                raise Unsupported("zip")

            def loop(it2, s, ctx, numbered):
                if numbered:
                    raise Unsupported("enumerate of zip")
                fr = it.obj(ctx.frame)
                d = dict(fr.data)
                names = idioms.changed(s.body) & set(d)
                muts = [n for n in d if isinstance(d[n], I.Ref) and it.obj(d[n]).kind == "set"]
                for n in names:
                    d[n] = diffset(w) if isset(it, d[n]) else havoc()
                if set(muts) - names:
                    raise Unsupported("a set that the loop may change")
                it.run.heap[ctx.frame.loc] = I.Obj(fr.kind, fr.cls, d)
                if run.decide(2) == 1:
                    return it.block(s.orelse, ctx) if s.orelse else None
                e = [w.sf("a"), w.sf("b")]
                for z, gs in zip(e, segs):
                    inst(run, gs[0], z)
                it.assign(s.target, Tup([("e", SF(z)) for z in e]), ctx)
                sig = it.block(s.body, ctx)
                if sig is not None and sig[0] != "continue":
                    raise Unsupported("loop over pairs that ends early")
                fr = it.obj(ctx.frame)
                out = []
                for n in names:
                    if isset(it, fr.data[n]):
                        out += good(it, fr.data[n])
                raise Done(*out)
            return I.Opq("zip", {"loop": loop, "iter": lambda i2: unsupported("zip")})
        it.contracts[zip] = zip_

        def isset(i, v):
            return isinstance(v, I.Opq) and hasattr(v, "extra") or isinstance(v, I.Ref) and i.obj(v).kind in ("set", "frozenset")

        def good(i, v):
            if isinstance(v, I.Opq) and hasattr(v, "extra"):
                es = v.extra
            elif isinstance(v, I.Ref) and i.obj(v).kind in ("set", "frozenset"):
                es = i.obj(v).data
            else:
                raise Unsupported(f"{v!r} is not a set of pairs")
            out = [(name, True)]
            for g in es:
                if g[0] != "e" or not isinstance(g[1], Tup) or len(g[1].segs) != 2 or not all(h[0] == "e" and isinstance(h[1], SF) for h in g[1].segs):
                    raise Unsupported("a set of something else")
                out.append((name, pair_kinds(*[h[1].t for h in g[1].segs])))
            return out
        try:
            r = it.call(N._find_diff, [system(it), SF(x), SF(y)], bypass=True)
        except Done as e:
            return e.clauses or [(name, True)]
        return good(it, r)
    return body


def inst(run, g, z):
    """z is an element of the segment g."""
    if g[0] == "e":
        run.assume(key(z) == key(g[1].t)) if isinstance(g[1], SF) else unsupported("element")
        return
    run.assume(z3.Not(All(GE != z, g[1])))
    for f in list(run.pc):
        pass


# ------------------------------------------------------------------ the builder of proofs
class Items(Source):
    """The items of a list from some position on."""

    def __init__(self, get, n, off=0):
        super().__init__(lambda i: unsupported("an item of a list"))
        self.get, self.n, self.off = get, n, off

    def front(self, i):
        if not i.run.branch(self.n > self.off):
            return []
        return [("e", self.get(self.off)), ("q", Items(self.get, self.n, self.off + 1))]

    def nonempty(self, i):
        return self.n > self.off

    def map(self, body):
        raise Unsupported("comprehension over a list of items")


def items(run, kinds, first=None):
    """An arbitrary list, as items obtained one by one; kinds(k): what the k-th item is."""
    n = run.fresh(INT, "items")
    run.assume(n >= 0)
    got = {}

    def get(k):
        if k not in got:
            got[k] = kinds(k)
        return got[k]
    return Items(get, n)


def builder_body(it):
    """One arbitrary iteration of the builder: the next line is added in order, with its row, content and justification; a box becomes a
    proof of its lines, the first of which has the row of the box."""
    run = it.run
    w = setup(it)
    added, boxes = [], []
    other = lambda: I.Opq("item", {"cls": object, "is": lambda i, o: False, "eq": lambda i, o: False})

    def in_box(k):
        return [lambda: SF(w.sf("item", FORM)), lambda: SF(w.sf("item", TERMS or FORM)), other][run.decide(3)]() if k < 2 else other()
    inner = items(run, in_box)
    box = None

    def kinds(k):
        nonlocal box
        if k == 1:
            d = run.decide(3 if TERMS else 2)
            if d == 1:
                box = it.new_list([("q", inner)])
                return box
            return SF(w.sf("content", [FORM, None, TERMS][d]))
        return row_val() if k == 0 else other()
    src = items(run, kinds)
    lines = ("q", Source(lambda i: unsupported("a line added before")))

    def append(i, a, k):
        if len(a) != 1 or k:
            raise Unsupported("append")
        added.append(a[0])
        return None

    def attr(i, v, name, default):
        if name == "append":
            return Builtin("append", append)
        raise Unsupported(f"list.{name} of the proof that is built")
    me = I.Opq("proof", {"cls": LIST, "attr": attr, "iter": lambda i: unsupported("the proof that is built")})

    def nested_proof(i, a, k):
        if len(a) != 1 or k:
            raise Unsupported("construction of a proof")
        r = I.Opq("nested proof", {"cls": LIST})
        boxes.append((i.segs_of(a[0]), r))
        return r
    it.contracts[LIST] = nested_proof
    proof = it.new_list([("q", src)])
    name = "every line is kept, in order"

    def suffix(v):
        if isinstance(v, I.Ref) and it.obj(v).kind in ("list", "tuple"):
            g = it.obj(v).data
        elif isinstance(v, Tup):
            g = v.segs
        else:
            return None
        return g[0][1] if len(g) == 1 and g[0][0] == "q" and isinstance(g[0][1], Items) and g[0][1].get == src.get else 0 if len(g) == 0 else None

    def whiles(v):
        return loop if isinstance(v, I.Ref) and isinstance(suffix(v), Items) and suffix(v).off == 0 else None

    def loop(it2, s, ctx):
        if added:
            raise Unsupported("lines added before the loop")
        fr = it.obj(ctx.frame)
        d = dict(fr.data)
        names = idioms.changed(s.body) & set(d) - {s.test.id}
        for n in names:
            d[n] = havoc()
        run.heap[ctx.frame.loc] = I.Obj(fr.kind, fr.cls, d)
        if not run.branch(src.n > 0):
            r = it.block(s.orelse, ctx) if s.orelse else None
            if added:
                raise Done((name, False, "a line that was not given"))
            return r
        run.assume(src.n >= 2)
        try:
            sig = it.block(s.body, ctx)
        except PyRaise as e:
            if box is None:
                raise Done((name, src.n < 3, f"raises {e}"))
            raise Done(("a box with a first line is kept", inner.n < 2, f"raises {e}"))
        if sig is not None and sig[0] != "continue":
            raise Done((name, False, "the builder stops early"))
        rest = suffix(it.obj(ctx.frame).data[s.test.id])
        if rest is None:
            raise Unsupported("the rest of the lines")
        used = 3 if box is None else 2
        ok = [(name, len(added) == 1 and isinstance(added[0], Tup) and len(added[0].segs) == 3 and all(g[0] == "e" for g in added[0].segs), f"{added}")]
        ok.append((name, (rest.off == used) if isinstance(rest, Items) else src.n == used, f"goes on at {rest}"))
        if ok[0][1]:
            r, c, j = [g[1] for g in added[0].segs]
            ok.append((name, r is src.get(0), "row"))
            if box is None:
                ok.append((name, same(c, src.get(1)) and j is src.get(2), "content and justification"))
            else:
                hit = [b for b in boxes if b[1] is c]
                ok.append(("a box is added as a proof", bool(hit) and j is RULE.assumption, f"{c} {j}"))
                if hit:
                    g = hit[0][0]
                    lead, tail = [x[1] for x in g if x[0] == "e"], [x[1] for x in g if x[0] == "q"]
                    a = inner.get(0) if lead else None
                    term = TERMS and isinstance(a, SF) and run.valid(isterm(a.t)) and isinstance(inner.get(1), SF) and run.valid(isform(inner.get(1).t))
                    head = [src.get(0), inner.get(0)]
                    if term:        # the formula that goes with the term is on the same row
                        good = [x is y or same(x, y) for x, y in zip(lead[:2] + lead[3:4], head + [src.get(0)])] if len(lead) >= 4 else [False]
                        given = lead[4:]
                    else:
                        good = [x is y or same(x, y) for x, y in zip(lead[:1], head)]
                        given = lead[1:]
                    off = tail[0].off if len(tail) == 1 and isinstance(tail[0], Items) and tail[0].get == inner.get else None if tail else len(given) + (1 if term else 0)
                    good += [x is inner.get(k + (1 if term else 0)) or same(x, inner.get(k + (1 if term else 0))) for k, x in enumerate(given)]
                    ok.append(("a box keeps its lines, in order, and starts with its row", all(good) and off == len(given) + (1 if term else 0), f"{g}"))
        raise Done(*ok)
    it.whiles = whiles
    try:
        it.call(LIST.__init__, [me, proof], bypass=True)
    except Done as e:
        return e.clauses
    return [(name, not added)]


def check_body(it):
    """check(proof) is check_proof on a new system, without lines in scope."""
    calls = []
    res = I.Opq("result")
    it.contracts[N.check_proof] = lambda i, a, k: calls.append((a, k)) or res
    proof = I.Opq("proof")
    r = it.call(N.check, [proof])
    ok = len(calls) == 1 and not calls[0][1] and (len(calls[0][0]) == 2 or len(calls[0][0]) == 3 and calls[0][0][2] is None) and calls[0][0][1] is proof
    return [("check is check_proof with no line in scope", ok and r is res)]


def prove_check(V_):
    V_.oblige("check", "deduction.fol.nd:NaturalDeduction.check", check_body, mode=("nd",), seconds=30)


def prove_builder(V_):
    V_.oblige("builder", "deduction.fol.nd:NaturalDeductionProof.__init__", builder_body, mode=("nd",), seconds=60)


def prove_helpers(V_):
    where = "deduction.fol.nd:NaturalDeduction."
    for n in ("_replace", "_is_captured", "_find_term", "_find_diff"):
        if not hasattr(N, n):
            V_.fact(f"helper {n}", where + n, False, "no helper of the expected name", undecided=True)
            return
    for c in CLASSES:
        for what in ("kind", "meaning", "self", "unchanged") + (("text",) if c in QUANT else ()):
            V_.oblige(f"_replace in {c.__name__} ({what})", where + "_replace", replace_body(c, what), mode=("nd",), seconds=60)
        if c not in TERMS:
            V_.oblige(f"_is_captured in {c.__name__}", where + "_is_captured", captured_body(c), mode=("nd",), seconds=60)
        V_.oblige(f"_find_term in {c.__name__}", where + "_find_term", findterm_body(c), mode=("nd",), seconds=60)
        V_.oblige(f"_find_diff in {c.__name__}", where + "_find_diff", finddiff_body(c), mode=("nd",), seconds=60)


def prove_handlers(V_):
    for rule in RULES:
        if handler(rule) is None:
            V_.fact(f"rule {rule.name}", "deduction.fol.nd:NaturalDeduction", False, "no handler of the expected name", undecided=True)
            continue
        V_.oblige(f"rule {rule.name}", f"deduction.fol.nd:NaturalDeduction.{fname(rule)}", handler_body(rule), mode=("nd",), seconds=120)


ASSUMED = [
    "unique readability: the class, the kind and the truth of a formula are functions of its text (C06 proves it for propositional formulas); each name is used "
    "for one kind of symbol; no propositional atom is called false or true",
    "the constructors have the meaning of their connective (C01) and accept formulas only (C13); a quantified formula has the parts it was given (C13)",
    "induction on proofs: the invariant of one arbitrary iteration of check_proof holds of every proof, and the contract of check_proof is used for the boxes inside "
    "(they are smaller); likewise induction on formulas for the helpers, whose contracts are used for the parts",
    "a rule justified by anything that is not a NaturalDeductionRule is some value that equals none of the 21 rules",
    "the semantics of a quantifier is used at the instances that the argument needs (a counterexample or witness element for each quantified formula)",
]
SOUND = ASSUMED + [
    "a box in scope is a list of lines that check_proof accepted, with a first line; a proof that the user nests by hand satisfies the same contract",
]


def prove_C10(V_):
    prove_builder(V_)
    prove_check(V_)
    prove_handlers(V_)
    prove_checker(V_)
    return V_.result(assumptions=SOUND)


def prove_C11(V_):
    prove_builder(V_)
    prove_check(V_)
    prove_helpers(V_)
    prove_handlers(V_)
    prove_checker(V_)
    return V_.result(assumptions=SOUND + [
        "formulas that _replace rebuilds are not simplified by the constructors (their operands are compared by identity), for the lemma that a formula whose text "
        "does not change does not depend on the variable"])
