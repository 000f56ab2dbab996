"""C12: the natural deduction checker accepts every correct rule application.

The texts of formulas built without simplification are functions of the texts of their parts, and determine them (unique readability).
- each rule handler returns True on every instance of its schema;
- check_proof, with one arbitrary iteration of its loop, hands the handler exactly the lines that the justification names and keeps going,
  and brings the line into scope, when the handler accepts;
- the helpers compute substitution, occurrence, capture and the differing terms as specified."""
from .p_nd import *  # noqa: F401,F403
from .p_nd import I, z3, TT, N, RULE, RULES, W, SF, SB, SI, SStr, Tup, Source, Box, Lines, Scope, Each, Done, Refs
from . import p_nd as P, idioms

con = {}


def text_of(c, texts):
    """Text of an object of class c with parts of these texts."""
    f = con.setdefault((c, len(texts)), z3.Function(f"text_{c.__name__}_{len(texts)}", *([Str] * len(texts)), Str))
    return f(*texts)


subt = z3.Function("subt", F, Str, Str, Str)        # text of the formula with one text for another, for its free occurrences
capfree = z3.Function("capfree", F, Str, Str, BOOL)
occ = z3.Function("occurs", Str, F, BOOL)
flipt = z3.Function("flipt", Str, Str)        # text of the other constant of the same logic
argt = z3.Function("argtext", Str, Str)
PLAIN = [c for c in FORM if c not in (B.Not, B.TrueFormula, B.FalseFormula)]


def setup(it):
    """As P.setup, with texts."""
    w = P.setup(it)
    run = it.run
    w.shape = {}

    def form(hint, cs=None):
        return w.sf(hint, cs or FORM)

    def mk(i, c, segs):
        for g in segs:
            if g[0] == "e" and not (isinstance(g[1], SF) and run.valid(isform(g[1].t))):
                raise Unsupported("operand that may not be a formula")
        r = form("made", [c])
        zs = i.zsegs(segs)
        w.made.append((r, c, zs))
        if all(g[0] == "e" for g in zs):
            texts = [strf(g[1]) for g in zs]
            run.assume(strf(r) == text_of(c, texts))
            w.shape[r.get_id()] = [g[1] for g in zs]
        return SF(r)
    OPC = {B.And, B.Or, B.Implies, B.Equivalence}

    def invert(i, x):
        if run.branch(in_cls(key(x.t), [B.Not])):
            return w.know(argument(x.t))
        for c, o in ((B.TrueFormula, B.FalseFormula), (B.FalseFormula, B.TrueFormula)):
            if run.branch(in_cls(key(x.t), [c])):
                r = form("const", [o])      # of the same logic
                run.assume(z3.And(flipt(strf(x.t)) == strf(r), flipt(strf(r)) == strf(x.t)))
                return SF(r)
        return neg(x)

    def neg(x):
        r = mk(it, B.Not, [("e", x)])
        run.assume(argt(strf(r.t)) == strf(x.t))
        return r

    def argument(x):
        if x.get_id() in w.shape:
            return w.shape[x.get_id()][0]
        run.assume(imp(in_cls(key(x), [B.Not]), z3.And(strf(arg(x)) == argt(strf(x)), strf(x) == text_of(B.Not, [strf(arg(x))]), isform(arg(x)))))
        w.know(arg(x))
        return arg(x)

    def hc(i, a, k):
        c = a[0]
        segs = []
        for x in a[1:]:
            segs += list(x[1]) if isinstance(x, tuple) and len(x) == 2 and x[0] == "*segs" else [("e", x)]
        if k:
            raise Unsupported("constructor")
        if c in OPC:
            return mk(i, c, segs)
        if c is B.Not and len(segs) == 1 and segs[0][0] == "e" and isinstance(segs[0][1], SF):
            return invert(i, segs[0][1])
        if c in QUANT and len(segs) == 2 and all(g[0] == "e" and isinstance(g[1], SF) for g in segs):
            v, p = segs[0][1].t, segs[1][1].t
            if not run.valid(z3.And(in_cls(key(v), [FOL.Variable]), isform(p))):
                raise Unsupported("parts of a quantified formula")
            r = form("quant", [c])
            run.assume(strf(r) == text_of(c, [strf(v), strf(p)]))
            w.made.append((r, c, i.zsegs(segs)))
            w.shape[r.get_id()] = [v, p]
            return SF(r)
        raise Unsupported(f"constructor {c.__name__}")
    for m in {type(c).__call__ for c in CLASSES}:
        if hasattr(m, "__code__"):
            it.contracts[m] = hc
    it.attrs["__and__"] = lambda i, x, y: mk(i, B.And, [("e", x), ("e", y)])
    it.attrs["__or__"] = lambda i, x, y: mk(i, B.Or, [("e", x), ("e", y)])
    it.attrs["__invert__"] = invert
    it.attrs["__rshift__"] = lambda i, x, y: mk(i, B.Or, [("e", invert(i, x)), ("e", y)])
    shaped = dict(it.attrs)

    def by_shape(name, f):
        h = shaped[name]

        def g(i, v):
            s = w.shape.get(v.t.get_id())
            if s is None:
                return h(i, v)
            return f(s)
        it.attrs[name] = g

    by_shape("operands", lambda s: Tup([("e", w.know(x)) for x in s]))
    by_shape("variable", lambda s: w.know(s[0]))
    by_shape("formula", lambda s: w.know(s[1]))
    arg0 = shaped["argument"]
    it.attrs["argument"] = lambda i, v: w.know(argument(v.t)) if run.branch(in_cls(key(v.t), UNARY)) else arg0(i, v)
    w.neg, w.mk, w.form, w.argument = neg, mk, form, argument
    text_helpers(it, w)
    return w


def text_helpers(it, w):
    """Contracts of the helpers, on texts (proved below)."""
    run = it.run
    find0, repl0, capt0 = [it.contracts.get(getattr(N, n, None)) for n in ("_find_term", "_replace", "_is_captured")]
    if None in (find0, repl0, capt0):
        return

    def find(i, a, k):
        n = len(w.found)
        r = find0(i, a, k)
        for t, u in w.found[n:]:
            run.assume(imp(findt(t, u), occ(strf(t), u)))
        return r

    def repl(i, a, k):
        r = repl0(i, a, k)
        f, x, t = [v.t for v in a[1:]]
        if not P.is_generic(f):
            run.assume(strf(r.t) == subt(f, strf(x), strf(t)))
            run.assume(imp(strf(x) == strf(t), subt(f, strf(x), strf(t)) == strf(f)))
        return r

    def capt(i, a, k):
        r = capt0(i, a, k)
        f, x, t = [v.t for v in a[1:]]
        if not P.is_generic(f):
            run.assume(imp(r.t, z3.Not(capfree(f, strf(x), strf(t)))))
            run.assume(imp(subt(f, strf(x), strf(t)) == strf(f), capfree(f, strf(x), strf(t))))
            run.assume(imp(strf(x) == strf(t), subt(f, strf(x), strf(t)) == strf(f)))
        return r

    def diff(i, a, k):
        if k or len(a) != 3 or not hasattr(w, "instance") or not isinstance(a[1], SF) or not isinstance(a[2], SF):
            raise Unsupported("_find_diff of something else")
        f, x, t, g = w.instance
        if not (a[1].t.eq(f) and a[2].t.eq(g)):
            raise Unsupported("_find_diff of something else")
        return pairs(w, *w.instance)
    it.contracts[N._find_term], it.contracts[N._replace], it.contracts[N._is_captured] = find, repl, capt
    if hasattr(N, "_find_diff"):
        it.contracts[N._find_diff] = diff


def good_pair(m, n, x, t):
    return imp(strf(m) == x, z3.And(strf(n) == t, isterm(n)))


def pairs(w, f, x, t, g):
    """The differing terms of f and its instance g: x differs from t only, and when it does not differ the texts are the same."""
    run = w.run
    has = run.fresh(BOOL, "has")
    run.assume(imp(z3.Not(has), strf(g) == strf(f)))

    def elem(i):
        m, n = w.sf("m"), w.sf("n")
        run.assume(good_pair(m, n, x, t))
        return Tup([("e", SF(m)), ("e", SF(n))])

    def witness(i):
        m, n = w.sf("m", TERMS), w.sf("n", TERMS)
        run.assume(z3.And(strf(m) == x, strf(n) == t))
        return Tup([("e", SF(m)), ("e", SF(n))])
    src = PairSource(elem, witness, has)
    return I.Opq("diffset", {"iter": lambda i: [("q", src)], "cls": set, "truth": lambda i: unsupported("truth of a set of pairs"), "binop": lambda *a: unsupported("set")})


class PairSource(Source):
    """Pairs; `has` says whether there is one that the witness describes."""

    def __init__(self, elem, witness, has, transforms=()):
        super().__init__(elem, None, transforms)
        self.wit, self.has = witness, has

    def map(self, body):
        return PairSource(self.elem0, self.wit, self.has, self.transforms + (body,))

    def through(self, i, v):
        for b in self.transforms:
            ok, v = b(i, v)
            if not ok:
                return None
        return v

    def keys_agree(self, i):
        """Any two members that pass the filters have the same key."""
        run = i.run

        def two():
            a, b = self.elem(i), self.elem(i)
            k = [x.segs[0][1] for x in (a, b)]
            e = i.eq(k[0], k[1])
            return run.valid(e.t) if isinstance(e, SB) else e
        return all(kind == "ok" and v is True for kind, v, st, pc in run.explore(two))

    def size(self, i, keyed):
        run = i.run
        n = run.fresh(INT, "n")
        run.assume(n >= 0)
        if keyed and self.keys_agree(i):
            run.assume(n <= 1)

        def passes():
            return self.through(i, self.wit(i)) is not None
        if all(kind == "ok" and v is True for kind, v, st, pc in run.explore(passes)):
            run.assume(imp(self.has, n >= 1))

        def none():
            # without the witness no member passes
            return self.through(i, self.elem0(i)) is None
        return n

    def as_dict(self, i):
        n = self.size(i, True)
        return I.Opq("qdict", {"attr": lambda i2, v, name, d: Builtin(name, lambda i3, a, k: self.view(n, name)), "cls": dict, "len": lambda i2: SI(n),
                               "truth": lambda i2: n > 0, "iter": lambda i2: [("q", Sized(self, n, 0))]})

    def view(self, n, name):
        if name not in ("values", "keys"):
            raise Unsupported(f"dict.{name}")
        src = Sized(self, n, 1 if name == "values" else 0)
        return I.Opq("view", {"iter": lambda i: [("q", src)], "len": lambda i: SI(n), "truth": lambda i: n > 0})

    def as_list(self, i):
        return Sized(self, self.size(i, False), None).as_list(i)


class Sized(Source):
    """The keys or values of a map with n entries."""

    def __init__(self, pairs, n, which):
        super().__init__(self.one)
        self.pairs, self.n, self.which, self.got = pairs, n, which, {}

    def one(self, i):
        v = self.pairs.elem(i)
        return v if self.which is None else v.segs[self.which][1]

    def map(self, body):
        raise Unsupported("another comprehension")

    def as_list(self, i):
        def getitem(i2, k):
            if not isinstance(k, int) or k < 0:
                raise Unsupported("index")
            if not i2.run.branch(self.n > k):
                raise PyRaise(IndexError)
            if k not in self.got:
                self.got[k] = self.one(i2)
            return self.got[k]
        return I.Opq("qlist", {"getitem": getitem, "len": lambda i2: SI(self.n), "truth": lambda i2: self.n > 0, "cls": list, "iter": lambda i2: [("q", self)]})
    value = as_list


# ------------------------------------------------------------------ the schemas of the rules
def schemas():
    """rule -> [schema]; a schema makes (formula, arguments) from arbitrary metavariables."""
    out = {}

    def rule(r):
        def d(f):
            out.setdefault(r, []).append(f)
            return f
        return d

    def copy_of(w, t, hint="same"):
        """Another formula with the text of t."""
        x = w.form(hint)
        w.run.assume(strf(x) == strf(t))
        return x

    def plain(w, hint):
        return w.form(hint, PLAIN)

    def flat(w, c, *xs):
        """The constructors of & and | take operands of the same connective apart (C03): no operand is one."""
        for x in xs:
            w.run.assume(kcls(key(x)) != CC[c])

    def pair(w, c, a, b):
        flat(w, c, a, b)
        a, b = copy_of(w, a), copy_of(w, b)
        flat(w, c, a, b)
        return w.mk(w.it, c, [("e", SF(a)), ("e", SF(b))]).t

    def impl(w, a, b):
        """a >> b (a is no negation and no constant)."""
        flat(w, B.Or, b)
        b = copy_of(w, b)
        flat(w, B.Or, b)
        return w.mk(w.it, B.Or, [("e", w.neg(SF(copy_of(w, a)))), ("e", SF(b))]).t

    def box(w, first, last, term=None, second=None):
        b = NBox(w)
        b.preset(first, last, second)
        return b.val

    @rule(RULE.and_e1)
    def _(w):
        a, b = w.form("phi"), w.form("psi")
        return copy_of(w, a), [SF(pair(w, B.And, a, b))]

    @rule(RULE.and_e2)
    def _(w):
        a, b = w.form("phi"), w.form("psi")
        return copy_of(w, b), [SF(pair(w, B.And, a, b))]

    @rule(RULE.and_i)
    def _(w):
        a, b = w.form("phi"), w.form("psi")
        return pair(w, B.And, a, b), [SF(a), SF(b)]

    @rule(RULE.assumption)
    @rule(RULE.premise)
    def _(w):
        return w.form("phi"), []

    @rule(RULE.bot_e)
    def _(w):
        return w.form("phi"), [SF(w.form("false", [B.FalseFormula]))]

    @rule(RULE.copy)
    @rule(RULE.dneg_e)          # the negation of a negation is the formula itself
    @rule(RULE.dneg_i)
    def _(w):
        a = w.form("phi")
        return copy_of(w, a), [SF(a)]

    @rule(RULE.impl_e)
    def _(w):
        a, b = plain(w, "phi"), w.form("psi")
        return b, [SF(a), SF(impl(w, a, b))]

    @rule(RULE.impl_i)
    def _(w):
        a, b = plain(w, "phi"), w.form("psi")
        return impl(w, a, b), [box(w, a, b)]

    @rule(RULE.MT)
    def _(w):
        a, b = plain(w, "phi"), plain(w, "psi")
        return w.neg(SF(a)).t, [SF(impl(w, a, b)), w.neg(SF(copy_of(w, b)))]

    @rule(RULE.neg_e)
    def _(w):
        a = plain(w, "phi")
        return w.form("false", [B.FalseFormula]), [SF(a), w.neg(SF(copy_of(w, a)))]

    @rule(RULE.neg_i)
    def _(w):
        a = plain(w, "phi")
        return w.neg(SF(copy_of(w, a))).t, [box(w, a, w.form("false", [B.FalseFormula]))]

    @rule(RULE.or_e)
    def _(w):
        a, b, c = w.form("phi"), w.form("psi"), w.form("chi")
        return c, [SF(pair(w, B.Or, a, b)), box(w, copy_of(w, a), copy_of(w, c)), box(w, copy_of(w, b), copy_of(w, c))]

    @rule(RULE.or_i1)
    def _(w):
        a, b = w.form("phi"), w.form("psi")
        return pair(w, B.Or, a, b), [SF(a)]

    @rule(RULE.or_i2)
    def _(w):
        a, b = w.form("phi"), w.form("psi")
        return pair(w, B.Or, a, b), [SF(b)]
    if not QUANT:
        return out

    def quant(w, c):
        x, f = w.sf("x", [FOL.Variable]), w.form("phi")
        q = w.form("quantified", [c])
        w.run.assume(strf(q) == text_of(c, [strf(x), strf(f)]))
        w.shape[q.get_id()] = [x, f]
        return q, x, f

    def instance(w, f, x, a):
        g = w.form("instance")
        w.run.assume(strf(g) == subt(f, strf(x), strf(a)))
        w.run.assume(imp(strf(x) == strf(a), subt(f, strf(x), strf(a)) == strf(f)))
        return g

    def free_instance(w, c):
        q, x, f = quant(w, c)
        a = w.sf("a", TERMS)
        g = instance(w, f, x, a)
        w.run.assume(capfree(f, strf(x), strf(a)))
        # the text of a term that replaces x is the text of a term
        w.instance = (f, strf(x), strf(a), g)
        return q, g

    @rule(RULE.forall_e)
    def _(w):
        q, g = free_instance(w, FOL.ForAll)
        return g, [SF(q)]

    @rule(RULE.exists_i)
    def _(w):
        q, g = free_instance(w, FOL.Exists)
        return q, [SF(g)]

    @rule(RULE.forall_i)
    def _(w):
        q, x, f = quant(w, FOL.ForAll)
        a = w.sf("a", ATOMIC_T)
        w.run.assume(z3.Or(strf(a) == strf(x), z3.Not(occ(strf(a), q))))
        return q, [box(w, a, instance(w, f, x, a))]

    @rule(RULE.exists_e)
    def _(w):
        q, x, f = quant(w, FOL.Exists)
        a, c = w.sf("a", ATOMIC_T), w.form("chi")
        w.run.assume(z3.And(z3.Not(occ(strf(a), q)), z3.Not(occ(strf(a), c))))
        return copy_of(w, c), [SF(q), box(w, a, c, second=instance(w, f, x, a))]
    return out


class NBox(Box):
    """A box with a given first, second and last line."""

    def preset(self, first, last, second=None):
        run, w = self.w.run, self.w
        A = RULES.index(RULE.assumption)
        run.assume(self.n >= (3 if second is not None else 1))
        term = run.valid(isterm(first))
        if term and second is None:
            run.assume(self.n >= 2)
        run.assume(self.hasA == z3.BoolVal(not term or second is not None))
        run.assume(self.pA == (1 if term else 0))
        run.assume(imp(self.n == 1, strf(first) == strf(last)))

        def code(p):
            c = run.fresh(INT, "code")
            run.assume(imp(self.hasA, imp(self.pA == p, c == A)))
            run.assume(imp(z3.Not(z3.And(self.hasA, self.pA == p)), c != A))
            return c
        self.lines.append((z3.IntVal(0), SF(first), code(0)))
        if second is not None:
            self.lines.append((z3.IntVal(1), SF(second), code(1)))
        self.lines.append((self.n - 1, SF(last), code(self.n - 1)))


def schema_body(rule, schema):
    def body(it):
        w = setup(it)
        run = it.run
        phi, args = schema(w)
        name = "an instance of the rule is accepted"
        try:
            r = it.call(P.handler(rule), [P.system(it), SF(phi)] + args)
        except PyRaise as e:
            if not run.feasible():
                raise Infeasible()
            return [(name, False, f"raises {e}")]
        t = it.truth(r)
        e = it.eq(r, False)
        return [(name, z3.And(TT(t), z3.Not(TT(e.t if isinstance(e, SB) else e))))]
    return body


# ------------------------------------------------------------------ the helpers
def unchanged_map(w, c, f, r):
    """The elements that replace the parts of f in r, which was made by the constructor of c (None: not of that shape)."""
    hit = [m for m in w.made if m[0].eq(r)]
    if not hit or hit[0][1] is not c:
        return None
    zs = hit[0][2]
    if c in QUANT:
        return (zs[0][1], zs[1][1]) if len(zs) == 2 and all(g[0] == "e" for g in zs) else None
    if c in UNARY:
        return (zs[0][1],) if len(zs) == 1 and zs[0][0] == "e" else None
    if len(zs) == 1 and zs[0][0] == "c" and zs[0][1].eq(ops(f)) and z3.is_true(zs[0][3]):
        if c in WITH_TERMS:
            n = w.names[r.get_id()]
            if not (isinstance(n, SStr) and len(n.parts) == 1 and n.parts[0].eq(kname(key(f)))):
                return None
        return (zs[0][4],)
    return None


def subject(it, c, hint="f"):
    w = setup(it)
    f = w.sf(hint)
    it.run.assume(kcls(key(f)) == CC[c])
    w.parts(f)
    if c in UNARY:
        w.argument(f)
        # formulas are built without simplification
        it.run.assume(in_cls(key(arg(f)), PLAIN))
    if c in QUANT:
        for p in P.part[:2]:
            w.know(p(f))
    return w, f


def replace_body(c):
    def body(it):
        run = it.run
        w, f = subject(it, c)
        x, a = w.sf("x", [FOL.Variable]), w.sf("a", TERMS)
        X, A = strf(x), strf(a)
        run.assume(over_parts(c, f, lambda e: z3.And(isform(replf(e, x, a)) == isform(e), strf(replf(e, x, a)) == subt(e, X, A),
                                                     imp(in_cls(key(e), PLAIN), in_cls(key(replf(e, x, a)), PLAIN)))))
        r = it.call(N._replace, [P.system(it), SF(f), SF(x), SF(a)], bypass=True)
        r = it.formula_term(r) if isinstance(r, (SF, I.Ref)) else None
        if r is None:
            return [("the text is that of the instance", False)]
        same = lambda e: imp(X == A, subt(e, X, A) == strf(e))
        # what substitution means for this class of formulas
        if c is FOL.Variable:
            run.assume(subt(f, X, A) == z3.If(strf(f) == X, A, strf(f)))
        elif c in NARY or c in WITH_TERMS or c in UNARY or c in QUANT:
            m = unchanged_map(w, c, f, r)
            if c in QUANT:
                y, b = strf(part[0](f)), part[1](f)
                run.assume(imp(y == X, subt(f, X, A) == strf(f)))
                run.assume(imp(z3.And(y != X, subt(b, X, A) == strf(b)), subt(f, X, A) == strf(f)))
                if m:
                    run.assume(imp(z3.And(y != X, strf(m[0]) == y, strf(m[1]) == subt(b, X, A)), strf(r) == subt(f, X, A)))
            else:
                if m:
                    e = arg(f) if c in UNARY else GE
                    eq = strf(m[0]) == subt(e, X, A)
                    run.assume(imp(eq if c in UNARY else All(eq, ops(f)), strf(r) == subt(f, X, A)))
                run.assume(imp(over_parts(c, f, lambda e: subt(e, X, A) == strf(e)), subt(f, X, A) == strf(f)))
        else:
            run.assume(subt(f, X, A) == strf(f))
        run.assume(over_parts(c, f, same))
        return [("the text is that of the instance", strf(r) == subt(f, X, A)), ("replacing a variable by itself changes nothing", same(f)),
                ("the kind of formula stays", z3.And(isform(r) == isform(f), imp(in_cls(key(f), PLAIN), in_cls(key(r), PLAIN))))]
    return body


def findterm_body(c):
    def body(it):
        run = it.run
        w, u = subject(it, c, "u")
        t = w.sf("t", TERMS)
        name = "a term is only found where it occurs"
        start = [None]
        T = strf(t)
        run.assume(imp(z3.And(isterm(u), strf(u) == T), occ(T, u)))
        parts = ([part[0](u)] if c in QUANT else []) + ([part[1](u)] if c in QUANT else []) + ([arg(u)] if c in UNARY else [])
        for p in parts:
            w.know(p)
            run.assume(imp(occ(T, p), occ(T, u)))
            run.assume(imp(findt(t, p), occ(T, p)))
        if c in NARY or c in WITH_TERMS:
            run.assume(imp(z3.Not(All(z3.Not(occ(T, GE)), ops(u))), occ(T, u)))
            run.assume(All(imp(findt(t, GE), occ(T, GE)), ops(u)))
        try:
            r = it.call(N._find_term, [P.system(it), SF(t), ("*segs", [("q", Each(SF(u), start))])], bypass=True)
        except Done:
            return [(name, True)]
        if start[0] == "end":
            # every argument was passed over
            return [("nothing is reported when no argument matches", z3.Not(TT(it.truth(r))))]
        if start[0] is None:
            raise Unsupported("search of another form")
        return [(name, imp(it.truth(r), occ(T, u)))]
    return body


def captured_body(c):
    def body(it):
        run = it.run
        w, f = subject(it, c)
        x, a = w.sf("x", [FOL.Variable]), w.sf("a", TERMS)
        X, A = strf(x), strf(a)
        same = lambda e: subt(e, X, A) == strf(e)
        hyp = lambda e: z3.And(imp(capf(e, x, a), z3.Not(capfree(e, X, A))), imp(same(e), capfree(e, X, A)), imp(X == A, same(e)))
        run.assume(over_parts(c, f, hyp))
        # equal texts have parts of equal texts
        if c in QUANT:
            run.assume(imp(z3.And(same(f), strf(part[0](f)) != X), same(part[1](f))))
        elif c in NARY or c in UNARY or c in WITH_TERMS:
            run.assume(imp(same(f), over_parts(c, f, same)))
        if c in UNARY:
            run.assume(capfree(f, X, A) == capfree(arg(f), X, A))
        elif c in NARY:
            run.assume(capfree(f, X, A) == All(capfree(GE, X, A), ops(f)))
        elif c in QUANT:
            y, b = part[0](f), part[1](f)
            w.know(y), w.know(b)
            run.assume(capfree(f, X, A) == z3.Or(strf(y) == X, subt(b, X, A) == strf(b), z3.And(z3.Not(occ(strf(y), a)), capfree(b, X, A))))
        else:
            run.assume(capfree(f, X, A))
        name = "only a capture is reported"
        r = it.call(N._is_captured, [P.system(it), SF(f), SF(x), SF(a)], bypass=True)
        return [(name, imp(TT(it.truth(r)), z3.Not(capfree(f, X, A)))), ("where nothing is replaced nothing is captured", imp(same(f), capfree(f, X, A)))]
    return body


class Pairs:
    """Sets of pairs in _find_diff: `has` (a pair with x is in it) and whether all pairs are good."""


def pairset(w, has, extra=()):
    def binop(i, op, a, b):
        if op != "BitOr":
            raise Unsupported("operation on a set of pairs")
        hs, ex = [], ()
        for v in (a, b):
            if isinstance(v, I.Opq) and hasattr(v, "has"):
                hs.append(v.has)
                ex += v.extra
            elif isinstance(v, I.Ref) and i.obj(v).kind in ("set", "frozenset"):
                ex += tuple(i.obj(v).data)
            else:
                raise Unsupported("operation on a set of pairs")
        return pairset(w, z3.Or(hs), ex)
    v = I.Opq("pairs", {"cls": set, "binop": binop, "iter": lambda i: unsupported("members of a set of pairs"), "truth": lambda i: unsupported("truth of a set of pairs")})
    v.has, v.extra = has, tuple(extra)
    return v


def finddiff_body(c):
    def body(it):
        run = it.run
        w, f = subject(it, c, "f")
        g, a = w.sf("g"), w.sf("a", TERMS)
        x = w.sf("x", [FOL.Variable])
        X, A = strf(x), strf(a)
        run.assume(strf(g) == subt(f, X, A))
        run.assume(isform(g) == isform(f))
        name1, name2 = "x differs from nothing but the term put for it", "when x does not differ the formulas are the same"
        inst = []           # (part of f, part of g)
        eq_all = None
        if c is FOL.Variable:
            run.assume(subt(f, X, A) == z3.If(strf(f) == X, A, strf(f)))
            run.assume(imp(z3.And(isterm(g), strf(g) == A), kcls(key(g)) == kcls(key(a))))
        elif c in NARY or c in WITH_TERMS or c in UNARY or c in QUANT:
            # g was built from f part by part, by the same constructor
            run.assume(kcls(key(g)) == CC[c])
            w.parts(g)
            if c in QUANT:
                y, b = part[0](f), part[1](f)
                for p in (part[0](g), part[1](g), y, b):
                    w.know(p)
                run.assume(strf(part[0](g)) == strf(y))
                run.assume(imp(strf(y) == X, z3.And(subt(f, X, A) == strf(f), strf(part[1](g)) == strf(b))))
                run.assume(imp(strf(y) != X, strf(part[1](g)) == subt(b, X, A)))
                run.assume(imp(strf(part[1](g)) == strf(b), strf(g) == strf(f)))
            elif c in UNARY:
                w.argument(g)
                run.assume(strf(arg(g)) == subt(arg(f), X, A))
                run.assume(imp(strf(arg(g)) == strf(arg(f)), strf(g) == strf(f)))
            else:
                run.assume(slen(ops(g)) == slen(ops(f)))
                eq_all = run.fresh(BOOL, "equal_parts")
                run.assume(imp(eq_all, strf(g) == strf(f)))
        else:
            run.assume(subt(f, X, A) == strf(f))
            run.assume(kcls(key(g)) == CC[c])
        recs = []

        def rec(i, p, k):
            if k or len(p) != 3 or not isinstance(p[1], SF) or not isinstance(p[2], SF):
                raise Unsupported("_find_diff of something else")
            u, v = p[1].t, p[2].t
            w.know(u), w.know(v)
            same = strf(u) == strf(v)
            isinst = z3.And(strf(v) == subt(u, X, A), isform(u) == isform(v))
            has = run.fresh(BOOL, "has")
            # nothing differs in equal texts; an instance differs as specified
            if run.valid(same):
                run.assume(z3.Not(has))
            elif not run.valid(z3.Or(same, isinst)):
                raise Unsupported("_find_diff of something that is not an instance")
            else:
                run.assume(imp(z3.Not(has), same))
            recs.append((u, v, has))
            return pairset(w, has)
        it.contracts[N._find_diff] = rec
        zip0 = I.BI[zip]

        def isset(i, v):
            return isinstance(v, I.Opq) and hasattr(v, "has") or isinstance(v, I.Ref) and i.obj(v).kind in ("set", "frozenset")

        def state(i, v):
            """(x differs in it, all explicit pairs are good)"""
            if isinstance(v, I.Opq) and hasattr(v, "has"):
                has, es = v.has, v.extra
            elif isinstance(v, I.Ref) and i.obj(v).kind in ("set", "frozenset"):
                has, es = z3.BoolVal(False), i.obj(v).data
            else:
                raise Unsupported(f"{v!r} is not a set of pairs")
            ok = []
            for e in es:
                if e[0] != "e" or not isinstance(e[1], Tup) or len(e[1].segs) != 2 or not all(h[0] == "e" and isinstance(h[1], SF) for h in e[1].segs):
                    raise Unsupported("a set of something else")
                m, n = [h[1].t for h in e[1].segs]
                has = z3.Or(has, z3.And(isterm(m), strf(m) == X))
                ok.append(imp(z3.And(isterm(m), strf(m) == X), z3.And(strf(n) == A, isterm(n))))
            return has, z3.And(ok + [z3.BoolVal(True)])

        def zip_(i, p, k):
            segs = [i.segs_of(v) for v in p]
            if all(e[0] == "e" for gs in segs for e in gs):
                return zip0(i, p, k)
            ok = not k and len(p) == 2 and all(len(gs) == 1 and gs[0][0] == "c" and z3.is_true(gs[0][3]) for gs in segs)
            if not ok or not segs[0][0][1].eq(ops(f)) or not segs[1][0][1].eq(ops(g)):
                raise Unsupported("zip")

            def loop(it2, s, ctx, numbered):
                if numbered:
                    raise Unsupported("enumerate of zip")
                fr = it.obj(ctx.frame)
                d = dict(fr.data)
                names = idioms.changed(s.body) & set(d)
                if {n for n in d if isset(it, d[n])} - names:
                    raise Unsupported("a set that the loop may change")
                before = {}
                for n in names:
                    if isset(it, d[n]):
                        before[n] = run.fresh(BOOL, "before")
                        d[n] = pairset(w, before[n])
                    else:
                        d[n] = P.havoc()
                if len(before) != 1:
                    raise Unsupported("several sets of pairs")
                it.run.heap[ctx.frame.loc] = I.Obj(fr.kind, fr.cls, d)
                (nm, h0), = before.items()
                if run.decide(2) == 1:
                    # the pairs with x of every element are in it
                    run.assume(imp(z3.Not(h0), eq_all))
                    return it.block(s.orelse, ctx) if s.orelse else None
                u, v = w.sf("u"), w.sf("v")
                run.assume(z3.And(strf(v) == subt(u, X, A), isform(u) == isform(v)))
                run.assume((isform if c in NARY else isterm)(u))
                it.assign(s.target, Tup([("e", SF(u)), ("e", SF(v))]), ctx)
                sig = it.block(s.body, ctx)
                if sig is not None and sig[0] != "continue":
                    raise Unsupported("loop over pairs that ends early")
                has, ok = state(it, it.obj(ctx.frame).data[nm])
                raise Done((name1, ok), (name2, z3.And(imp(h0, has), z3.Or(has, strf(u) == strf(v)))))
            return I.Opq("zip", {"loop": loop, "iter": lambda i2: unsupported("zip")})
        it.contracts[zip] = zip_
        try:
            r = it.call(N._find_diff, [P.system(it), SF(f), SF(g)], bypass=True)
        except Done as e:
            return e.clauses
        has, ok = state(it, r)
        return [(name1, ok), (name2, z3.Or(has, strf(g) == strf(f)))]
    return body


def samediff_body(c):
    """Formulas with the same text have no differing variables."""
    def body(it):
        run = it.run
        w, f = subject(it, c, "f")
        g = w.sf("g", [c])
        run.assume(strf(f) == strf(g))
        w.parts(g)
        if c in QUANT:
            for n in (0, 1):
                w.know(part[n](g))
                run.assume(strf(part[n](f)) == strf(part[n](g)))
        if c in UNARY:
            w.argument(g)
            run.assume(strf(arg(f)) == strf(arg(g)))
        if c in NARY or c in WITH_TERMS:
            run.assume(slen(ops(f)) == slen(ops(g)))
        name = "formulas with the same text do not differ"

        def rec(i, p, k):
            if k or len(p) != 3 or not isinstance(p[1], SF) or not isinstance(p[2], SF) or not run.valid(strf(p[1].t) == strf(p[2].t)):
                raise Unsupported("_find_diff of something else")
            return it.new_set([])
        it.contracts[N._find_diff] = rec
        zip0 = I.BI[zip]

        def zip_(i, p, k):
            segs = [i.segs_of(v) for v in p]
            if all(e[0] == "e" for gs in segs for e in gs):
                return zip0(i, p, k)
            ok = not k and len(p) == 2 and all(len(gs) == 1 and gs[0][0] == "c" and z3.is_true(gs[0][3]) for gs in segs)
            if not ok or not segs[0][0][1].eq(ops(f)) or not segs[1][0][1].eq(ops(g)):
                raise Unsupported("zip")

            def loop(it2, s, ctx, numbered):
                if numbered:
                    raise Unsupported("enumerate of zip")
                d = it.obj(ctx.frame).data
                names = idioms.changed(s.body) & set(d)
                if not all(isinstance(d[n], I.Ref) and it.obj(d[n]).kind == "set" and it.obj(d[n]).data == () for n in names):
                    raise Unsupported("a variable carried over")
                if run.decide(2) == 1:
                    return it.block(s.orelse, ctx) if s.orelse else None
                u, v = w.sf("u"), w.sf("v")
                run.assume(z3.And(strf(u) == strf(v), (isform if c in NARY else isterm)(u)))
                it.assign(s.target, Tup([("e", SF(u)), ("e", SF(v))]), ctx)
                sig = it.block(s.body, ctx)
                if sig is not None and sig[0] != "continue":
                    raise Unsupported("loop over pairs that ends early")
                d = it.obj(ctx.frame).data
                raise Done((name, all(isinstance(d[n], I.Ref) and it.obj(d[n]).data == () for n in names)))
            return I.Opq("zip", {"loop": loop, "iter": lambda i2: unsupported("zip")})
        it.contracts[zip] = zip_
        try:
            r = it.call(N._find_diff, [P.system(it), SF(f), SF(g)], bypass=True)
        except Done as e:
            return e.clauses
        if not (isinstance(r, I.Ref) and it.obj(r).kind in ("set", "frozenset")):
            raise Unsupported("result")
        return [(name, it.obj(r).data == ())]
    return body


# ------------------------------------------------------------------ check_proof
def accept_args(lines):
    """The rule gets exactly the lines that the justification names, in order."""
    def args(i, rest):
        name = "the rule gets the lines that the justification names, in order"
        if len(rest) != 1 or rest[0][0] != "q" or not isinstance(rest[0][1], Refs):
            raise Unsupported("arguments of a rule")
        src = rest[0][1]
        r = P.row_val("named")
        e = lines.scope.known_add(r, z3.BoolVal(True), None)
        v = r
        try:
            for b in src.transforms:
                ok, v = b(i, v)
                if not ok:
                    return [(name, z3.BoolVal(False), "a line is left out")]
        except PyRaise as x:
            return [(name, z3.BoolVal(False), f"raises {x}")]
        return [(name, e[2] is not None and P.same(v, e[2]), f"{v!r}")]
    return args


def accept_goal(lines):
    w = lines.w
    sc = lines.scope
    if sc.polluted:
        raise Unsupported("the map of the lines in scope was passed on to be changed")
    name = "an accepted line comes into scope"
    if lines.kind == "term":
        return [(name, not w.stores or True)]
    mine = [(s, k, v) for s, k, v, at in w.stores if s is sc]
    ok = len(mine) == 1 and mine[0][1] is lines.row and P.same(mine[0][2], lines.content)
    return [(name, ok, f"{mine!r}")]


def infeasible():
    raise Infeasible()


def accept_body(in_box, kind):
    def body(it):
        run = it.run
        w = P.setup(it)
        name = "a correct line is accepted"
        wrong = []

        class Ok(Lines):
            def line(self, i):
                r = super().line(i)
                run.assume(self.code < len(RULES))
                if in_box:
                    run.assume(self.code != RULES.index(RULE.premise))
                    run.assume(imp(self.code == RULES.index(RULE.assumption), z3.Not(self.prev)))
                # the row is new
                self.scope.known_add(self.row, z3.BoolVal(False), None)
                if kind == "box":
                    run.assume(self.box.n >= 1)
                    first = self.box.getitem(i, 0).segs[1][1]
                    if isinstance(first, SF):
                        run.assume(kcls(key(first.t)) != CC[FOL.Function]) if TERMS else None
                        w.fresh_term = first.t
                return r

            def earlier(self, src):
                """Every earlier line is a term unless a formula or a box precedes."""
                def elem(i):
                    c = w.sf("earlier", FORM) if run.branch(self.prev) else w.sf("earlier", TERMS or FORM)
                    return Tup([("e", P.row_val()), ("e", SF(c)), ("e", P.just_val(w, run.fresh(INT, "code")))])
                src.elem0, src.witness = elem, True
                if not TERMS:
                    src.elem0 = lambda i: elem(i) if run.branch(self.prev) else infeasible()
                return src
        lines = Ok(w, accept_goal, [kind], in_box)
        lines.args = accept_args(lines)
        P.checker_setup(it, lines)

        def stub(rule):
            def f(i, a, k):
                rest = []
                for x in a[2:]:
                    rest += list(x[1]) if isinstance(x, tuple) and len(x) == 2 and x[0] == "*segs" else [("e", x)]
                if k or len(a) < 2:
                    raise Unsupported("call of a rule")
                if not P.same(a[1], lines.content) or not run.valid(lines.code == RULES.index(rule)):
                    raise Done(("the rule of the line is applied to it", False, rule.name))
                if run.decide(2) == 0:
                    raise Done(*lines.args(i, rest))
                return True
            return f
        for r in RULES:
            if P.handler(r) is not None:
                it.contracts[P.handler(r)] = stub(r)

        def rec(i, a, k):
            a = list(a)
            if "sound" in k and len(a) == 2:
                a.append(k.pop("sound"))
            sc = a[2].scope if len(a) == 3 and isinstance(a[2], I.Opq) and hasattr(a[2], "scope") else None
            if k or sc is None or a[1] is not lines.content:
                raise Unsupported("call of check_proof")
            if sc.parent is None:
                sc.polluted = True
            if not sc.complete or sc.stored:
                raise Done(("the lines of a box see every line in scope", False))
            return True
        it.contracts[N.check_proof] = rec

        def find_q(i, t, src):
            if not (hasattr(w, "fresh_term") and t.eq(w.fresh_term)):
                raise Unsupported("search for another term")

            def scoped():
                v = src.elem(i)
                return isinstance(v, I.Opq) or any(P.same(v, x) for x in w.values)
            if not isinstance(src, P.Keys) or not all(k2 == "ok" and v is True for k2, v, st, pc in run.explore(scoped)):
                raise Unsupported("search in something else than the lines in scope")
            return z3.BoolVal(False)        # a fresh term occurs in no line in scope
        w.find_q = find_q
        a = [P.system(it), lines.val]
        if in_box:
            a.append(Scope(w).val)
        try:
            r = it.call(N.check_proof, a, bypass=True)
        except Done as d:
            return d.clauses
        except PyRaise as e:
            if not run.feasible():
                raise Infeasible()
            return [(name, False, f"raises {e}")]
        if lines.state == "end":
            e = it.eq(r, False)
            return [("a proof with accepted lines only is accepted", z3.And(TT(it.truth(r)), z3.Not(TT(e.t if isinstance(e, SB) else e))))]
        return [(name, False, f"returns {r!r}")]
    return body


def prove_C12(V_):
    where = "deduction.fol.nd:NaturalDeduction."
    sch = schemas()
    for rule in RULES:
        if P.handler(rule) is None:
            V_.fact(f"rule {rule.name}", where[:-1], False, "no handler of the expected name", undecided=True)
            continue
        for s in sch.get(rule, []):
            V_.oblige(f"rule {rule.name}", where + P.fname(rule), schema_body(rule, s), mode=("nd",), seconds=100)
    for c in CLASSES if QUANT else ():
        n = c.__name__
        V_.oblige(f"_replace in {n}", where + "_replace", replace_body(c), mode=("nd",), seconds=60)
        V_.oblige(f"_find_term in {n}", where + "_find_term", findterm_body(c), mode=("nd",), seconds=60)
        if c not in TERMS:
            V_.oblige(f"_is_captured in {n}", where + "_is_captured", captured_body(c), mode=("nd",), seconds=60)
        V_.oblige(f"_find_diff in {n}", where + "_find_diff", finddiff_body(c), mode=("nd",), seconds=60)
        V_.oblige(f"_find_diff of equal {n}", where + "_find_diff", samediff_body(c), mode=("nd",), seconds=60)
    for in_box in (False, True):
        for kind in ["formula", "box"] + (["term"] if TERMS else []):
            V_.oblige(f"check_proof accepts ({kind}, {'in a box' if in_box else 'top level'})", where + "check_proof", accept_body(in_box, kind), mode=("nd",), seconds=120)
    P.prove_check(V_)
    P.prove_builder(V_)
    return V_.result(assumptions=P.ASSUMED[:1] + P.ASSUMED[2:4] + [
        "formulas are built by the constructors without simplification: the text of a formula is a function of the texts of its parts, and different parts give "
        "different texts; the argument of a negation is neither a negation nor a constant (C01: ~~x is x)",
        "metavariables of implications, negations and modus tollens are neither negations nor constants",
        "the term of a box is a variable or a constant that occurs in no line in scope; the instance of a quantified formula captures no variable; "
        "rows are new in scope and every reference is in scope (well-formed proofs, as in the statement)"])
