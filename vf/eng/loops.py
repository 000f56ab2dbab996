"""Loops: exact unrolling over explicit elements, inferred inductive invariants over symbolic sequences.

For a loop over a symbolic sequence (or a while loop) the invariant is the conjunction of the candidate
formulas below that hold initially and are preserved by the body (Houdini); every preservation check is
a z3 validity check over the paths of the real loop body.
"""
import ast

from .core import *  # noqa: F401,F403
from .core import z3, Unsupported, Infeasible, PyRaise, TT, _pinfo
from . import idioms
from . import interp as I

Pi = z3.Function("Pi", K, BOOL)     # an arbitrary predicate on formulas up to equality
PI = Pi(key(GE))


def for_loop(it, s, ctx):
    v = it.eval(s.iter, ctx)
    for w, numbered in ((v, False), (it.obj(v).data.args[0] if isinstance(v, I.Ref) and it.obj(v).kind == "iter" and it.obj(v).data.kind == "enum" else None, True)):
        if isinstance(w, I.Opq) and isinstance(w.data, dict) and "loop" in w.data:
            if numbered and it.obj(v).data.args[1] != 0:
                raise Unsupported("enumerate from another number")
            return w.data["loop"](it, s, ctx, numbered)
    segs, pos = source(it, v)
    segs = list(segs)
    if it.rewrite and pos is None and any(g[0] != "e" for g in segs):
        r = idioms.for_loop(it, s, ctx, v)
        if r:
            return r[1]
    while segs:
        g = segs.pop(0)
        if g[0] == "q":
            raise Unsupported("loop over an abstract collection")
        if g[0] == "c":
            if not it.run.branch(TT(it.len_cond([g]))):
                continue
            ex = it.expand([g])
            if len(ex) != 1 or ex[0][0] == "e" or not ex[0][1].eq(g[1]):
                segs = ex + segs
                continue
            if pos is not None and not (len(g) > 5):
                # expose the ends so that tests on the position are decided
                first = it.split_ends(g) if hasattr(it, "split_ends") else split_ends(it, g)
                segs = first + segs
                continue
            sig = sym_for(it, s, ctx, g, pos)
            if pos is not None:
                pos = I.SI(z3.simplify(it.int_term(pos) + (slen(g[1]) if z3.is_true(g[3]) else Cnt(g[3], g[1]))))
        else:
            val = it.up(g[1])
            if pos is not None:
                val = I.Tup([("e", pos), ("e", val)])
                pos = it.add(pos, 1)
            it.assign(s.target, val, ctx)
            sig = it.block(s.body, ctx)
        if sig is not None:
            if sig[0] == "break":
                return None
            if sig[0] == "continue":
                continue
            return sig
    if s.orelse:
        return it.block(s.orelse, ctx)
    return None


def source(it, v):
    """Segments and, for enumerate over a symbolic sequence, the running position."""
    if isinstance(v, I.Ref) and it.obj(v).kind == "iter" and it.obj(v).data.kind == "enum":
        w = it.obj(v).data
        it.run.heap[v.loc] = I.Obj("iter", None, I.View("segs", ()))
        return it.segs_of(w.args[0]), w.args[1]
    return it.segs_of(v), None


def split_ends(it, g):
    """[first] middle [last] of a non-empty segment; the middle is marked."""
    segs = [g]
    it.split_front(segs, 0)
    out = segs[:1]
    rest = segs[1:]
    if not rest or not it.run.branch(TT(it.len_cond(rest))):
        return out
    rest = it.reverse(rest)
    i = 0
    while i < len(rest):
        if rest[i][0] == "e" or it.split_front(rest, i):
            break
    rest = it.reverse(rest)
    mid = []
    for h in rest:
        if h[0] == "c":
            if it.run.branch(TT(it.len_cond([h]))):
                mid.append(tuple(h) + ("mid",))
        else:
            mid.append(h)
    return out + mid


def enum_segs(it, view):
    """enumerate over a symbolic sequence as segments of pairs (used by comprehensions): the ends are exposed and the
    positions in the middle are known up to their bounds."""
    segs, pos = it.segs_of(view.args[0]), view.args[1]
    out = []
    segs = list(segs)
    while segs:
        g = segs.pop(0)
        if g[0] == "c" and len(g) == 5:
            if not it.run.branch(TT(it.len_cond([g]))):
                continue
            segs = split_ends(it, g) + segs
            continue
        if g[0] == "e":
            out.append(("e", I.Tup([("e", pos), ("e", it.up(g[1]))])))
            pos = it.add(pos, 1)
        else:
            n = slen(g[1]) if z3.is_true(g[3]) else Cnt(g[3], g[1])
            posf = z3.Function(f"pos{it.run.fresh(INT, 'p')}", F, INT)
            val = I.SF(g[4]) if z3.is_expr(g[4]) else g[4]
            lo = it.int_term(pos)
            b = z3.And(posf(GE) >= lo, posf(GE) < lo + n)
            it.run.assume(All(b, g[1]))
            out.append(("c", g[1], g[2], g[3], I.Tup([("e", I.SI(posf(GE))), ("e", val)])))
            pos = I.SI(z3.simplify(lo + n))
    return out


# ------------------------------------------------------------------ state slots
class Slot:
    """A location that the loop modifies."""

    def __init__(self, kind, loc, name, old):
        self.kind, self.loc, self.name, self.old = kind, loc, name, old

    def get(self, it):
        o = it.run.heap[self.loc]
        return o.data.get(self.name) if self.name is not None else o.data

    def put(self, it, v):
        o = it.run.heap[self.loc]
        if self.name is not None:
            d = dict(o.data)
            d[self.name] = v
            v = d
        it.run.heap[self.loc] = I.Obj(o.kind, o.cls, v)

    def key(self):
        return (self.loc, self.name)


def changed(it, before, after):
    """Slots that differ between two heaps (locations of `before` only)."""
    out = []
    for loc, o in before.items():
        n = after.get(loc)
        if n is None or n is o:
            continue
        if o.kind in ("frame", "inst"):
            for k in set(o.data) | set(n.data):
                a, b = o.data.get(k, I.MISSING), n.data.get(k, I.MISSING)
                if a is not b and not same_val(a, b):
                    out.append((loc, k))
        elif o.kind == "iter":
            continue
        elif o.data is not n.data and o.data != n.data:
            out.append((loc, None))
    return out


def same_val(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, (I.SF, I.SB, I.SI, I.SLg, I.SCls)):
        return a.t.eq(b.t)
    if isinstance(a, I.Ref):
        return a.loc == b.loc
    if isinstance(a, I.Val):
        return a is b
    try:
        return bool(a == b)
    except Exception:
        return a is b


def sort_of(v):
    if isinstance(v, (I.SB, bool)):
        return "b"
    if isinstance(v, (I.SI, int)):
        return "i"
    if isinstance(v, (I.SLg, Logic)):
        return "l"
    if isinstance(v, I.SF):
        return "f"
    return None


def term(v):
    return v.t if isinstance(v, I.Val) else (z3.BoolVal(v) if isinstance(v, bool) else z3.IntVal(v) if isinstance(v, int) else LC[v])


# ------------------------------------------------------------------ the loop rule
class LoopCtx:
    pass


def pre_seg(g, s):
    return [("c", s, g[2], g[3], g[4])]


def sym_for(it, s, ctx, g, pos):
    """One symbolic segment of a for loop."""
    def head(pre, e, post):
        """Assign the loop target for the element after the prefix."""
        v = it.up(it.gen_subst(g[4], GE, e))
        if pos is not None:
            n = slen(pre) if z3.is_true(g[3]) else Cnt(g[3], pre)
            v = I.Tup([("e", I.SI(z3.simplify(it.int_term(pos) + n))), ("e", v)])
        it.assign(s.target, v, ctx)

    def iteration():
        run = it.run
        pre, post = run.fresh(S, "pre"), run.fresh(S, "post")
        e = run.fresh(F, "e")
        order = [run.seg(pre), ("e", e), run.seg(post)]
        it.define(g[1], order[::-1] if g[2] else order)
        run.sterm[pre.get_id()] = pre
        run.sterm[post.get_id()] = post
        run.assume(z3.substitute(g[3], (GE, e)))
        if pos is not None:
            run.assume(slen(g[1]) == slen(pre) + 1 + slen(post))
        return pre, e, post

    try:
        return comp_loop(it, s, ctx, g, pos)
    except Unsupported:
        pass
    return loop_rule(it, s, ctx, g, head, iteration)


def comp_loop(it, s, ctx, g, pos):
    """A loop that only appends values computed from the current element: exactly a comprehension."""
    run = it.run
    before = dict(run.heap)
    start = run.names
    slots = []
    for _ in range(4):
        def thunk():
            for loc, name in slots:
                o = run.heap[loc]
                if name is not None:
                    d = dict(o.data)
                    d[name] = I.Opq("loop-temporary")
                    run.heap[loc] = I.Obj(o.kind, o.cls, d)
                else:
                    run.heap[loc] = I.Obj(o.kind, o.cls, tuple(o.data) + (run.seg(run.fresh(S, "hv")),))
            h0 = dict(run.heap)
            e, v = it.generic(g)
            if pos is not None:
                posf = z3.Function(f"pos!{start}!{s.lineno}", F, INT)
                n = slen(g[1]) if z3.is_true(g[3]) else Cnt(g[3], g[1])
                lo = it.int_term(pos)
                run.assume(z3.And(posf(e) >= lo, posf(e) < lo + n))
                v = I.Tup([("e", I.SI(posf(e))), ("e", v)])
            n0 = len(run.pc)
            log = len(run.log)
            it.assign(s.target, v, ctx)
            sig = it.block(s.body, ctx)
            if sig is not None and sig[0] != "continue":
                raise Unsupported("loop with an exit")
            ch = changed(it, {l: h0[l] for l in before}, run.heap)
            app = {}
            for loc, name in ch:
                if name is None:
                    n, o = run.heap[loc].data, h0[loc].data
                    if run.heap[loc].kind not in ("list", "set") or not isinstance(n, tuple) or n[:len(o)] != o or len(n) - len(o) != 1:
                        raise Unsupported("not an appending loop")
                    if n[-1][0] != "e":
                        raise Unsupported("not an appending loop")
                    app[loc] = it.freeze(n[-1][1])
            return e, n0, ch, app, run.log[log:]
        res = run.explore(thunk)
        new = []
        for kind, v, st, pc in res:
            if kind == "raise":
                raise Unsupported("loop with an exception")
            new += [c for c in v[2] if c not in slots and c not in new]
        if not new:
            break
        slots += new
    else:
        raise Unsupported("loop state")
    targets = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
    for loc, name in slots:
        if name is not None and name not in targets and before[loc].data.get(name, I.MISSING) is not I.MISSING:
            raise Unsupported("carried variable")
    out = {loc: ([], []) for loc, name in slots if name is None}
    for kind, (e, n0, ch, app, log), st, pc in res:
        cond = z3.substitute(z3.And(list(st[0][n0:]) + [z3.BoolVal(True)]), (e, GE))
        it._no_local(cond, start, None)
        for loc, w in app.items():
            w = it.gen_subst(w, e, GE)
            it._no_local(cond, start, w)
            if any(isinstance(x, I.Opq) and x.tag == "loop-temporary" for x in [w] + ([y[1] for y in w.segs if y[0] == "e"] if isinstance(w, I.Tup) else [])):
                raise Unsupported("value of a loop temporary")
            out[loc][0].append(cond)
            out[loc][1].append(w)
        for x in log:
            run.log.append(x)
    if pos is not None:
        posf = z3.Function(f"pos!{start}!{s.lineno}", F, INT)
        n = slen(g[1]) if z3.is_true(g[3]) else Cnt(g[3], g[1])
        lo = it.int_term(pos)
        run.assume(All(z3.And(posf(GE) >= lo, posf(GE) < lo + n), g[1]))
    for loc, name in slots:
        o = run.heap[loc]
        if name is not None:
            d = dict(o.data)
            d[name] = I.Opq("loop-temporary")
            run.heap[loc] = I.Obj(o.kind, o.cls, d)
        else:
            gs, vs = out[loc]
            guard = z3.simplify(z3.And(g[3], z3.Or(gs)))
            w = it.merge(gs, vs)
            run.heap[loc] = I.Obj(o.kind, o.cls, tuple(o.data) + (("c", g[1], g[2], guard, nge(w.t) if isinstance(w, I.SF) else w),))
    return None


def while_loop(it, s, ctx):
    if isinstance(s.test, ast.Name) and s.test.id in it.obj(ctx.frame).data:
        v = it.lookup(s.test.id, ctx)
        h = it.whiles(v) if hasattr(it, "whiles") else None
        if h:
            return h(it, s, ctx)
    # explicit unrolling while the test is decided and no symbolic state is involved
    for _ in range(40):
        r = it.run
        v = it.eval(s.test, ctx)
        t = it.truth(v)
        t = z3.simplify(TT(t))
        if z3.is_false(t) or (not z3.is_true(t) and r.check(t) == "unsat"):
            return it.block(s.orelse, ctx) if s.orelse else None
        if not decided(it, t) or symbolic_stack(it, s, ctx):
            return loop_rule(it, s, ctx, None, None, None)
        sig = it.block(s.body, ctx)
        if sig is not None:
            if sig[0] == "break":
                return None
            if sig[0] == "continue":
                continue
            return sig
    raise Unsupported("while loop")


def decided(it, t):
    return z3.is_true(t) or it.run.check(z3.Not(t)) == "unsat"


def symbolic_stack(it, s, ctx):
    """The loop test reads a container with a symbolic part."""
    for n in ast.walk(s.test):
        if isinstance(n, ast.Name):
            try:
                v = it.lookup(n.id, ctx)
            except PyRaise:
                continue
            if isinstance(v, I.Ref) and it.obj(v).kind in ("list", "set") and any(x[0] == "c" for x in it.obj(v).data):
                return True
    return False


_memo = {}


def loop_rule(it, s, ctx, g, head, iteration):
    run = it.run
    before = dict(run.heap)
    is_for = g is not None
    kk = (id(s), tuple(t.get_id() for t in run.pc), run.names, run.locs, g[1].get_id() if g else 0, id(run), run.theory_sig())

    # ---- one iteration from a given havoc function; returns explored paths
    def paths(havoc):
        def thunk():
            st = havoc()
            if is_for:
                pre, e, post = iteration()
                inv_assume(st, pre_seg(g, pre))
                h0 = dict(run.heap)
                n0 = len(run.pc)
                head(pre, e, post)
            else:
                pre = e = None
                inv_assume(st, None)
                h0 = dict(run.heap)
                n0 = len(run.pc)
                if not run.branch(it.truth(it.eval(s.test, ctx))):
                    raise Infeasible()
            sig = it.block(s.body, ctx)
            if sig is not None and sig[0] == "continue":
                sig = None
            return sig, pre, e, h0, n0, st
        return run.explore(thunk)

    slots = []
    alive = []

    def havoc():
        st = {}
        for sl in slots:
            st[sl.key()] = sl.havoc(it)
        return st

    def inv_assume(st, PRE):
        for c in alive:
            c.assume(it, st, PRE)

    summary = _memo.get(kk)
    if summary is None:
        # ---- modified slots: fixpoint
        pool = list(getattr(it, "base_pool", [V, z3.Not(V), PI])) + list(getattr(it, "pool", []))
        exits = []
        for _ in range(4):
            res = paths(havoc)
            new = []
            known = {sl.key() for sl in slots}
            for kind, v, st, pc in res:
                if kind != "ok":
                    continue
                sig, pre, e, h0, n0, _s = v
                heap = st[5]
                for k in changed(it, before, {l: heap[l] for l in before if l in heap}):
                    if k not in known:
                        known.add(k)
                        new.append((k, sig))
            for (loc, name), sig in new:
                o = before[loc]
                old = o.data.get(name, I.MISSING) if name is not None else o.data
                slots.append(Slot("var" if name is not None else o.kind, loc, name, old))
            if not new:
                break
            plan_slots(it, slots, res, before, is_for, g)
        else:
            raise Unsupported("modified state of the loop does not settle")
        pool += derived_pool(it, res, g, s) + assumed_pool(run)
        pool = uniq(pool)
        alive = candidates(it, slots, pool, is_for, g, getattr(it, "fpool", []))
        # ---- initial validity
        st0 = {sl.key(): sl.old for sl in slots}
        alive = [c for c in alive if c.holds(it, st0, [] if is_for else None)]
        # ---- inductive step
        for rnd in range(30):
            res = paths(havoc)
            dropped = set()
            for kind, v, st, pc in res:
                if kind != "ok" or v[0] is not None:
                    continue
                sig, pre, e, h0, n0, hst = v
                snap = run.snapshot()
                run.restore(st)
                now = {sl.key(): sl.get(it) for sl in slots}
                PRE = pre_seg(g, pre) + [("e", it.gen_subst(g[4], GE, e) if z3.is_expr(g[4]) else e)] if is_for else None
                for i, c in enumerate(alive):
                    if i not in dropped and not c.holds(it, now, PRE):
                        dropped.add(i)
                run.restore(snap)
            if not dropped:
                break
            alive = [c for i, c in enumerate(alive) if i not in dropped]
        else:
            raise Unsupported("loop invariant inference does not end")
        has_exit = any(kind == "raise" or v[0] is not None for kind, v, st, pc in res)
        summary = _memo[kk] = (slots, alive, has_exit)
        it.loop_log.append((ctx.name, s.lineno, len(alive), [str(c) for c in alive][:40]))
    slots, alive, has_exit = summary
    run.inexact = True

    # ---- after the loop
    if has_exit:
        which = run.decide(2)
    else:
        which = 0
    if which == 0:
        st = havoc()
        if is_for:
            inv_assume(st, pre_seg(g, g[1]))
        else:
            inv_assume(st, None)
            if run.branch(it.truth(it.eval(s.test, ctx))):
                raise Infeasible()
        if not run.feasible():
            raise Infeasible()
        return None if is_for else (it.block(s.orelse, ctx) if s.orelse else None)
    st = havoc()
    if is_for:
        pre, e, post = iteration()
        inv_assume(st, pre_seg(g, pre))
        head(pre, e, post)
    else:
        inv_assume(st, None)
        if not run.branch(it.truth(it.eval(s.test, ctx))):
            raise Infeasible()
    sig = it.block(s.body, ctx)
    if sig is None or sig[0] == "continue":
        raise Infeasible()
    if not is_for and sig[0] == "break":
        return None
    return sig


def uniq(ps):
    out, seen = [], set()
    for p in ps:
        p = z3.simplify(p)
        if z3.is_true(p) or z3.is_false(p):
            continue
        if p.get_id() not in seen:
            seen.add(p.get_id())
            out.append(p)
    return out


def plan_slots(it, slots, res, before, is_for, g):
    """Choose how each slot is havocked."""
    for sl in slots:
        old = sl.old
        if sl.name is not None:
            news = []
            for kind, v, st, pc in res:
                if kind == "ok" and sl.loc in st[5]:
                    x = st[5][sl.loc].data.get(sl.name, I.MISSING)
                    if x is not I.MISSING:
                        news.append(x)
            if old is I.MISSING:
                sl.mode = "temp"
            else:
                so = sort_of(old)
                if isinstance(old, I.Ref) or any(isinstance(n, I.Ref) for n in news):
                    sl.mode = "reflist" if all(isinstance(n, I.Ref) and it.run.heap.get(old.loc) is not None for n in news) and isinstance(old, I.Ref) else "temp"
                    if sl.mode == "reflist":
                        kinds = {it.run.heap[old.loc].kind}
                        for kind, v, st, pc in res:
                            if kind == "ok":
                                x = st[5][sl.loc].data.get(sl.name)
                                if isinstance(x, I.Ref):
                                    kinds.add(st[5][x.loc].kind)
                        if kinds != {"list"} and kinds != {"set"}:
                            sl.mode = "temp"
                        else:
                            sl.rkind = kinds.pop()
                elif so is None or any(sort_of(n) != so for n in news):
                    sl.mode = "temp"
                else:
                    sl.mode = so
        else:
            if sl.kind in ("list", "set", "frozenset"):
                app = True
                for kind, v, st, pc in res:
                    if kind == "ok" and sl.loc in st[5]:
                        h0 = v[3].get(sl.loc)
                        n = st[5][sl.loc].data
                        b = h0.data if h0 is not None else old
                        if n[:len(b)] != b:
                            app = False
                sl.mode = "append" if app else "seq"
            else:
                raise Unsupported(f"loop modifies a {sl.kind}")

        def mk(sl=sl):
            def hv(it):
                run = it.run
                if sl.mode == "temp":
                    v = I.Opq("loop-temporary")
                elif sl.mode == "b":
                    v = I.SB(run.fresh(BOOL, "lb"))
                elif sl.mode == "i":
                    v = I.SI(run.fresh(INT, "li"))
                elif sl.mode == "l":
                    v = I.SLg(run.fresh(Lg, "ll"))
                elif sl.mode == "f":
                    v = I.SF(run.fresh(F, "lf"))
                elif sl.mode == "reflist":
                    x = run.fresh(S, "lx")
                    run.sterm[x.get_id()] = x
                    v = (it.new_list if sl.rkind == "list" else it.new_set)([run.seg(x)])
                else:
                    x = run.fresh(S, "lx")
                    run.sterm[x.get_id()] = x
                    v = (tuple(sl.old) if sl.mode == "append" else ()) + (run.seg(x),)
                sl.put(it, v)
                return v
            return hv
        sl.havoc = mk()


def slot_segs(it, sl, st):
    """z3 segments of a sequence slot."""
    v = st[sl.key()]
    if isinstance(v, I.Ref):
        v = it.obj(v).data
    return it.zsegs(v)


class Cand:
    """Candidate invariant: f(it, state, PRE) -> z3 Bool; rel: sequences with the same elements."""

    def __init__(self, name, f, rel=None):
        self.name, self.f, self.rel = name, f, rel

    def __str__(self):
        return self.name

    def assume(self, it, st, PRE):
        if self.rel:
            a, b = self.rel(it, st, PRE)
            it.run.same.append((a, b))
        c = self.f(it, st, PRE)
        if c is not None:
            it.run.assume(c)

    def holds(self, it, st, PRE):
        try:
            c = self.f(it, st, PRE)
        except Unsupported:
            return False
        if c is None:
            return False
        return it.run.valid(c)


def all_pre(it, P, PRE):
    """All_P over the processed elements."""
    return it.run.all_segs(lambda v: inst(P, v if z3.is_expr(v) else it.fterm(v)), PRE)


def par_pre(it, P, PRE):
    return it.run.par_segs(lambda v: inst(P, v if z3.is_expr(v) else it.fterm(v)), PRE)


def derived_pool(it, res, g, node):
    """Predicates read off the branch conditions of the loop body."""
    out = []
    seen = set()
    for kind, v, st, pc in res:
        n0 = v[4] if kind == "ok" else 0
        for c in pc:
            if c.get_id() in seen:
                continue
            seen.add(c.get_id())
            loc = set()
            for a in subapps(c):
                if a.num_args() == 0 and a.decl().kind() == z3.Z3_OP_UNINTERPRETED and "!" in str(a) and a.sort() in (F,):
                    n = str(a)
                    if n.split("!")[0] in ("e", "x"):
                        loc.add(a)
            bad = any(a.num_args() == 0 and a.sort() == S and "!" in str(a) and str(a).split("!")[0] in ("lx", "pre", "post", "r", "sub") for a in subapps(c))
            if len(loc) == 1 and not bad:
                P = z3.simplify(z3.substitute(c, (loc.pop(), GE)))
                if not mentions(P, GE):
                    continue
                out.append(P)
                out.append(z3.Not(P))
    return out


def assumed_pool(run):
    """Predicates that hold for all elements of some sequence by the path condition."""
    out = []
    for c in run.pc:
        i = c.decl().name()
        if i in _pinfo and _pinfo[i][0] == "all" and key_invariant(_pinfo[i][1]):
            out.append(_pinfo[i][1])
    return out


def candidates(it, slots, pool, is_for, g, fpool):
    out = []
    scal = [sl for sl in slots if sl.mode in ("b", "i", "l", "f")]
    seqs = [sl for sl in slots if sl.mode in ("append", "seq", "reflist")]
    seqs = [sl for sl in seqs if seq_ok(it, sl)]
    fpre = is_for and z3.is_expr(g[4]) and g[4].sort() == F
    for sl in scal:
        k = sl.key()
        o = sl.old
        if sl.mode == "b":
            ot = TT(term(o))
            out.append(Cand(f"{sl.name} unchanged", lambda it, st, PRE, k=k, ot=ot: TT(term(st[k])) == ot))
            out.append(Cand(f"{sl.name}", lambda it, st, PRE, k=k: TT(term(st[k]))))
            out.append(Cand(f"not {sl.name}", lambda it, st, PRE, k=k: z3.Not(TT(term(st[k])))))
            if fpre:
                for P in pool:
                    out.append(Cand(f"{sl.name} == old and All({P})", lambda it, st, PRE, k=k, ot=ot, P=P: TT(term(st[k])) == z3.And(ot, all_pre(it, P, PRE))))
                    out.append(Cand(f"{sl.name} == old or Any({P})", lambda it, st, PRE, k=k, ot=ot, P=P: TT(term(st[k])) == z3.Or(ot, z3.Not(all_pre(it, z3.Not(P), PRE)))))
                    out.append(Cand(f"{sl.name} == old xor Par({P})", lambda it, st, PRE, k=k, ot=ot, P=P: TT(term(st[k])) == z3.Xor(ot, par_pre(it, P, PRE))))
        elif sl.mode == "i":
            ot = term(o)
            out.append(Cand(f"{sl.name} >= old", lambda it, st, PRE, k=k, ot=ot: term(st[k]) >= ot))
            out.append(Cand(f"{sl.name} unchanged", lambda it, st, PRE, k=k, ot=ot: term(st[k]) == ot))
            if is_for:
                out.append(Cand(f"{sl.name} == old + len", lambda it, st, PRE, k=k, ot=ot: term(st[k]) == ot + it.run.len_segs(PRE)))
                if fpre:
                    for P in pool:
                        out.append(Cand(f"{sl.name} == old + #({P})", lambda it, st, PRE, k=k, ot=ot, P=P: term(st[k]) == ot + count_pre(it, P, PRE)))
                        # parity of a counter
        else:
            ot = term(o)
            if sl.mode == "l":
                out.append(Cand(f"{sl.name} unchanged", lambda it, st, PRE, k=k, ot=ot: term(st[k]) == ot))
            else:
                out.append(Cand(f"{sl.name} unchanged", lambda it, st, PRE, k=k, ot=ot: key(term(st[k])) == key(ot)))
                for P in pool:
                    out.append(Cand(f"{P} of {sl.name}", lambda it, st, PRE, k=k, P=P: inst(P, term(st[k]))))
                if fpre:
                    out.append(Cand(f"val({sl.name}) == old and All(V)", lambda it, st, PRE, k=k, ot=ot: kval(key(term(st[k]))) == z3.And(kval(key(ot)), all_pre(it, V, PRE))))
                    out.append(Cand(f"val({sl.name}) == old or Any(V)", lambda it, st, PRE, k=k, ot=ot: kval(key(term(st[k]))) == z3.Or(kval(key(ot)), z3.Not(all_pre(it, z3.Not(V), PRE)))))
                    out.append(Cand(f"val({sl.name}) == old xnor", lambda it, st, PRE, k=k, ot=ot: kval(key(term(st[k]))) == z3.Xor(kval(key(ot)), par_pre(it, z3.Not(V), PRE))))
    if fpre:
        for P in pool:
            out.append(Cand(f"All({P}) of the elements so far", lambda it, st, PRE, P=P: all_pre(it, P, PRE)))
    for sl in seqs:
        nm = sl.name or f"#{sl.loc}"
        osegs = None
        for P in pool:
            if P.eq(PI):
                continue
            out.append(Cand(f"All({P}) of {nm}", lambda it, st, PRE, sl=sl, P=P: it.run.all_segs(lambda v: inst(P, v), slot_segs(it, sl, st))))
        out.append(Cand(f"Distinct({nm})", lambda it, st, PRE, sl=sl: it.run.rel_segs("Distinct", slot_segs(it, sl, st))))
        out.append(Cand(f"CompFree({nm})", lambda it, st, PRE, sl=sl: it.run.rel_segs("CompFree", slot_segs(it, sl, st))))
        out.append(Cand(f"len({nm}) >= 1", lambda it, st, PRE, sl=sl: it.run.len_segs(slot_segs(it, sl, st)) >= 1))
        out.append(Cand(f"len({nm}) >= 2", lambda it, st, PRE, sl=sl: it.run.len_segs(slot_segs(it, sl, st)) >= 2))
        if fpre and sl.mode == "append":
            old = it.zsegs(sl.old)
            out.append(Cand(f"{nm} has the elements so far",
                            lambda it, st, PRE, sl=sl, old=old: it.run.all_segs(lambda v: inst(PI, v), slot_segs(it, sl, st)) == it.run.all_segs(lambda v: inst(PI, v), old + PRE),
                            rel=lambda it, st, PRE, sl=sl, old=old: (slot_segs(it, sl, st), old + it.zsegs(PRE))))
            for C in pool:
                if C.eq(PI):
                    continue
                out.append(Cand(f"{nm} has the elements so far with {C}",
                                lambda it, st, PRE, sl=sl, old=old, C=C: it.run.all_segs(lambda v: inst(PI, v), slot_segs(it, sl, st))
                                == z3.And(it.run.all_segs(lambda v: inst(PI, v), old), it.run.all_segs(lambda v: imp(inst(C, v), inst(PI, v)), PRE)),
                                rel=lambda it, st, PRE, sl=sl, old=old, C=C: (slot_segs(it, sl, st), old + restrict(it, C, it.zsegs(PRE)))))
    for i, a in enumerate(seqs):
        for b in seqs[i + 1:]:
            out.append(Cand(f"same elements {a.name or a.loc} / {b.name or b.loc}",
                            lambda it, st, PRE, a=a, b=b: it.run.all_segs(lambda v: inst(PI, v), slot_segs(it, a, st)) == it.run.all_segs(lambda v: inst(PI, v), slot_segs(it, b, st)),
                            rel=lambda it, st, PRE, a=a, b=b: (slot_segs(it, a, st), slot_segs(it, b, st))))
            out.append(Cand(f"len {a.name or a.loc} + len {b.name or b.loc} >= 1",
                            lambda it, st, PRE, a=a, b=b: it.run.len_segs(slot_segs(it, a, st)) + it.run.len_segs(slot_segs(it, b, st)) >= 1))
            for P in pool:
                if P.eq(PI):
                    continue
                def conj(it, st, a, b, P):
                    return z3.And(it.run.all_segs(lambda v: inst(P, v), slot_segs(it, a, st)), it.run.all_segs(lambda v: inst(P, v), slot_segs(it, b, st)))

                def init(it, a, b, P):
                    return z3.And(it.run.all_segs(lambda v: inst(P, v), old_segs(it, a)), it.run.all_segs(lambda v: inst(P, v), old_segs(it, b)))
                out.append(Cand(f"All({P}) of {a.name or a.loc} and {b.name or b.loc} unchanged",
                                lambda it, st, PRE, a=a, b=b, P=P: conj(it, st, a, b, P) == init(it, a, b, P)))
    # order-sensitive: the first occurrence in the sequences taken together is unchanged
    for P in getattr(it, "fstpool", []):
        def fst(it, segs, P=P):
            return it.run.first_segs(lambda v: inst(P, v), segs)
        for a in seqs:
            if fpre and a.mode == "append":
                out.append(Cand(f"First of {a.name or a.loc} is that of the elements so far",
                                lambda it, st, PRE, a=a: fst(it, slot_segs(it, a, st)) == fst(it, old_segs(it, a) + it.zsegs(PRE))))
            for b in seqs:
                if a is b:
                    continue
                for rev in (True, False):
                    def both(sa, sb, rev=rev):
                        return sa + (it.reverse(sb) if rev else sb)
                    out.append(Cand(f"First of {a.name or a.loc} then {'reversed ' if rev else ''}{b.name or b.loc} unchanged",
                                    lambda it, st, PRE, a=a, b=b, both=both: fst(it, both(slot_segs(it, a, st), slot_segs(it, b, st)))
                                    == fst(it, both(old_segs(it, a), old_segs(it, b)))))
    for f in fpool:
        out.extend(f(it, slots, seqs))
    return out


def count_pre(it, P, PRE):
    out = z3.IntVal(0)
    for h in PRE:
        if h[0] == "e":
            out = out + z3.If(inst(P, h[1]), 1, 0)
        else:
            out = out + Cnt(z3.And(h[3], inst(P, h[4])), h[1])
    return out


def restrict(it, C, segs):
    out = []
    for h in segs:
        if h[0] == "e":
            return segs if False else out + _res_e(it, C, h) + restrict(it, C, segs[len(out) + 1:]) if False else [x for x in _restrict_all(it, C, segs)]
        out.append((h[0], h[1], h[2], z3.simplify(z3.And(h[3], inst(C, h[4]))), h[4]))
    return out


def _restrict_all(it, C, segs):
    for h in segs:
        if h[0] == "e":
            raise Unsupported("restriction of an element")
        yield (h[0], h[1], h[2], z3.simplify(z3.And(h[3], inst(C, h[4]))), h[4])


def _res_e(it, C, h):
    return []


def old_segs(it, sl):
    v = sl.old
    if isinstance(v, I.Ref):
        v = it.obj(v).data
    return it.zsegs(v)


def seq_ok(it, sl):
    """The sequence holds formulas only."""
    try:
        old_segs(it, sl)
        return True
    except Unsupported:
        return False
