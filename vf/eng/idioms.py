"""Loops over abstract collections as the any() or comprehension that they spell out, and updates of local sets as unions."""
import ast

from .core import Unsupported
from . import interp as I


def name(n, store=False):
    return ast.Name(n, ast.Store() if store else ast.Load())


def fix(new, old):
    ast.copy_location(new, old)
    return ast.fix_missing_locations(new)


def names_in(nodes, ctx=None):
    return {n.id for b in nodes for n in ast.walk(b) if isinstance(n, ast.Name) and (ctx is None or isinstance(n.ctx, ctx))}


def calls(n):
    return any(isinstance(x, (ast.NamedExpr, ast.Yield, ast.Await, ast.YieldFrom)) for x in ast.walk(n))


def conj(xs):
    return xs[0] if len(xs) == 1 else ast.BoolOp(ast.And(), xs)


def search(body, exits):
    """[condition] under which the body leaves the loop, or None; exits collects the statements that leave it."""
    out, skip = [], []
    for k, s in enumerate(body):
        if isinstance(s, ast.Pass) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
            continue
        if not isinstance(s, ast.If) or s.orelse:
            return None
        if len(s.body) == 1 and isinstance(s.body[0], ast.Continue):
            skip.append(ast.UnaryOp(ast.Not(), s.test))
            continue
        if isinstance(s.body[-1], (ast.Return, ast.Break)) and not any(isinstance(x, (ast.Assign, ast.AugAssign)) for x in s.body):
            exits.append(s.body)
            out.append(conj(skip + [s.test]))
            continue
        sub = search(s.body, exits)
        if sub is None:
            return None
        out += [conj(skip + [s.test, c]) for c in sub]
    return out


def filtered(body):
    """(conditions, last statement) of a body that only filters, or None."""
    conds = []
    while True:
        body = [s for s in body if not isinstance(s, ast.Pass)]
        if not body:
            return None
        s = body[0]
        if isinstance(s, ast.If) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.Continue) and len(body) > 1:
            conds.append(ast.UnaryOp(ast.Not(), s.test))
            body = body[1:]
        elif isinstance(s, ast.If) and not s.orelse and len(body) == 1:
            conds.append(s.test)
            body = s.body
        else:
            return (conds, s) if len(body) == 1 else None


def local(it, ctx, n, kinds):
    """The variable n holds an object of one of these kinds that no other variable of the frame holds."""
    d = it.obj(ctx.frame).data
    v = d.get(n)
    if not isinstance(v, I.Ref) or it.obj(v).kind not in kinds:
        return None
    if any(w is v or isinstance(w, I.Ref) and w.loc == v.loc for m, w in d.items() if m != n):
        return None
    return it.obj(v)


def for_loop(it, s, ctx, value):
    """Run the loop as a search or an accumulation; False when it is neither."""
    targets = names_in([s.target])
    tmp = name("<iterable>")
    gen = lambda conds=(): ast.comprehension(s.target, tmp, list(conds), 0)
    if calls(s):
        return False
    exits = []
    cs = search(s.body, exits)
    if cs:
        kinds = {ast.dump(ast.Module(e, [])) for e in exits}
        if len(kinds) == 1 and not names_in(exits[0]) & targets:
            body = exits[0][:-1] + [exits[0][-1]] if isinstance(exits[0][-1], ast.Return) else exits[0][:-1] or [ast.Pass()]
            cond = cs[0] if len(cs) == 1 else ast.BoolOp(ast.Or(), cs)
            test = ast.Call(name("any"), [ast.GeneratorExp(cond, [gen()])], [])
            it.assign(tmp, value, ctx)
            return True, it.stmt(fix(ast.If(test, body, s.orelse), s), ctx)
    f = filtered(s.body)
    if f:
        conds, last = f
        new = None
        if isinstance(last, ast.Expr) and isinstance(last.value, ast.Call) and isinstance(last.value.func, ast.Attribute) \
                and isinstance(last.value.func.value, ast.Name) and len(last.value.args) == 1 and not last.value.keywords:
            acc, e = last.value.func.value.id, last.value.args[0]
            comp = {"append": (ast.ListComp, "list"), "add": (ast.SetComp, "set")}.get(last.value.func.attr)
            if comp:
                o = local(it, ctx, acc, (comp[1],))
                if o is not None and not len(o.data) and acc not in names_in([e] + conds):
                    new = comp[0](e, [gen(conds)])
        elif isinstance(last, ast.Assign) and len(last.targets) == 1 and isinstance(last.targets[0], ast.Subscript) and isinstance(last.targets[0].value, ast.Name):
            acc = last.targets[0].value.id
            o = local(it, ctx, acc, ("dict",))
            if o is not None and not len(o.data) and acc not in names_in([last.value, last.targets[0].slice] + conds):
                new = ast.DictComp(last.targets[0].slice, last.value, [gen(conds)])
        if new is not None:
            it.assign(tmp, value, ctx)
            it.stmt(fix(ast.Assign([name(acc, True)], new), s), ctx)
            return True, (it.block(s.orelse, ctx) if s.orelse else None)
    return False


def aset(it, v):
    return isinstance(v, I.Opq) and isinstance(v.data, dict) and v.data.get("cls") is set and "binop" in v.data


def statement(it, s, ctx):
    """The statement to run in place of s, or None."""
    d = it.obj(ctx.frame).data
    if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and isinstance(s.op, ast.BitOr):
        n, e = s.target.id, s.value
    elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and isinstance(s.value.func.value, ast.Name) \
            and s.value.func.attr in ("update", "add") and len(s.value.args) == 1 and not s.value.keywords:
        n, e = s.value.func.value.id, s.value.args[0]
        if s.value.func.attr == "add":
            e = ast.Set([e])
    else:
        return None
    if aset(it, d.get(n)) or local(it, ctx, n, ("set",)) is not None:
        return fix(ast.Assign([name(n, True)], ast.BinOp(name(n), ast.BitOr(), e)), s)
    return None


def changed(body):
    """The variables that the body may change, as sets."""
    out = names_in(body, (ast.Store, ast.Del))
    for b in body:
        for n in ast.walk(b):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.attr in ("update", "add"):
                out.add(n.func.value.id)
    return out
