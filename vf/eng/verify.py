"""Obligations: contracts on real functions, discharged path by path."""
import multiprocessing
import os
import time
import traceback
import types

from .core import *  # noqa: F401,F403
from .core import z3, Unsupported, Infeasible, PyRaise, TT, Stats
from . import interp as I
from .interp import Interp, SF, SB, SI, SLg, SStr, Tup, Opq, Ref, NON


def frozen(f):
    """The function with its free variables as they are now (obligations are decided later)."""
    if not f.__closure__:
        return f

    def now(c):
        try:
            v = c.cell_contents
        except ValueError:
            return c
        if isinstance(v, types.FunctionType) and v is not f:
            return types.CellType(frozen(v))
        return types.CellType(v)
    g = types.FunctionType(f.__code__, f.__globals__, f.__name__, f.__defaults__, tuple(now(c) for c in f.__closure__))
    g.__kwdefaults__ = f.__kwdefaults__
    return g


class Verifier:
    def __init__(self, prop, budget):
        self.prop = prop
        self.end = time.time() + budget
        self.obls = []
        self.used = set()
        self.by_contract = set()
        self.loops = []
        self.queue = []
        self.stats = {"checks": 0, "hits": 0, "unknown": 0, "time": 0.0}
        self.jobs = int(os.environ.get("VERIF_JOBS", "6"))

    def oblige(self, name, function, body, **kw):
        """Register an obligation (see _oblige); all are decided by result(), in parallel."""
        self.queue.append((name, function, frozen(body), kw))

    def discharge(self):
        global _current
        _current = self
        order = sorted(range(len(self.queue)), key=lambda i: -self.queue[i][3].get("seconds", 90))
        done = {}
        if self.jobs > 1 and len(order) > 1:
            with multiprocessing.get_context("fork").Pool(min(self.jobs, len(order))) as pool:
                for i, r in pool.imap_unordered(_decide, order):
                    done[i] = r
        else:
            for i in order:
                done[i] = _decide(i)[1]
        for i in range(len(self.queue)):
            obls, used, by, loops, st = done[i]
            self.obls += obls
            self.used |= used
            self.by_contract |= by
            self.loops += [x for x in loops if x not in self.loops]
            for k in st:
                self.stats[k] += st[k]
        self.queue = []

    def _oblige(self, name, function, body, mode=("val", "wf"), seconds=90, timeout=4000, witness=None):
        """body(it) sets up the precondition, runs the real function and returns [(clause, condition)].

        Every clause is one obligation; it is discharged when it holds on every path.  A path that ends in an
        exception the body does not catch fails the clause 'no exception'.

        witness: a structural obligation; it is refuted only together with an input on which the real code fails,
        which witness() looks for (otherwise it stays undecided)."""
        t0 = time.time()
        run = Run(mode=mode, timeout=timeout)
        run.deadline = (time.process_time() + seconds, self.end)
        status = {}
        its = []
        checks0, unk0 = Stats.checks, Stats.unknown

        def thunk():
            it = Interp(run)
            its.append(it)
            run.inexact = False
            try:
                clauses = body(it)
            except PyRaise as e:
                if not run.feasible():
                    raise Infeasible()
                clauses = [("no exception", z3.BoolVal(False), f"raises {e}")]
            out = []
            for cl in clauses:
                nm, c = cl[0], cl[1]
                why = cl[2] if len(cl) > 2 else ""
                c = z3.simplify(TT(c))
                if z3.is_true(c):
                    out.append((nm, "ok", ""))
                    continue
                r = run.check(z3.Not(c))
                if r == "unsat":
                    out.append((nm, "ok", ""))
                elif r == "unknown":
                    out.append((nm, "undecided", "solver: unknown"))
                else:
                    d = self.explain(run, c)
                    inexact = run.inexact or any(it.loop_log for it in its[-1:])
                    out.append((nm, "undecided" if inexact else "failed", f"{why} {d}".strip()))
            return out
        npaths = 0
        try:
            res = run.explore(thunk)
            npaths = len(res)
            for kind, v, st, pc in res:
                if kind == "raise":
                    status.setdefault("no exception", []).append(("failed", str(v)))
                    continue
                for nm, r, why in v:
                    status.setdefault(nm, []).append((r, why))
            if not status:
                status["reachable"] = [("undecided", "no path of the function is feasible under the precondition")]
        except Unsupported as e:
            status = {"contract": [("undecided", f"outside the verified fragment: {e}")]}
        except RecursionError:
            status = {"contract": [("undecided", "recursion limit")]}
        except Exception as e:  # a defect of the engine is never a violation
            status = {"contract": [("undecided", f"engine: {type(e).__name__}: {e} {traceback.format_exc()[-600:]}")]}
        for it in its:
            self.used |= it.used
            self.by_contract |= it.by_contract
            self.loops += [x for x in it.loop_log if x not in self.loops]
        case = None
        if witness is not None and any(r[0] != "ok" for rs in status.values() for r in rs):
            case = witness()
            if case is None:
                status = {nm: [("undecided" if r == "failed" else r, why) for r, why in rs] for nm, rs in status.items()}
        for nm, rs in status.items():
            bad = [r for r in rs if r[0] == "failed"] or [r for r in rs if r[0] == "undecided"]
            self.obls.append({"name": f"{name}: {nm}", "function": function, "status": bad[0][0] if bad else "discharged",
                              "why": bad[0][1] if bad else "", "paths": len(rs), "case": case if bad else None})
        self.obls[-1]["seconds"] = round(time.time() - t0, 2)
        self.obls[-1]["vcs"] = Stats.checks - checks0
        return all(o["status"] == "discharged" for o in self.obls[-len(status):])

    def fact(self, name, function, ok, why="", seconds=0.0, undecided=False, case=None):
        """An obligation decided by another exact procedure."""
        self.obls.append({"name": name, "function": function, "status": "discharged" if ok else "undecided" if undecided else "failed",
                          "why": "" if ok else why, "paths": 1, "seconds": seconds, "case": None if ok else case})
        return ok

    def explain(self, run, c):
        try:
            m = run.model(z3.Not(c))
            if m is None:
                return ""
            txt = []
            for d in m.decls()[:40]:
                if d.arity() == 0 and d.range() in (Cls, Lg, BOOL, INT):
                    txt.append(f"{d.name()}={m[d]}")
            path = "; ".join(z3.simplify(p).sexpr().replace("\n", " ")[:90] for p in run.pc[-10:])
            return f"obligation {str(c)[:300]} has a counter-model on the path [{path}] {' '.join(txt)[:300]}"
        except Exception:
            return "counter-model"

    def result(self, assumptions=(), trusted=(), extra=None):
        self.discharge()
        done = [o for o in self.obls if o["status"] == "discharged"]
        return {
            "failed": [{"name": o["name"], "why": o["why"], "function": o["function"], "case": o.get("case")} for o in self.obls if o["status"] == "failed"],
            "undecided": [{"name": o["name"], "why": o["why"], "case": o.get("case")} for o in self.obls if o["status"] == "undecided"],
            "coverage": {
                "obligations": len(self.obls), "discharged": len(done),
                "checker_cmd": f"/opt/venv/bin/python -B -m vf.prove {self.prop} quick OUT.json  (cwd /verif, PYTHONPATH=/repo:/verif)",
                "trusted_base": list(TRUSTED) + list(trusted),
                "functions_under_contract": sorted({o["function"] for o in self.obls}),
                "function_bodies_executed": sorted(self.used),
                "callee_contracts_used": sorted(self.by_contract),
                "loop_invariants_inferred": [f"{n} line {l}: {c}" for n, l, k, c in self.loops][:30],
                "z3_checks": self.stats["checks"], "z3_cache_hits": self.stats["hits"], "z3_unknown": self.stats["unknown"],
                "solver_s": round(self.stats["time"], 2),
                "obligation_list": [f"{o['status']}: {o['name']} [{o['function']}] ({o['paths']} path(s))" for o in self.obls],
                **(extra or {}),
            },
            "assumptions": list(assumptions),
            "summary": {"obligations": len(self.obls), "discharged": len(done)},
        }


_current = None


def _decide(i):
    """Decide one registered obligation (in a worker process)."""
    V = _current
    w = Verifier.__new__(Verifier)
    w.prop, w.end, w.obls, w.used, w.by_contract, w.loops = V.prop, V.end, [], set(), set(), []
    name, function, body, kw = V.queue[i]
    a = (Stats.checks, Stats.hits, Stats.unknown, Stats.time)
    w._oblige(name, function, body, **kw)
    b = (Stats.checks, Stats.hits, Stats.unknown, Stats.time)
    return i, (w.obls, w.used, w.by_contract, w.loops, dict(zip(("checks", "hits", "unknown", "time"), (y - x for x, y in zip(a, b)))))


TRUSTED = [
    "the symbolic interpreter vf/eng (its model of CPython's evaluation of the subset used: calls, metaclass __call__, attributes, comprehensions, "
    "generators consumed in full, lists, sets, dicts)",
    "z3 5.x",
    "the background theory of vf/eng/core.py (formulas as terms, sequences as concatenations, All/Par predicates)",
    "CPython, functools.singledispatch, abc",
]


# ------------------------------------------------------------------ contracts shared by the properties
def accessors(it):
    """Contracts of the public accessors of a symbolic formula (proved for every class in C13)."""
    it.attrs.update({
        "operands": lambda i, x: nary_only(i, x, lambda: Tup([i.run.seg(ops(x.t))])),
        "argument": lambda i, x: unary_only(i, x),
        "logic": lambda i, x: SLg(klg(key(x.t))),
    })
    return it


def nary_only(it, x, mk):
    if not it.run.branch(in_cls(key(x.t), NARY)):
        return other_attr(it, x, "operands")
    return mk()


def unary_only(it, x):
    if not it.run.branch(in_cls(key(x.t), UNARY)):
        return other_attr(it, x, "argument")
    return SF(arg(x.t))


def other_attr(it, x, name):
    h = it.attrs.pop(name)
    try:
        return it.getattr(x, name)
    finally:
        it.attrs[name] = h


def name_attr(it):
    it.attrs["name"] = lambda i, x: SStr([kname(key(x.t))]) if i.run.branch(in_cls(key(x.t), ATOMS)) else other_attr(i, x, "name")
    return it


rank = z3.Function("rank", F, INT)


def subformula_ranks(run, x):
    """Proper subformulas have a smaller rank (well-founded recursion on formulas)."""
    run.assume(All(rank(GE) < rank(x), ops(x)))
    run.assume(rank(arg(x)) < rank(x))
    for p in part:
        run.assume(rank(p(x)) < rank(x))


def raises(it, f, *excs):
    """Run f; returns the exception class if it raises one of excs, else ('value', v)."""
    try:
        return ("value", f())
    except PyRaise as e:
        if any(issubclass(e.exc, x) for x in excs):
            return ("raise", e.exc)
        raise


# ------------------------------------------------------------------ the object behind a symbolic formula
def real_objects(it, names):
    """Read the attributes of symbolic formulas off the object that the real constructor makes of their parts.

    it.attrs is left without contracts: properties run their real bodies, and fields are the ones that the real
    __init__ of the class stores (the invariants that the constructor checks are assumed, C13)."""
    def field(i, v, name):
        c = i.class_of(v)
        return i.getattr(made(i, v.t, c), name)
    it.field_hook = field
    return it


def made(it, x, c):
    run = it.run
    g = ("made", x.get_id())
    if g in run.ghost:
        return run.ghost[g]
    lg = klg(key(x))
    o = it.alloc("inst", c, {})
    run.ghost[g] = o
    run.ghost[("reified", o.loc)] = x
    saved, it.attrs = it.attrs, {}
    fh, it.field_hook = it.field_hook, None
    it.attrs["logic"] = lambda i, y: SLg(klg(key(y.t)))
    try:
        init = it.class_lookup(c, "__init__")
        if c in NARY:
            run.sterm[ops(x).get_id()] = ops(x)
            run.assume(slen(ops(x)) >= 2)
            args = [("*segs", [run.seg(ops(x))])]
        elif c in UNARY:
            args = [SF(arg(x))]
        elif c in ATOMS:
            args = [SStr([kname(key(x))])]
            saved_c = it.contracts.get(B.AtomName)
            it.contracts[B.AtomName] = atom_name
        elif c in TRUTH:
            args = [SLg(lg)] if init in (B.TrueFormula.__init__, B.FalseFormula.__init__) else []
        elif c in MODAL:
            run.assume(klg(key(part[0](x))) == LC[Logic.RE])
            run.assume(klg(key(part[1](x))) == LC[Logic.LDL])
            args = [SF(part[0](x)), SF(part[1](x))]
        else:
            raise Unsupported(f"object of class {c.__name__}")
        it.call(init, [o] + args)
        if c in ATOMS:
            if saved_c is None:
                it.contracts.pop(B.AtomName)
            else:
                it.contracts[B.AtomName] = saved_c
    finally:
        it.attrs, it.field_hook = saved, fh
    return o


def atom_name(i, a, k):
    """Contract of AtomName on a valid atom name (C09): the same text."""
    s = i.to_str(a[0])
    return SStr(s.parts if isinstance(s, SStr) else [s], B.AtomName)
