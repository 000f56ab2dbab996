"""Symbolic interpreter for the real Python functions of the repository.

The AST executed is the one of the live function object (its file and first line), looked up on every
run; globals, closures, class attributes and metaclasses are the live ones.
"""
import ast
import builtins
import enum
import functools
import inspect
import re
import types
import typing

from .core import *  # noqa: F401,F403
from .core import z3, Unsupported, Changed, Infeasible, PyRaise, TT, _keep, _preds, _pinfo  # noqa: F401

MISSING = object()


# ------------------------------------------------------------------ values
class Val:
    pass


class SF(Val):
    """A formula."""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"SF({self.t})"


class SB(Val):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"SB({self.t})"


class SI(Val):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"SI({self.t})"


class SLg(Val):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"SLg({self.t})"


class SCls(Val):
    """type(x) of a symbolic formula."""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t


class SStr(Val):
    """A string: concatenation of literal strings and opaque pieces."""
    __slots__ = ("parts", "cls")

    def __init__(self, parts, cls=str):
        self.cls = cls
        out = []
        for p in parts:
            if isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            elif not isinstance(p, str) or p:
                out.append(p)
        self.parts = tuple(out)

    def __repr__(self):
        return f"SStr{self.parts}"


class Opq(Val):
    """A value about which nothing is known but its identity and tag."""

    given = False       # a mutable value that the function got from its caller

    def __init__(self, tag, data=None):
        self.tag = tag
        self.data = data

    def __repr__(self):
        return f"Opq({self.tag})"


def changed(s):
    raise Changed(s)


class Tup(Val):
    """A tuple; segs as in core.  Elements are values."""
    __slots__ = ("segs",)

    def __init__(self, segs):
        self.segs = tuple(segs)

    def __repr__(self):
        return f"Tup{self.segs}"


class Ref(Val):
    __slots__ = ("loc",)

    def __init__(self, loc):
        self.loc = loc

    def __eq__(self, o):
        return isinstance(o, Ref) and o.loc == self.loc

    def __hash__(self):
        return hash(self.loc)

    def __repr__(self):
        return f"Ref({self.loc})"


class Obj:
    """Heap object: kind in inst, list, set, frozenset, dict, frame, iter."""
    __slots__ = ("kind", "cls", "data")

    def __init__(self, kind, cls, data):
        self.kind, self.cls, self.data = kind, cls, data


class Closure(Val):
    def __init__(self, node, env, globs, defaults, kwdefaults, name, mangle):
        self.node, self.env, self.globs, self.defaults, self.kwdefaults, self.name, self.mangle = node, env, globs, defaults, kwdefaults, name, mangle
        self.dunder_class = None


class BoundM(Val):
    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_


class Builtin(Val):
    def __init__(self, name, fn):
        self.name, self.fn = name, fn


class SuperV(Val):
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class View(Val):
    """Iterator (single use): kind and arguments."""

    def __init__(self, kind, *args):
        self.kind, self.args = kind, args


class NonFormula:
    """An arbitrary object that is not a formula and has none of the attributes of one."""


NON = NonFormula()


# ------------------------------------------------------------------ source of live functions
_files = {}
_nodes = {}


def fn_node(fn):
    """AST of a live function."""
    code = fn.__code__
    k = (code.co_filename, code.co_firstlineno, code.co_name)
    if k in _nodes:
        return _nodes[k]
    if code.co_filename not in _files:
        with open(code.co_filename, encoding="utf-8") as f:
            _files[code.co_filename] = ast.parse(f.read())
    found = []
    for n in ast.walk(_files[code.co_filename]):
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            line = n.decorator_list[0].lineno if isinstance(n, ast.FunctionDef) and n.decorator_list else n.lineno
            name = n.name if isinstance(n, ast.FunctionDef) else "<lambda>"
            if line == code.co_firstlineno and name == code.co_name:
                found.append(n)
    if len(found) != 1:
        raise Unsupported(f"source of {fn.__qualname__} not found")
    _nodes[k] = found[0]
    return found[0]


def mangle_of(fn):
    q = fn.__code__.co_qualname.split(".")
    for i in range(len(q) - 2, -1, -1):
        if q[i] != "<locals>":
            nxt = q[i + 1]
            if nxt != "<locals>":
                return q[i]
            # q[i] is a function: is there a class further out?
    return None


def free_of(node):
    return {n.id for n in ast.walk(node) if isinstance(n, ast.Name)}


_isgen = {}


def is_generator(node):
    if id(node) not in _isgen:
        def walk(n):
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.Yield, ast.YieldFrom)):
                    return True
                if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.GeneratorExp)):
                    continue
                if walk(c):
                    return True
            return False
        _isgen[id(node)] = walk(node)
    return _isgen[id(node)]


def is_native(v):
    """A value that is an ordinary Python object of the live program."""
    return not isinstance(v, Val)


EXC = {n: getattr(builtins, n) for n in dir(builtins) if isinstance(getattr(builtins, n), type) and issubclass(getattr(builtins, n), BaseException)}


class Interp:
    """Executes code in a Run."""

    def __init__(self, run, contracts=None, attr_contracts=None, trace=None):
        self.run = run
        self.contracts = dict(contracts or {})       # function object -> handler(it, args, kwargs)
        self.attrs = dict(attr_contracts or {})      # attribute name of a symbolic formula -> handler(it, SF)
        self.depth = 0
        self.used = set()                            # functions whose body was executed
        self.by_contract = set()
        self.eq_formula = None                       # override of formula equality
        self.loop_hints = []
        self.class_attr = {}                         # (class, attribute) -> handler returning a value
        self.str_formula = None
        self.loop_log = []
        self.class_setattr = None
        self.field_hook = None                       # fields of symbolic formulas

    # ---------------------------------------------------------------- heap
    def alloc(self, kind, cls, data):
        r = self.run
        r.locs += 1
        r.heap[r.locs] = Obj(kind, cls, data)
        return Ref(r.locs)

    def obj(self, ref):
        return self.run.heap[ref.loc]

    def write(self, ref, data):
        o = self.run.heap[ref.loc]
        if ref.loc <= self.run.fresh_from and o.kind != "frame":
            self.run.log.append((ref.loc, o.kind))
        self.run.heap[ref.loc] = Obj(o.kind, o.cls, data)

    def new_list(self, segs):
        return self.alloc("list", list, tuple(segs))

    def new_set(self, segs, frozen=False):
        return self.alloc("frozenset" if frozen else "set", frozenset if frozen else set, tuple(segs))

    # ---------------------------------------------------------------- functions
    def call_node(self, node, env_parent, globs, args, kwargs, defaults, kwdefaults, name, mangle, dunder_class):
        if self.depth > 60:
            raise Unsupported(f"recursion too deep at {name}")
        self.depth += 1
        try:
            loc = self.bind(node.args, args, kwargs, defaults, kwdefaults, name)
            fr = self.alloc("frame", None, dict(loc))
            ctx = Ctx(fr, env_parent, globs, mangle, dunder_class, args[0] if args else None, name)
            if isinstance(node, ast.Lambda):
                return self.eval(node.body, ctx)
            if is_generator(node):
                ctx.yields = self.new_list(())
                sig = self.block(node.body, ctx)
                return self.alloc("iter", None, View("segs", self.obj(ctx.yields).data))
            sig = self.block(node.body, ctx)
            return sig[1] if sig and sig[0] == "return" else None
        finally:
            self.depth -= 1

    def bind(self, a, args, kwargs, defaults, kwdefaults, name):
        pos = [p.arg for p in a.posonlyargs + a.args]
        loc = {}
        args = list(args)
        if any(isinstance(x, tuple) and len(x) == 2 and x[0] == "*segs" for x in args):
            # a starred sequence with symbolic segments: only as trailing *args
            flat, i = [], 0
            while i < len(args):
                x = args[i]
                if isinstance(x, tuple) and len(x) == 2 and x[0] == "*segs":
                    flat.extend(x[1])
                else:
                    flat.append(("e", x))
                i += 1
            k = 0
            while k < len(pos):
                if k < len(flat) and flat[k][0] == "e":
                    loc[pos[k]] = flat[k][1]
                    k += 1
                    continue
                if k < len(flat):
                    if flat[k][0] == "q":
                        flat[k:k + 1] = flat[k][1].front(self)
                        continue
                    if self.split_front(flat, k):
                        continue
                    del flat[k]
                    continue
                break
            rest = flat[k:]
            if a.vararg:
                loc[a.vararg.arg] = rest[0][1].value(self) if len(rest) == 1 and rest[0][0] == "q" else Tup(rest)
            elif rest:
                if any(self.nonempty([g]) for g in rest):
                    raise PyRaise(TypeError, ("too many arguments",))
            bound = pos[:k]
        else:
            for p, v in zip(pos, args):
                loc[p] = v
            bound = pos[:len(args)]
            extra = args[len(pos):]
            if a.vararg:
                loc[a.vararg.arg] = Tup([("e", v) for v in extra])
            elif extra:
                raise PyRaise(TypeError, (f"{name}() takes {len(pos)} positional arguments",))
        kw = dict(kwargs)
        for p in list(kw):
            if p in pos and p not in [x.arg for x in a.posonlyargs]:
                if p in loc:
                    raise PyRaise(TypeError, (f"multiple values for {p}",))
                loc[p] = kw.pop(p)
        nd = len(defaults)
        for i, p in enumerate(pos):
            if p not in loc:
                j = i - (len(pos) - nd)
                if j < 0:
                    raise PyRaise(TypeError, (f"{name}() missing argument {p}",))
                loc[p] = defaults[j]
        for p in a.kwonlyargs:
            if p.arg in kw:
                loc[p.arg] = kw.pop(p.arg)
            elif p.arg in kwdefaults:
                loc[p.arg] = kwdefaults[p.arg]
            else:
                raise PyRaise(TypeError, (f"missing keyword {p.arg}",))
        if a.kwarg:
            loc[a.kwarg.arg] = self.alloc("dict", dict, tuple((k, v) for k, v in kw.items()))
        elif kw:
            raise PyRaise(TypeError, (f"{name}() got an unexpected keyword",))
        return loc

    def call(self, f, args=(), kwargs=None, bypass=False):
        kwargs = kwargs or {}
        args = list(args)
        if isinstance(f, SCls):
            f = self.split_cls(f)
        if isinstance(f, BoundM):
            return self.call(f.fn, [f.self_] + args, kwargs)
        if isinstance(f, Builtin):
            return f.fn(self, args, kwargs)
        if isinstance(f, Closure):
            return self.call_node(f.node, f.env, f.globs, args, kwargs, f.defaults, f.kwdefaults, f.name, f.mangle, f.dunder_class)
        if isinstance(f, Ref):
            o = self.obj(f)
            if o.kind == "inst":
                m = self.class_lookup(o.cls, "__call__")
                if m is not MISSING:
                    return self.call(m, [f] + args, kwargs)
            raise PyRaise(TypeError, ("not callable",))
        if isinstance(f, (SF,)):
            h = self.attrs.get("__call__")
            if h:
                return h(self, f, args, kwargs)
            return self.call_method(f, "__call__", args, kwargs)
        if isinstance(f, (SB, SI, SStr, Tup)):
            raise PyRaise(TypeError, ("not callable",))
        if isinstance(f, Val):
            raise Unsupported(f"call of {f!r}")
        try:
            h = self.contracts.get(f)
        except TypeError:
            h = None
        if h is not None and not bypass:
            self.by_contract.add(getattr(f, "__qualname__", str(f)))
            return h(self, args, kwargs)
        if isinstance(f, functools.partial):
            return self.call(f.func, list(f.args) + args, {**f.keywords, **kwargs})
        if hasattr(f, "dispatch") and hasattr(f, "registry") and isinstance(f, types.FunctionType):
            if not args:
                raise PyRaise(TypeError, ("no argument",))
            c = self.class_of(args[0], lambda k: f.dispatch(k))
            return self.call(f.dispatch(c), args, kwargs)
        if isinstance(f, types.FunctionType):
            return self.call_live(f, args, kwargs)
        if isinstance(f, types.MethodType):
            return self.call(f.__func__, [f.__self__] + args, kwargs)
        if isinstance(f, type):
            return self.call_class(f, args, kwargs)
        if self.live_objects and type(f).__module__.startswith(self.live_objects):
            m = self.class_lookup(type(f), "__call__")
            if isinstance(m, types.FunctionType):
                return self.call(m, [f] + args, kwargs)
        if f in BI:
            return BI[f](self, args, kwargs)
        if isinstance(f, (types.MethodDescriptorType, types.WrapperDescriptorType)) and object.__dict__.get(f.__name__) is f \
                and f.__name__ in OBJECT_METHODS and args and isinstance(args[0], Ref):
            return OBJECT_METHODS[f.__name__](self, args, kwargs)
        if isinstance(f, types.BuiltinFunctionType) and f.__name__ in ("cast",):
            return args[1]
        if callable(f) and all(is_native(x) and not isinstance(x, tuple) for x in args) and all(is_native(x) for x in kwargs.values()):
            return self.native(f, args, kwargs)
        raise Unsupported(f"call of {f!r}")

    def native(self, f, args, kwargs):
        s = getattr(f, "__self__", None)
        ok = isinstance(s, (str, int, float, tuple, enum.Enum)) or isinstance(f, (types.WrapperDescriptorType, types.MethodDescriptorType)) \
            or getattr(f, "__module__", "") in ("operator",) or f in (str, int, repr, ord, chr, abs, min, max)
        if not ok:
            raise Unsupported(f"native call of {f!r}")
        try:
            return f(*args, **kwargs)
        except Exception as e:  # noqa
            raise PyRaise(type(e), e.args)

    def call_live(self, f, args, kwargs):
        if f is typing.cast:
            return args[1]
        if not (f.__module__ or "").startswith(("pylogics_modalities", "vf.")):
            raise Unsupported(f"call of {f.__module__}.{f.__qualname__}")
        node = fn_node(f)
        self.used.add(f"{f.__module__.replace('pylogics_modalities.', '')}:{f.__qualname__}")
        env = {}
        dc = None
        if f.__closure__:
            for n, c in zip(f.__code__.co_freevars, f.__closure__):
                try:
                    env[n] = c.cell_contents
                except ValueError:
                    continue
            dc = env.get("__class__")
        parent = (self.alloc("frame", None, env), None) if env else None
        kwd = {k: self.lift(v) for k, v in (f.__kwdefaults__ or {}).items()}
        return self.call_node(node, parent, f.__globals__, args, kwargs, [self.lift(v) for v in f.__defaults__ or ()], kwd, f.__qualname__, mangle_of(f), dc)

    def lift(self, v):
        """Live containers that may meet symbolic elements."""
        if isinstance(v, tuple) and not isinstance(v, Val):
            return Tup([("e", self.lift(x)) for x in v])
        if isinstance(v, Formula) and not isinstance(v, type):
            return self.lift_formula(v)
        return v

    def lift_formula(self, v):
        raise Unsupported("live formula object")

    def call_class(self, c, args, kwargs):
        if c in BI:
            return BI[c](self, args, kwargs)
        if c is type:
            if len(args) == 1:
                return self.type_of(args[0])
            raise Unsupported("type()")
        if issubclass(c, BaseException):
            return self.alloc("inst", c, {"args": Tup([("e", a) for a in args])})
        if issubclass(c, enum.Enum):
            raise Unsupported("enum call")
        mc = type(c)
        m = self.class_lookup(mc, "__call__")
        if isinstance(m, types.FunctionType):
            h = self.contracts.get(m)
            if h:
                self.by_contract.add(getattr(m, "__qualname__", str(m)))
                return h(self, [c] + args, kwargs)
            return self.call_live(m, [c] + args, kwargs)
        return self.type_call(c, args, kwargs)

    def type_call(self, c, args, kwargs):
        """type.__call__: __new__ then __init__."""
        if not c.__module__.startswith(("pylogics_modalities", "vf.")):
            raise Unsupported(f"construction of {c!r}")
        if getattr(c, "__abstractmethods__", None):
            raise PyRaise(TypeError, ("abstract class",))
        nw = self.class_lookup(c, "__new__")
        if isinstance(nw, staticmethod):
            nw = nw.__func__
        if isinstance(nw, types.FunctionType):
            o = self.call(nw, [c] + args, kwargs)
        else:
            o = self.new_instance(c, args)
        if not self.run.branch(self.truth(self.isinstance(o, c))):
            return o
        k = self.class_of(o, lambda k: self.class_lookup(k, "__init__"))
        init = self.class_lookup(k, "__init__")
        if isinstance(init, types.FunctionType):
            self.call(init, [o] + args, kwargs)
        elif args and nw is object.__new__:
            raise PyRaise(TypeError, ("takes no arguments",))
        return o

    def new_instance(self, c, rest=()):
        if getattr(c, "__abstractmethods__", None):
            raise PyRaise(TypeError, ("abstract class",))
        for b in c.__mro__:
            if b in (list, dict, set, tuple, str, int):
                if b is list:
                    return self.alloc("list", c, ())
                if b is str and rest:
                    t = self.to_str(rest[0])
                    return SStr(t.parts if isinstance(t, SStr) else [t], c)
                raise Unsupported(f"instance of {c!r}")
        return self.alloc("inst", c, {})

    # ---------------------------------------------------------------- classes and attributes
    def class_lookup(self, c, name, after=None):
        mro = c.__mro__
        if after is not None:
            mro = mro[mro.index(after) + 1:]
        for k in mro:
            if name in k.__dict__:
                return k.__dict__[name]
        return MISSING

    def class_of(self, v, groupby=None):
        """Concrete class of a value (forks over the groups of classes that groupby distinguishes)."""
        if isinstance(v, SF):
            k = key(v.t)
            groups = {}
            for c in CLASSES:
                g = groupby(c) if groupby else c
                try:
                    hash(g)
                except TypeError:
                    g = id(g)
                groups.setdefault(g, []).append(c)
            gs = list(groups.values())
            while len(gs) > 1:
                if self.run.branch(in_cls(k, gs[0])):
                    return gs[0][0]
                gs.pop(0)
            return gs[0][0]
        t = self.type_of(v)
        if isinstance(t, SCls):
            raise Unsupported("class of a symbolic value")
        return t

    def type_of(self, v):
        if isinstance(v, SF):
            for c in CLASSES:
                pass
            return SCls(kcls(key(v.t)))
        if isinstance(v, SB):
            return bool
        if isinstance(v, SI):
            return int
        if isinstance(v, SLg):
            return Logic
        if isinstance(v, SStr):
            return v.cls
        if isinstance(v, Tup):
            return tuple
        if isinstance(v, Ref):
            o = self.obj(v)
            if o.kind in ("inst", "list", "set", "frozenset", "dict") and o.cls is not None:
                return o.cls
            raise Unsupported("type of an iterator")
        if isinstance(v, Val):
            if isinstance(v, Opq) and isinstance(v.data, dict) and "cls" in v.data:
                return v.data["cls"]
            raise Unsupported(f"type of {v!r}")
        return type(v)

    def isinstance(self, v, c):
        """Boolean or SB."""
        if isinstance(c, Tup):
            out = False
            for g in c.segs:
                r = self.isinstance(v, g[1])
                if r is True:
                    return True
                if isinstance(r, SB):
                    out = SB(z3.Or(r.t, out.t)) if isinstance(out, SB) else r
            return out
        if isinstance(c, tuple):
            return self.isinstance(v, Tup([("e", x) for x in c]))
        if isinstance(c, SCls):
            # isinstance(v, type(x)) for a symbolic x
            out = []
            for k in CLASSES:
                r = self.isinstance(v, k)
                out.append(z3.And(c.t == CC[k], r.t if isinstance(r, SB) else TT(r)))
            return SB(z3.Or(out))
        if not isinstance(c, type):
            raise Unsupported(f"isinstance with {c!r}")
        if isinstance(v, SF):
            if self.isinstance_hook:
                return self.isinstance_hook(self, v, c)
            cs = [k for k in CLASSES if issubclass(k, c)]
            if not cs:
                return False
            if len(cs) == len(CLASSES):
                return True
            return SB(in_cls(key(v.t), cs))
        return issubclass(self.type_of(v), c)

    def truth(self, v):
        """z3 Bool or bool."""
        if isinstance(v, SB):
            return v.t
        if isinstance(v, SI):
            return v.t != 0
        if isinstance(v, Tup):
            return self.len_cond(v.segs)
        if isinstance(v, SF):
            for nm in ("__bool__", "__len__"):
                if any(self.class_lookup(c, nm) is not MISSING for c in CLASSES):
                    if self.class_lookup(self.class_of(v, lambda k: self.class_lookup(k, nm)), nm) is not MISSING:
                        return self.truth(self.call_method(v, nm, []))
            return True
        if isinstance(v, (SLg, SCls, Closure, BoundM, Builtin)):
            return True
        if isinstance(v, SStr):
            if any(isinstance(p, str) for p in v.parts):
                return True
            raise Unsupported("truth of a string")
        if isinstance(v, Ref):
            o = self.obj(v)
            if o.kind in ("list", "set", "frozenset"):
                return self.len_cond(o.data)
            if o.kind == "dict":
                if isinstance(o.data, tuple):
                    return bool(o.data) if not any(isinstance(e, View) for e in o.data) else self.len_cond(o.data)
                return o.data.truth(self)
            if o.kind == "inst":
                for nm in ("__bool__", "__len__"):
                    if self.class_lookup(o.cls, nm) is not MISSING:
                        return self.truth(self.call_method(v, nm, []))
                return True
            return True
        if isinstance(v, Opq):
            h = v.data.get("truth") if isinstance(v.data, dict) else None
            if h:
                return h(self)
            raise Unsupported(f"truth of {v!r}")
        return bool(v)

    def len_cond(self, segs):
        if any(g[0] == "e" for g in segs):
            return True
        if not segs:
            return False
        if any(g[0] == "q" for g in segs):
            if len(segs) == 1:
                return segs[0][1].nonempty(self)
            raise Unsupported("length of an abstract collection")
        return z3.Or([z3.Not(All(z3.Not(g[3]), g[1])) if not z3.is_true(g[3]) else slen(g[1]) >= 1 for g in segs])

    def nonempty(self, segs):
        return self.run.branch(self.len_cond(segs))

    def getattr(self, v, name, default=MISSING):
        run = self.run
        if name == "__class__" and (v is NON or isinstance(v, (SF, SB, SI, SLg, SStr, Tup))):
            return self.type_of(v)
        if isinstance(v, SF):
            h = self.attrs.get(name)
            if h is not None:
                self.by_contract.add("formula." + name)
                return h(self, v)
            c = self.class_of(v, lambda k: self.class_lookup(k, name))
            a = self.class_lookup(c, name)
            if a is MISSING:
                raise_ = not name.startswith("_")
                if self.field_hook:
                    return self.field_hook(self, v, name)
                if raise_:
                    return self._noattr(v, name, default)
                raise Unsupported(f"field {name} of a symbolic formula")
            return self.bind_attr(a, v, c)
        if isinstance(v, Ref):
            o = self.obj(v)
            if o.kind == "inst":
                a = self.class_lookup(o.cls, name)
                if isinstance(a, property):
                    return self.call(a.fget, [v])
                if name in o.data:
                    return o.data[name]
                if name == "__dict__":
                    return self.alloc("dict", dict, LiveDict(v))
                if name == "__class__":
                    return o.cls
                if a is MISSING:
                    return self._noattr(v, name, default)
                return self.bind_attr(a, v, o.cls)
            m = METHODS.get((o.kind, name))
            if o.cls is not None and o.cls.__module__.startswith("pylogics"):
                a = self.class_lookup(o.cls, name)
                if isinstance(a, types.FunctionType):
                    return BoundM(a, v)
            if m is not None:
                return BoundM(Builtin(name, m), v)
            if o.kind == "dict" and not isinstance(o.data, tuple):
                return BoundM(Builtin(name, lambda it, a, k: it.obj(a[0]).data.method(it, name, a, k)), v)
            if default is not MISSING and not hasattr(o.cls or object, name):
                return default
            raise Unsupported(f"attribute {name} of a {o.kind}")
        if isinstance(v, SuperV):
            return self.super_attr(v, name)
        if isinstance(v, Tup):
            m = METHODS.get(("tuple", name))
            if m:
                return BoundM(Builtin(name, m), v)
            if default is not MISSING and not hasattr(tuple, name):
                return default
            raise Unsupported(f"tuple.{name}")
        if isinstance(v, SStr) or isinstance(v, str):
            if isinstance(v, SStr) and v.cls is not str:
                a = self.class_lookup(v.cls, name)
                if isinstance(a, (types.FunctionType, property, staticmethod, classmethod)):
                    return self.bind_attr(a, v, v.cls)
                if a is not MISSING and not isinstance(a, (types.WrapperDescriptorType, types.MethodDescriptorType)):
                    return a
            m = METHODS.get(("str", name))
            if m:
                return BoundM(Builtin(name, m), v)
            if isinstance(v, str):
                return getattr(v, name)
            raise Unsupported(f"str.{name}")
        if isinstance(v, SLg):
            if name in ("value", "name"):
                return SStr([Opq("logicname")])
            raise Unsupported(f"Logic.{name}")
        if isinstance(v, SCls):
            if name in ("__name__", "__qualname__", "SYMBOL"):
                return SStr([Opq("clsname")])
            c = self.split_cls(v)
            return self.getattr(c, name, default)
        if isinstance(v, (Closure, BoundM)):
            if name == "__name__":
                return "f"
            if default is not MISSING and not hasattr(types.FunctionType, name):
                return default
            raise Unsupported(f"function attribute {name}")
        if isinstance(v, Opq):
            d = v.data if isinstance(v.data, dict) else {}
            if v.given and name in ("append", "insert", "pop", "clear"):
                return Builtin(name, lambda i, a, k: changed(f"{name} on {v!r}"))
            if "attr" in d:
                return d["attr"](self, v, name, default)
            raise Unsupported(f"attribute {name} of {v!r}")
        if isinstance(v, re.Pattern):
            if name in ("fullmatch", "match", "search"):
                return Builtin(name, lambda it, a, k: it.regex(v, name, a[0]))
            return getattr(v, name)
        if isinstance(v, (SI, SB)):
            raise Unsupported(f"attribute {name} of a number")
        if isinstance(v, type):
            h = self.class_attr.get((v, name)) or self.class_attr.get(name)
            if h:
                return h(self, v)
            a = self.class_lookup(v, name)
            if a is not MISSING:
                if isinstance(a, types.FunctionType):
                    return a
                if isinstance(a, staticmethod):
                    return a.__func__
                if isinstance(a, classmethod):
                    return BoundM(a.__func__, v)
                if isinstance(a, property) or isinstance(a, (types.WrapperDescriptorType, types.MethodDescriptorType, types.GetSetDescriptorType, types.ClassMethodDescriptorType)):
                    return getattr(v, name)
                return self.lift(a) if isinstance(a, tuple) else a
            m = self.class_lookup(type(v), name)
            if isinstance(m, types.FunctionType):
                return BoundM(m, v)
            if isinstance(m, classmethod):
                return BoundM(m.__func__, type(v))
            if isinstance(m, staticmethod):
                return m.__func__
            if m is not MISSING:
                r = getattr(v, name, MISSING)
                if r is not MISSING:
                    return r
            return self._noattr(v, name, default)
        if isinstance(v, types.ModuleType):
            r = getattr(v, name, MISSING)
            if r is MISSING:
                return self._noattr(v, name, default)
            return self.lift(r) if isinstance(r, tuple) else r
        if v is NON:
            if hasattr(object, name):
                raise Unsupported(f"attribute {name} of an arbitrary object")
            return self._noattr(v, name, default)
        if isinstance(v, (types.FunctionType, enum.Enum, functools.partial)) or v is None or isinstance(v, (int, float)):
            r = getattr(v, name, MISSING)
            if r is MISSING:
                return self._noattr(v, name, default)
            return r
        if self.live_objects and type(v).__module__.startswith(self.live_objects):
            a = self.class_lookup(type(v), name)
            if isinstance(a, property):
                return self.call(a.fget, [v])
            d = vars(v)
            if name in d:
                return d[name]
            if a is not MISSING:
                return self.bind_attr(a, v, type(v))
            return self._noattr(v, name, default)
        raise Unsupported(f"attribute {name} of {v!r}")

    def regex(self, pattern, how, text):
        """Result of a regular expression match: its truth is an uninterpreted predicate of the text."""
        if isinstance(text, str):
            return getattr(pattern, how)(text)
        if not isinstance(text, SStr) or len(text.parts) != 1 or not z3.is_expr(text.parts[0]):
            if isinstance(text, (SF, SB, SI, Tup)) or isinstance(text, Ref) and self.obj(text).kind != "inst":
                raise PyRaise(TypeError)
            raise Unsupported("regular expression on a composed string")
        p = z3.Function(f"re<{how}|{pattern.pattern}|{pattern.flags}>", Str, BOOL)(text.parts[0])
        if getattr(self, "regex_seen", None) is not None:
            self.regex_seen[p.decl().name()] = (pattern, how)
        return Opq("match", {"truth": lambda it: p, "is": lambda it, o: SB(z3.Not(p)) if o is None else False, "cls": re.Match})

    def split_cls(self, c):
        k = list(CLASSES)
        while len(k) > 1:
            if self.run.branch(c.t == CC[k[0]]):
                return k[0]
            k.pop(0)
        return k[0]

    def _noattr(self, v, name, default):
        if default is not MISSING:
            return default
        raise PyRaise(AttributeError, (name,))

    def bind_attr(self, a, v, c):
        if isinstance(a, property):
            return self.call(a.fget, [v])
        if isinstance(a, types.FunctionType):
            return BoundM(a, v)
        if isinstance(a, staticmethod):
            return a.__func__
        if isinstance(a, classmethod):
            return BoundM(a.__func__, c)
        if isinstance(a, (types.WrapperDescriptorType, types.MethodDescriptorType, types.BuiltinFunctionType, types.ClassMethodDescriptorType)):
            m = OBJECT_METHODS.get(getattr(a, "__name__", None))
            if m:
                return BoundM(Builtin(a.__name__, m), v)
            raise Unsupported(f"method {a!r}")
        return self.lift(a) if isinstance(a, tuple) else a

    def super_attr(self, v, name):
        if isinstance(v.obj, type):
            # metaclass method or class: is v.obj an instance of v.cls (metaclass) or a subclass?
            if issubclass(v.obj, v.cls) if not (isinstance(v.obj, v.cls)) else False:
                a = self.class_lookup(v.obj, name, after=v.cls)
                if name == "__new__" and not isinstance(a, (types.FunctionType, staticmethod)):
                    return Builtin("__new__", lambda it, ar, kw: it.new_instance(ar[0], ar[1:]))
                if isinstance(a, staticmethod):
                    return a.__func__
                if isinstance(a, classmethod):
                    return BoundM(a.__func__, v.obj)
                return a
            a = self.class_lookup(type(v.obj), name, after=v.cls)
            if isinstance(a, types.FunctionType):
                return BoundM(a, v.obj)
            if name == "__call__":
                return Builtin("type.__call__", lambda it, ar, kw: it.type_call(v.obj, ar, kw))
            raise Unsupported(f"super().{name}")
        c = self.class_of(v.obj, lambda k: self.class_lookup(k, name, after=v.cls) if v.cls in k.__mro__ else None)
        a = self.class_lookup(c, name, after=v.cls)
        if a is MISSING:
            raise PyRaise(AttributeError, (name,))
        if isinstance(a, property):
            return self.call(a.fget, [v.obj])
        if isinstance(a, types.FunctionType):
            return BoundM(a, v.obj)
        if isinstance(a, classmethod):
            return BoundM(a.__func__, c)
        m = OBJECT_METHODS.get(name)
        if m is None and isinstance(v.obj, Ref):
            m = METHODS.get((self.obj(v.obj).kind, name))
        if m:
            return BoundM(Builtin(name, m), v.obj)
        raise Unsupported(f"super().{name}")

    def call_method(self, v, name, args=(), kwargs=None):
        """Implicit special method call: looked up on the class."""
        if isinstance(v, SF):
            h = self.attrs.get(name)
            if h is not None:
                return h(self, v, *args)
            c = self.class_of(v, lambda k: self.class_lookup(k, name))
            a = self.class_lookup(c, name)
            if a is MISSING:
                raise PyRaise(TypeError, (name,))
            return self.call(self.bind_attr(a, v, c), list(args), kwargs)
        if isinstance(v, Ref):
            c = self.obj(v).cls
            a = self.class_lookup(c, name)
            if a is MISSING:
                raise PyRaise(TypeError, (name,))
            return self.call(self.bind_attr(a, v, c), list(args), kwargs)
        raise Unsupported(f"{name} of {v!r}")

    def setattr(self, v, name, x):
        if isinstance(v, Ref) and self.obj(v).kind == "inst":
            o = self.obj(v)
            a = self.class_lookup(o.cls, name)
            if isinstance(a, property):
                if a.fset is not None:
                    self.call(a.fset, [v, x])
                    return
                raise PyRaise(AttributeError, (name,))
            if name == "__dict__":
                if not isinstance(x, Ref) or self.obj(x).kind != "dict" or not isinstance(self.obj(x).data, tuple):
                    raise Unsupported("__dict__ set to something that is not a plain dictionary")
                self.write(v, {k: e for k, e in self.obj(x).data})
                return
            d = dict(o.data)
            d[name] = x
            self.write(v, d)
            return
        if isinstance(v, SF):
            h = self.attrs.get("__setattr__")
            if h:
                return h(self, v, name, x)
            self.run.log.append((str(v.t), "formula." + name))
            return
        if isinstance(v, type) and self.class_setattr:
            return self.class_setattr(self, v, name, x)
        raise Unsupported(f"assignment to attribute {name} of {v!r}")

    # ---------------------------------------------------------------- equality
    def formula_term(self, v):
        """z3 term of a formula value (None: not a formula)."""
        if isinstance(v, SF):
            return v.t
        if isinstance(v, Ref):
            o = self.obj(v)
            if o.kind == "inst" and isinstance(o.cls, type) and issubclass(o.cls, Formula):
                return self.reify(v)
        return None

    def reify(self, ref):
        g = self.run.ghost.get(("reified", ref.loc))
        if g is not None:
            return g
        o = self.obj(ref)
        if o.cls not in CC:
            raise Unsupported(f"instance of {o.cls!r}")
        x = self.run.fresh(F, "obj")
        self.run.ghost[("reified", ref.loc)] = x
        self.run.assume(kcls(key(x)) == CC[o.cls])
        lg = self.getattr(ref, "logic")
        self.run.assume(klg(key(x)) == self.logic_term(lg))
        if o.cls in NARY:
            v = self.getattr(ref, "operands")
            self.define(ops(x), self.segs_of(v))
        elif o.cls in UNARY:
            a = self.getattr(ref, "argument")
            at = self.formula_term(a)
            if at is None:
                raise Unsupported("argument that is not a formula")
            self.run.assume(arg(x) == at)
            self.run.assume(key(arg(x)) == key(at))
        elif o.cls in MODAL or o.cls in QUANT:
            names = ("regular_expression", "tail_formula") if o.cls in MODAL else ("variable", "formula")
            for i, nm in enumerate(names):
                a = self.formula_term(self.getattr(ref, nm))
                if a is not None:
                    self.run.assume(part[i](x) == a)
        return x

    def logic_term(self, lg):
        if isinstance(lg, SLg):
            return lg.t
        if isinstance(lg, Logic):
            return LC[lg]
        raise Unsupported(f"logic {lg!r}")

    def define(self, s, segs):
        """Record that the sequence s is the concatenation of segs."""
        segs = [("e", self.fterm(g[1])) if g[0] == "e" else g for g in segs]
        self.run.sterm[s.get_id()] = s
        _keep.append(s)
        self.run.defs.setdefault(s.get_id(), []).append(segs)

    def fterm(self, v):
        if z3.is_expr(v):
            return v
        t = self.formula_term(v)
        if t is None:
            raise Unsupported(f"sequence element {v!r}")
        return t

    def zsegs(self, segs):
        """Segments with z3 elements (elements must be formulas)."""
        out = []
        for g in segs:
            if g[0] == "e":
                out.append(("e", self.fterm(g[1])))
            else:
                v = g[4]
                out.append((g[0], g[1], g[2], g[3], nge(v if z3.is_expr(v) else self.fterm(v))))
        return out

    def eq(self, a, b):
        """Python == as bool or SB."""
        self.not_temp(a, b)
        if isinstance(a, SF) or isinstance(b, SF) or self._is_finst(a) or self._is_finst(b):
            if self.eq_formula:
                return self.eq_formula(self, a, b)
            ta, tb = self.formula_term(a), self.formula_term(b)
            if ta is None or tb is None:
                return False
            if ta.get_id() == tb.get_id():
                return True
            return SB(key(ta) == key(tb))
        if isinstance(a, (SLg, Logic)) or isinstance(b, (SLg, Logic)):
            if isinstance(a, (SLg, Logic)) and isinstance(b, (SLg, Logic)):
                if isinstance(a, Logic) and isinstance(b, Logic):
                    return a == b
                return SB(self.logic_term(a) == self.logic_term(b))
            return False
        if isinstance(a, (SCls, type)) or isinstance(b, (SCls, type)):
            return self.is_(a, b)
        if isinstance(a, SB) or isinstance(b, SB):
            if isinstance(a, (SB, bool)) and isinstance(b, (SB, bool)):
                return SB(TT(a.t if isinstance(a, SB) else a) == TT(b.t if isinstance(b, SB) else b))
            if isinstance(b, (SI, int)) or isinstance(a, (SI, int)):
                return SB(self.int_term(a) == self.int_term(b))
            return False
        if isinstance(a, SI) or isinstance(b, SI):
            if isinstance(a, (SI, int)) and isinstance(b, (SI, int)):
                return SB(self.int_term(a) == self.int_term(b))
            return False
        if isinstance(a, Tup) and isinstance(b, Tup):
            return self.seq_eq(a.segs, b.segs)
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a == b:
                return True
            oa, ob = self.obj(a), self.obj(b)
            if oa.kind == ob.kind == "list":
                return self.seq_eq(oa.data, ob.data)
            if oa.kind in ("set", "frozenset") and ob.kind in ("set", "frozenset"):
                return self.set_eq(oa.data, ob.data)
            if oa.kind == "inst" and self.class_lookup(oa.cls, "__eq__") is not object.__dict__["__eq__"]:
                return self.call_method(a, "__eq__", [b])
            if oa.kind != ob.kind:
                return False
            if oa.kind == "inst":
                return False
            raise Unsupported("comparison of containers")
        if isinstance(a, (SStr, str)) and isinstance(b, (SStr, str)):
            return self.str_eq(a, b)
        if isinstance(a, Opq) or isinstance(b, Opq):
            if a is b:
                return True
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Opq) and isinstance(x.data, dict) and "eq" in x.data:
                    return x.data["eq"](self, y)
            raise Unsupported(f"comparison of {a!r} and {b!r}")
        if isinstance(a, Val) or isinstance(b, Val):
            return a is b
        return a == b

    def _is_finst(self, v):
        return isinstance(v, Ref) and self.obj(v).kind == "inst" and issubclass(self.obj(v).cls, Formula)

    def str_eq(self, a, b):
        pa = a.parts if isinstance(a, SStr) else (a,)
        pb = b.parts if isinstance(b, SStr) else (b,)
        if len(pa) == len(pb) == 1 and not isinstance(pa[0], str) and not isinstance(pb[0], str) and z3.is_expr(pa[0]) and z3.is_expr(pb[0]):
            return SB(pa[0] == pb[0])
        if len(pa) == len(pb) and all((x == y if isinstance(x, str) or isinstance(y, str) else (x is y or (z3.is_expr(x) and z3.is_expr(y) and x.eq(y)))) for x, y in zip(pa, pb)):
            return True
        if all(isinstance(x, str) for x in pa + pb):
            return a == b
        return SB(z3.Bool(f"streq<{pa}|{pb}>"))

    def seq_eq(self, A, Bs):
        """Equality of two sequences, elementwise."""
        A, Bs = list(A), list(Bs)
        if len(A) == len(Bs) and all(self._same_seg(x, y) for x, y in zip(A, Bs)):
            return True
        conds = []
        while A and Bs and A[0][0] == "e" and Bs[0][0] == "e":
            r = self.eq(A.pop(0)[1], Bs.pop(0)[1])
            if r is False:
                return False
            if r is not True:
                conds.append(r.t)
        if A or Bs:
            if not A or not Bs:
                rest = A or Bs
                c = self.len_cond(rest)
                if c is True:
                    return False
                conds.append(z3.Not(TT(c)))
            else:
                h = getattr(self, "seq_eq_hook", None)
                if h is None:
                    raise Unsupported("equality of symbolic sequences")
                conds.append(h(self, A, Bs))
        return SB(z3.And(conds)) if conds else True

    def _same_seg(self, x, y):
        if x[0] != y[0]:
            return False
        if x[0] == "e":
            return x[1] is y[1] or (isinstance(x[1], SF) and isinstance(y[1], SF) and x[1].t.eq(y[1].t))
        return x[1].eq(y[1]) and x[2] == y[2] and x[3].eq(y[3]) and (x[4] is y[4] or (z3.is_expr(x[4]) and z3.is_expr(y[4]) and x[4].eq(y[4])))

    def set_eq(self, A, Bs):
        h = getattr(self, "set_eq_hook", None)
        if h is None:
            raise Unsupported("equality of symbolic sets")
        return SB(h(self, A, Bs))

    def not_temp(self, *vs):
        for v in vs:
            if isinstance(v, Opq) and v.tag == "loop-temporary":
                raise Unsupported("value of a loop temporary")

    def is_(self, a, b):
        self.not_temp(a, b)
        if isinstance(a, SCls) or isinstance(b, SCls):
            ta = a.t if isinstance(a, SCls) else CC.get(a) if isinstance(a, type) else None
            tb = b.t if isinstance(b, SCls) else CC.get(b) if isinstance(b, type) else None
            if ta is None or tb is None:
                return False
            return SB(ta == tb)
        if a is None or b is None or isinstance(a, (bool, type)) or isinstance(b, (bool, type)):
            if isinstance(a, SB) or isinstance(b, SB):
                return self.eq(a, b) if a is not None and b is not None else False
            if isinstance(a, Opq) and isinstance(a.data, dict) and "is" in a.data:
                return a.data["is"](self, b)
            if isinstance(b, Opq) and isinstance(b.data, dict) and "is" in b.data:
                return b.data["is"](self, a)
            return a is b
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Opq) and isinstance(x.data, dict) and "is" in x.data:
                return x.data["is"](self, y)
        if isinstance(a, Ref) and isinstance(b, Ref):
            return a == b
        if isinstance(a, (SLg, Logic)) and isinstance(b, (SLg, Logic)):
            return self.eq(a, b)
        if isinstance(a, SF) and isinstance(b, SF):
            if a.t.eq(b.t):
                return True
            return SB(z3.And(key(a.t) == key(b.t), self.run.fresh(BOOL, "is")))
        if isinstance(a, Val) or isinstance(b, Val):
            if type(a) is not type(b):
                return False
            raise Unsupported("identity of symbolic values")
        return a is b

    def int_term(self, v):
        if isinstance(v, SI):
            return v.t
        if isinstance(v, SB):
            return z3.If(v.t, 1, 0)
        if isinstance(v, bool):
            return z3.IntVal(int(v))
        if isinstance(v, int):
            return z3.IntVal(v)
        raise Unsupported(f"integer {v!r}")

    def contains(self, x, c):
        if isinstance(c, Tup):
            return self.any_eq(x, c.segs)
        if isinstance(c, Ref):
            o = self.obj(c)
            if o.kind in ("list", "set", "frozenset"):
                return self.any_eq(x, o.data)
            if o.kind == "dict":
                if isinstance(o.data, tuple):
                    return self.any_eq(x, self.segs_of(c))
                return o.data.contains(self, x)
            if o.kind == "inst":
                r = self.call_method(c, "__contains__", [x])
                t = self.truth(r)
                return t if isinstance(t, bool) else SB(t)
            if o.kind == "iter":
                return self.any_eq(x, self.segs_of(c))
        if isinstance(c, (set, frozenset, list, tuple)) and not isinstance(c, Val):
            return self.any_eq(x, [("e", self.lift(y)) for y in c])
        if isinstance(c, dict):
            return self.any_eq(x, [("e", self.lift(y)) for y in c])
        if isinstance(c, Opq) and isinstance(c.data, dict) and "contains" in c.data:
            return c.data["contains"](self, x)
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        raise Unsupported(f"membership in {c!r}")

    def any_eq(self, x, segs):
        out = []
        for g in segs:
            if g[0] == "e":
                r = self.eq(g[1], x)
                if r is True:
                    return True
                if r is not False:
                    out.append(r.t)
            else:
                t = self.formula_term(x)
                if t is None:
                    raise Unsupported("membership of a non-formula")
                v = g[4] if z3.is_expr(g[4]) else self.fterm(g[4])
                out.append(z3.Not(All(imp(g[3], key(v) != key(t)), g[1])))
        if not out:
            return False
        return SB(z3.Or(out) if len(out) > 1 else out[0])

    # ---------------------------------------------------------------- sequences
    def segs_of(self, v):
        """Segments of an iterable (consumes iterators)."""
        if isinstance(v, Tup):
            return list(v.segs)
        if isinstance(v, Ref):
            o = self.obj(v)
            if o.kind in ("list", "set", "frozenset"):
                return list(o.data)
            if o.kind == "dict":
                if isinstance(o.data, tuple):
                    out = []
                    for e in o.data:
                        if e[0] == "c*":
                            out.append(e[1])
                        else:
                            out.append(("e", e[0]))
                    return out
                return o.data.keys(self)
            if o.kind == "iter":
                view = o.data
                self.run.heap[v.loc] = Obj("iter", None, View("segs", ()))
                return self.view_segs(view)
            if o.kind == "inst":
                m = self.class_lookup(o.cls, "__iter__")
                if m is not MISSING:
                    return self.segs_of(self.call_method(v, "__iter__", []))
        if isinstance(v, Opq) and isinstance(v.data, dict) and "iter" in v.data:
            return v.data["iter"](self)
        if isinstance(v, View):
            return self.view_segs(v)
        if isinstance(v, (tuple, list, set, frozenset, dict)) and not isinstance(v, Val):
            return [("e", self.lift(x)) for x in v]
        if isinstance(v, str):
            return [("e", x) for x in v]
        if isinstance(v, range):
            return [("e", x) for x in v]
        if isinstance(v, type) and issubclass(v, enum.Enum):
            return [("e", x) for x in v]
        if isinstance(v, (SF, SB, SI, SLg)) or v is None or v is NON or isinstance(v, (int, bool)):
            raise PyRaise(TypeError, ("not iterable",))
        raise Unsupported(f"iteration over {v!r}")

    def view_segs(self, w):
        k = w.kind
        if k == "segs":
            return list(w.args[0])
        if k == "rev":
            return self.reverse(w.args[0])
        if k == "map":
            f, seqs = w.args
            if len(seqs) != 1:
                return self.map_segs(self.view_segs(View("zip", seqs)), lambda it, v: (True, it.call(f, [g[1] for g in v.segs])))
            return self.map_segs(self.segs_of(seqs[0]), lambda it, v: (True, it.call(f, [v])))
        if k == "filter":
            f, seq = w.args
            return self.map_segs(self.segs_of(seq), lambda it, v: (it.truth(it.call(f, [v]) if f is not None else v), v))
        if k == "enum":
            out, n = [], w.args[1]
            segs = self.segs_of(w.args[0])
            if any(g[0] != "e" for g in segs):
                raise NeedPeel(w)
            for g in segs:
                out.append(("e", Tup([("e", n), ("e", g[1])])))
                n = self.add(n, 1)
            return out
        if k == "zip":
            seqs = [self.segs_of(s) for s in w.args[0]]
            out = []
            while all(seqs):
                heads = [s[0] for s in seqs]
                if all(h[0] == "e" for h in heads):
                    out.append(("e", Tup([("e", h[1]) for h in heads])))
                    for s in seqs:
                        s.pop(0)
                elif all(h[0] == "c" for h in heads) and all(h[1].eq(heads[0][1]) and h[2] == heads[0][2] and h[3].eq(heads[0][3]) for h in heads):
                    out.append(("c", heads[0][1], heads[0][2], heads[0][3], Tup([("e", SF(h[4]) if z3.is_expr(h[4]) else h[4]) for h in heads])))
                    for s in seqs:
                        s.pop(0)
                else:
                    raise Unsupported("zip of unrelated symbolic sequences")
            return out
        if k == "genexp":
            return w.args[0](self)
        raise Unsupported(f"iterator {k}")

    def reverse(self, segs):
        return [g if g[0] == "e" else (g[0], g[1], not g[2], g[3], g[4]) for g in reversed(segs)]

    def map_segs(self, segs, body):
        """body(it, value) -> (guard, value).  Single elements run in place; comprehension segments on a generic element."""
        out = []
        for g in segs:
            if g[0] == "e":
                c, v = body(self, self.up(g[1]))
                if self.run.branch(TT(c) if not isinstance(c, bool) else c):
                    out.append(("e", v))
            else:
                out.extend(self.map_generic(g, body))
        return out

    def up(self, v):
        """z3 element -> interpreter value."""
        if z3.is_expr(v):
            return SF(v) if v.sort() == F else SB(v)
        return v

    def gen_subst(self, v, a, b):
        """Replace term a by b in an interpreter value."""
        if z3.is_expr(v):
            return z3.substitute(v, (a, b))
        if isinstance(v, (SF, SB, SI, SLg, SCls)):
            return type(v)(z3.substitute(v.t, (a, b)))
        if isinstance(v, SStr):
            return SStr([self.gen_subst(p, a, b) if not isinstance(p, str) else p for p in v.parts])
        if isinstance(v, Tup):
            return Tup([("e", self.gen_subst(g[1], a, b)) if g[0] == "e" else (g[0], z3.substitute(g[1], (a, b)), g[2], z3.substitute(g[3], (a, b)), self.gen_subst(g[4], a, b)) for g in v.segs])
        if isinstance(v, Opq) and isinstance(v.data, dict) and "subst" in v.data:
            return v.data["subst"](self, a, b)
        return v

    def generic(self, g):
        """A fresh generic member of the comprehension segment g: the base element and the element value."""
        run = self.run
        e = run.fresh(F, "e")
        sid = g[1].get_id()
        run.sterm[sid] = g[1]
        run.members.setdefault(sid, []).append(e)
        run.assume(slen(g[1]) >= 1)
        run.assume(z3.substitute(g[3], (GE, e)))
        return e, self.up(self.gen_subst(g[4], GE, e))

    def map_generic(self, g, body):
        run = self.run
        e0 = {}

        def thunk():
            e, v = self.generic(g)
            e0["e"] = e
            e0["n"] = run.names
            e0["loc"] = run.locs
            base = len(run.pc)
            log = len(run.log)
            c, w = body(self, v)
            if len(run.log) > log:
                raise Unsupported("side effect inside a comprehension")
            return e, base, c, self.freeze(w)
        start_names = run.names
        res = run.explore(thunk)
        outs, raising = [], []
        for kind, v, st, pc in res:
            if kind == "raise":
                raising.append((v, pc))
                continue
            outs.append(v + (pc,))
        ebase = None
        # all explorations name the generic element afresh; rename to _e
        guards, vals = [], []
        bad = []
        for (e, base, c, w, pc) in outs:
            if c is False:
                continue
            extra = self._path_cond(pc, e, g)
            cond = z3.substitute(z3.And(extra + [TT(c)]), (e, GE))
            w = self.gen_subst(w, e, GE)
            self._no_local(cond, start_names, w)
            guards.append(cond)
            vals.append(w)
        if raising:
            rc = []
            for exc, pc in raising:
                e = self._elem_of(pc, g)
                cond = z3.substitute(z3.And(self._path_cond(pc, e, g)), (e, GE))
                self._no_local(cond, start_names, None)
                rc.append((exc, cond))
            ok = All(imp(g[3], z3.Not(z3.Or([c for _, c in rc]))), g[1])
            if not run.branch(ok):
                i = 0
                while i + 1 < len(rc) and not run.branch(z3.Not(All(imp(g[3], z3.Not(rc[i][1])), g[1]))):
                    i += 1
                raise PyRaise(rc[i][0])
        if not vals:
            return []
        guard = z3.simplify(z3.And(g[3], z3.Or(guards)))
        v = self.merge(guards, vals)
        return [(g[0], g[1], g[2], guard, nge(v.t) if isinstance(v, SF) else v)]

    def _elem_of(self, pc, g):
        for c in pc:
            for a in subapps(c):
                if a.num_args() == 0 and a.sort() == F and str(a).startswith("e!"):
                    return a
        raise Unsupported("generic element not found")

    def _path_cond(self, pc, e, g):
        """Branch conditions of a path over the generic element (membership facts dropped)."""
        drop = {z3.substitute(g[3], (GE, e)).get_id(), (slen(g[1]) >= 1).get_id()}
        return [c for c in pc if c.get_id() not in drop]

    def _no_local(self, cond, start, w):
        def bad(t):
            for a in subapps(t):
                if a.num_args() == 0 and "!" in str(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    n = str(a).rsplit("!", 1)[1]
                    if n.isdigit() and int(n) > start and not str(a).startswith(("all!", "par!", "cnt!", "w<")):
                        return a
            return None
        x = bad(cond)
        if x is None and w is not None:
            for t in self._terms(w):
                x = x if x is not None else bad(t)
        if x is not None:
            raise Unsupported(f"comprehension value depends on a local {x}")

    def _terms(self, v):
        if z3.is_expr(v):
            return [v]
        if isinstance(v, (SF, SB, SI, SLg, SCls)):
            return [v.t]
        if isinstance(v, SStr):
            return [p for p in v.parts if z3.is_expr(p)]
        if isinstance(v, Tup):
            out = []
            for g in v.segs:
                out += self._terms(g[1]) if g[0] == "e" else [g[1], g[3]] + self._terms(g[4])
            return out
        return []

    def freeze(self, w):
        """A value that outlives the heap it was made in."""
        if isinstance(w, Ref):
            t = self.formula_term(w)
            if t is not None:
                return SF(t)
            o = self.obj(w)
            if o.kind in ("list",):
                return Tup([("e", self.freeze(g[1])) if g[0] == "e" else g for g in o.data])
            raise Unsupported("comprehension of containers")
        if isinstance(w, Tup):
            return Tup([("e", self.freeze(g[1])) if g[0] == "e" else g for g in w.segs])
        return w

    def merge(self, guards, vals):
        if len(vals) == 1:
            return vals[0]
        if all(isinstance(v, (SB, bool)) for v in vals):
            r = TT(vals[-1].t if isinstance(vals[-1], SB) else vals[-1])
            for g, v in list(zip(guards, vals))[-2::-1]:
                r = z3.If(g, TT(v.t if isinstance(v, SB) else v), r)
            return SB(z3.simplify(r))
        for cls in (SF, SLg, SI):
            if all(isinstance(v, cls) for v in vals):
                r = vals[-1].t
                for g, v in list(zip(guards, vals))[-2::-1]:
                    r = v.t if r.eq(v.t) else z3.If(g, v.t, r)
                return cls(r)
        v0 = vals[0]
        if all(is_native(v) and type(v) is type(v0) and v == v0 for v in vals):
            return v0
        if all(isinstance(v, Tup) and len(v.segs) == len(v0.segs) and all(g[0] == "e" for g in v.segs) for v in vals if True) and isinstance(v0, Tup):
            return Tup([("e", self.merge(guards, [v.segs[i][1] for v in vals])) for i in range(len(v0.segs))])
        return Opq("merge", {"cases": list(zip(guards, vals)),
                             "subst": lambda it, a, b: it.merge([z3.substitute(g, (a, b)) for g in guards], [it.gen_subst(v, a, b) for v in vals])})

    # splitting sequences
    def split_front(self, segs, i=0):
        """segs[i] is a comprehension segment: if it is not empty expose its first element in place and return True."""
        g = segs[i]
        if g[0] == "e":
            return True
        if g[0] == "q":
            new = g[1].front(self)
            segs[i:i + 1] = new
            return bool(new)
        if not self.run.branch(TT(self.len_cond([g]))):
            del segs[i]
            return False
        s = self.base_seq(g)
        # s is a plain S-term (guard true, identity value)
        new = self.split(s, front=not g[2])
        if g[2]:
            new = self.reverse(new)
        val = g[4] if (z3.is_true(g[3])) else GE
        out = []
        for h in new:
            if h[0] == "e":
                out.append(("e", self.up(self.gen_subst(val, GE, h[1]))))
            else:
                out.append((h[0], h[1], h[2], h[3], val))
        segs[i:i + 1] = out
        return True

    def base_seq(self, g):
        if z3.is_true(g[3]):
            return g[1]
        v = g[4]
        if not z3.is_expr(v):
            v = self.fterm(v)
        v = nge(v)
        self.run.inexact = True
        d = self.run.fresh(S, "sub")
        # d is the subsequence of g[1] whose elements satisfy the guard, mapped
        self.define(d, [(g[0], g[1], False, g[3], v)])
        if v is GE:
            self.run.assume(imp(dist(g[1]), dist(d)))
            self.run.assume(imp(cfree(g[1]), cfree(d)))
        return d

    def split(self, s, front=True):
        """First (or last) element and the rest of a non-empty S-term."""
        run = self.run
        for segs in run.defs.get(s.get_id(), []):
            h = segs[0 if front else -1] if segs else None
            if h is not None and h[0] == "e" and all(x[0] == "e" or (z3.is_true(x[3]) and x[4] is GE) for x in segs):
                return list(segs)
        for segs in run.defs.get(s.get_id(), []):
            if segs and all(x[0] == "e" or (z3.is_true(x[3]) and x[4] is GE) for x in segs):
                # expose through the definition
                segs = list(segs)
                while segs:
                    i = 0 if front else len(segs) - 1
                    h = segs[i]
                    if h[0] == "e":
                        return segs
                    if run.branch(slen(h[1]) >= 1):
                        sub = self.split(h[1], front != h[2])
                        segs[i:i + 1] = self.reverse(sub) if h[2] else sub
                        return segs
                    del segs[i]
                raise Infeasible()
        e = run.fresh(F, "x")
        r = run.fresh(S, "r")
        segs = [("e", e), run.seg(r)] if front else [run.seg(r), ("e", e)]
        self.define(s, segs)
        run.assume(slen(s) == slen(r) + 1)
        return segs

    def expand(self, segs):
        """Replace S-terms by their known decompositions."""
        out = []
        for g in segs:
            if g[0] == "c":
                d = None
                for cand in self.run.defs.get(g[1].get_id(), []):
                    if all(x[0] == "e" or (z3.is_true(x[3]) and x[4] is GE) for x in cand):
                        d = cand
                        break
                if d is not None:
                    sub = self.expand(d)
                    sub = self.reverse(sub) if g[2] else list(sub)
                    for h in sub:
                        if h[0] == "e":
                            ht = h[1] if z3.is_expr(h[1]) else h[1].t
                            v = self.up(self.gen_subst(g[4], GE, ht))
                            gd = z3.simplify(z3.substitute(g[3], (GE, ht)))
                            if z3.is_true(gd) or self.run.branch(gd):
                                out.append(("e", v))
                        else:
                            out.append((h[0], h[1], h[2], g[3], g[4]))
                    continue
            out.append(g)
        return out

    def add(self, a, b):
        if is_native(a) and is_native(b):
            return a + b
        return SI(z3.simplify(self.int_term(a) + self.int_term(b)))

    def length(self, segs):
        n = self.run.len_segs([("e", None) if g[0] == "e" else g for g in segs])
        return n.as_long() if z3.is_int_value(n) else SI(n)

    def index(self, segs, i):
        segs = self.expand(list(segs))
        neg = isinstance(i, int) and i < 0
        if isinstance(i, SI):
            raise Unsupported("symbolic index")
        if neg:
            r = self.index(self.reverse(segs), -i - 1)
            return r
        k = 0
        while k < len(segs):
            if segs[k][0] == "e":
                if i == 0:
                    return self.up(segs[k][1])
                i -= 1
                k += 1
            else:
                self.split_front(segs, k)
        raise PyRaise(IndexError)

    def slice(self, segs, lo, hi, st):
        if st == -1 and lo is None and hi is None:
            return self.reverse(segs)
        segs = self.expand(list(segs))
        if st not in (None, 1):
            if isinstance(st, int) and all(g[0] == "e" for g in segs) and all(v is None or isinstance(v, int) for v in (lo, hi)):
                return segs[lo:hi:st]
            raise Unsupported("slice step")
        for v in (lo, hi):
            if v is not None and not isinstance(v, int):
                raise Unsupported("symbolic slice")
        lo = lo or 0
        if lo >= 0:
            segs = self.drop(segs, lo)
            if hi is not None:
                if hi < 0:
                    segs = self.reverse(self.drop(self.reverse(segs), -hi))
                else:
                    n = max(0, hi - lo)
                    segs = self.take(segs, n)
            return segs
        if hi is None:
            return self.reverse(self.take(self.reverse(segs), -lo))
        raise Unsupported("slice")

    def drop(self, segs, n):
        segs = list(segs)
        while n > 0 and segs:
            if segs[0][0] == "e" or self.split_front(segs, 0):
                segs.pop(0)
                n -= 1
        return segs

    def take(self, segs, n):
        segs, out = list(segs), []
        while n > 0 and segs:
            if segs[0][0] == "e" or self.split_front(segs, 0):
                out.append(segs.pop(0))
                n -= 1
        return out

    # ---------------------------------------------------------------- statements
    def block(self, stmts, ctx):
        for s in stmts:
            sig = self.stmt(s, ctx)
            if sig is not None:
                return sig
        return None

    rewrite = None

    def stmt(self, s, ctx):
        if self.rewrite:
            s = self.rewrite(self, s, ctx) or s
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__}")
        return m(s, ctx)

    def s_Expr(self, s, ctx):
        if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            v = self.eval(s.value.value, ctx) if s.value.value else None
            y = self.obj(ctx.yields)
            new = [("e", v)] if isinstance(s.value, ast.Yield) else self.segs_of(v)
            self.write(ctx.yields, y.data + tuple(new))
            return None
        self.eval(s.value, ctx)

    def s_Pass(self, s, ctx):
        return None

    def s_Import(self, s, ctx):
        raise Unsupported("import")

    def s_Return(self, s, ctx):
        return ("return", self.eval(s.value, ctx) if s.value is not None else None)

    def s_Break(self, s, ctx):
        return ("break",)

    def s_Continue(self, s, ctx):
        return ("continue",)

    def s_Assign(self, s, ctx):
        v = self.eval(s.value, ctx)
        for t in s.targets:
            self.assign(t, v, ctx)

    def s_AnnAssign(self, s, ctx):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, ctx), ctx)

    def s_AugAssign(self, s, ctx):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, ctx)
            v = self.eval(s.value, ctx)
            if isinstance(cur, Ref) and self.obj(cur).kind == "list" and isinstance(s.op, ast.Add):
                METHODS[("list", "extend")](self, [cur, v], {})
                return
            if isinstance(cur, Ref) and self.obj(cur).kind == "set" and isinstance(s.op, ast.BitOr):
                METHODS[("set", "update")](self, [cur, v], {})
                return
            self.assign(t, self.binop(s.op, cur, v), ctx)
            return
        if isinstance(t, ast.Attribute):
            o = self.eval(t.value, ctx)
            nm = self.mangled(t.attr, ctx)
            self.setattr(o, nm, self.binop(s.op, self.getattr(o, nm), self.eval(s.value, ctx)))
            return
        raise Unsupported("augmented assignment")

    def assign(self, t, v, ctx):
        if isinstance(t, ast.Name):
            o = self.obj(ctx.frame)
            d = dict(o.data)
            if t.id in ctx.nonlocals:
                fr = self.find_frame(t.id, ctx)
                d = dict(self.obj(fr).data)
                d[t.id] = v
                self.run.heap[fr.loc] = Obj("frame", None, d)
                return
            d[t.id] = v
            self.run.heap[ctx.frame.loc] = Obj("frame", None, d)
            return
        if isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, ctx), self.mangled(t.attr, ctx), v)
            return
        if isinstance(t, ast.Subscript):
            o = self.eval(t.value, ctx)
            k = self.eval(t.slice, ctx)
            self.setitem(o, k, v)
            return
        if isinstance(t, (ast.Tuple, ast.List)):
            segs = self.segs_of(v)
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                for x in t.elts[:i]:
                    if not self._expose(segs, 0):
                        raise PyRaise(ValueError, ("not enough values",))
                    self.assign(x, self.up(segs.pop(0)[1]), ctx)
                tail = []
                if after:
                    segs = self.reverse(segs)
                    for _ in range(after):
                        if not self._expose(segs, 0):
                            raise PyRaise(ValueError, ("not enough values",))
                        tail.append(segs.pop(0)[1])
                    segs = self.reverse(segs)
                self.assign(t.elts[i].value, self.new_list(segs), ctx)
                for x, w in zip(t.elts[i + 1:], reversed(tail)):
                    self.assign(x, self.up(w), ctx)
                return
            vals = []
            for x in t.elts:
                if not self._expose(segs, 0):
                    raise PyRaise(ValueError, ("not enough values",))
                vals.append(self.up(segs.pop(0)[1]))
            if segs and self.nonempty(segs):
                raise PyRaise(ValueError, ("too many values",))
            for x, w in zip(t.elts, vals):
                self.assign(x, w, ctx)
            return
        raise Unsupported("assignment target")

    def _expose(self, segs, i):
        while i < len(segs) and segs[i][0] != "e":
            self.split_front(segs, i)
        return i < len(segs)

    def setitem(self, o, k, v):
        if isinstance(o, Opq) and isinstance(o.data, dict) and "setitem" in o.data:
            return o.data["setitem"](self, k, v)
        if isinstance(o, Ref):
            b = self.obj(o)
            if b.kind == "dict":
                if isinstance(b.data, tuple):
                    out, hit = [], False
                    for e in b.data:
                        if e[0] == "c*":
                            raise Unsupported("store into a symbolic dict")
                        r = self.eq(e[0], k)
                        if not hit and self.run.branch(r if isinstance(r, bool) else r.t):
                            out.append((e[0], v))
                            hit = True
                        else:
                            out.append(e)
                    if not hit:
                        out.append((k, v))
                    self.write(o, tuple(out))
                    return
                return b.data.setitem(self, o, k, v)
            if b.kind == "list" and isinstance(k, int):
                segs = self.expand(list(b.data))
                if k < 0 or any(g[0] != "e" for g in segs[:k + 1]) or k >= len(segs):
                    raise Unsupported("list store")
                segs[k] = ("e", v)
                self.write(o, tuple(segs))
                return
        if isinstance(o, Opq) and o.given:
            changed(f"item assignment on {o!r}")
        raise Unsupported("item assignment")

    def s_Delete(self, s, ctx):
        for t in s.targets:
            if isinstance(t, ast.Name):
                d = dict(self.obj(ctx.frame).data)
                d.pop(t.id, None)
                self.run.heap[ctx.frame.loc] = Obj("frame", None, d)
            elif isinstance(t, ast.Attribute):
                BI[delattr](self, [self.eval(t.value, ctx), self.mangled(t.attr, ctx)], {})
            else:
                raise Unsupported("del")

    def s_If(self, s, ctx):
        if self.run.branch(self.truth(self.eval(s.test, ctx))):
            return self.block(s.body, ctx)
        return self.block(s.orelse, ctx)

    def s_Assert(self, s, ctx):
        if not self.run.branch(self.truth(self.eval(s.test, ctx))):
            raise PyRaise(AssertionError)

    def s_Raise(self, s, ctx):
        if s.exc is None:
            raise PyRaise(ctx.handling or RuntimeError)
        v = self.eval(s.exc, ctx)
        if isinstance(v, Ref):
            o = self.obj(v)
            raise PyRaise(o.cls, o.data.get("args", Tup([])).segs)
        if isinstance(v, type):
            raise PyRaise(v)
        raise Unsupported("raise")

    def s_Try(self, s, ctx):
        if s.finalbody:
            raise Unsupported("finally")
        try:
            sig = self.block(s.body, ctx)
        except PyRaise as e:
            for h in s.handlers:
                if h.type is None:
                    ok = True
                else:
                    t = self.eval(h.type, ctx)
                    ts = [g[1] for g in t.segs] if isinstance(t, Tup) else [t]
                    ok = any(issubclass(e.exc, k) for k in ts)
                if ok:
                    if h.name:
                        self.assign(ast.Name(h.name), self.alloc("inst", e.exc, {"args": Tup([])}), ctx)
                    old = ctx.handling
                    ctx.handling = e.exc
                    r = self.block(h.body, ctx)
                    ctx.handling = old
                    return r
            raise
        if sig is None and s.orelse:
            return self.block(s.orelse, ctx)
        return sig

    def s_FunctionDef(self, s, ctx):
        if s.decorator_list:
            raise Unsupported("decorated inner function")
        defaults = [self.eval(d, ctx) for d in s.args.defaults]
        kwd = {a.arg: self.eval(d, ctx) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None}
        c = Closure(s, (ctx.frame, ctx.parent), ctx.globs, defaults, kwd, s.name, ctx.mangle)
        c.dunder_class = ctx.dunder_class
        self.assign(ast.Name(s.name), c, ctx)

    def s_Nonlocal(self, s, ctx):
        ctx.nonlocals |= set(s.names)

    def s_For(self, s, ctx):
        from .loops import for_loop
        return for_loop(self, s, ctx)

    def s_While(self, s, ctx):
        from .loops import while_loop
        return while_loop(self, s, ctx)

    # ---------------------------------------------------------------- expressions
    def eval(self, e, ctx):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        return m(e, ctx)

    def e_Constant(self, e, ctx):
        return e.value

    def mangled(self, name, ctx):
        if ctx.mangle and name.startswith("__") and not name.endswith("__"):
            return f"_{ctx.mangle.lstrip('_')}{name}"
        return name

    def find_frame(self, name, ctx):
        p = ctx.parent
        while p:
            if name in self.obj(p[0]).data:
                return p[0]
            p = p[1]
        raise Unsupported("nonlocal")

    def lookup(self, name, ctx):
        d = self.obj(ctx.frame).data
        if name in d:
            return d[name]
        p = ctx.parent
        while p:
            d = self.obj(p[0]).data
            if name in d:
                return self.lift(d[name]) if isinstance(d[name], tuple) else d[name]
            p = p[1]
        if name in ctx.globs:
            v = ctx.globs[name]
            if isinstance(v, (list, dict, set)):
                raise Unsupported(f"mutable global {name}")
            return self.lift(v)
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise Unsupported(f"the name {name}")

    def e_Name(self, e, ctx):
        return self.lookup(self.mangled(e.id, ctx), ctx)

    def e_Attribute(self, e, ctx):
        return self.getattr(self.eval(e.value, ctx), self.mangled(e.attr, ctx))

    def elts(self, es, ctx):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out.extend(self.segs_of(self.eval(x.value, ctx)))
            else:
                out.append(("e", self.eval(x, ctx)))
        return out

    def e_Tuple(self, e, ctx):
        return Tup(self.elts(e.elts, ctx))

    def e_List(self, e, ctx):
        return self.new_list(self.elts(e.elts, ctx))

    def e_Set(self, e, ctx):
        return self.new_set(self.elts(e.elts, ctx))

    def e_Dict(self, e, ctx):
        out = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                raise Unsupported("dict unpacking")
            out.append((self.eval(k, ctx), self.eval(v, ctx)))
        return self.alloc("dict", dict, tuple(out))

    def e_NamedExpr(self, e, ctx):
        v = self.eval(e.value, ctx)
        self.assign(e.target, v, ctx)
        return v

    def e_IfExp(self, e, ctx):
        if self.run.branch(self.truth(self.eval(e.test, ctx))):
            return self.eval(e.body, ctx)
        return self.eval(e.orelse, ctx)

    def e_BoolOp(self, e, ctx):
        for x in e.values[:-1]:
            v = self.eval(x, ctx)
            t = self.truth(v)
            b = self.run.branch(t)
            if b != isinstance(e.op, ast.And):
                return (True if b else False) if isinstance(v, SB) else v
        return self.eval(e.values[-1], ctx)

    def e_UnaryOp(self, e, ctx):
        v = self.eval(e.operand, ctx)
        if isinstance(e.op, ast.Not):
            t = self.truth(v)
            return (not t) if isinstance(t, bool) else SB(z3.Not(t))
        if isinstance(e.op, ast.Invert):
            return self.invert(v)
        if isinstance(e.op, ast.USub):
            if is_native(v):
                return -v
            return SI(-self.int_term(v))
        raise Unsupported("unary operator")

    def invert(self, v):
        if isinstance(v, (SF, Ref)):
            return self.call_method(v, "__invert__", [])
        if isinstance(v, bool) or isinstance(v, SB):
            raise Unsupported("~bool")
        if isinstance(v, int):
            return ~v
        if isinstance(v, Opq):
            c = (v.data or {}).get("cls")  # a value of a known class without the operator
            if isinstance(c, SCls):
                c = getattr(c, "c", None)
            if isinstance(c, type) and c is not object and not hasattr(c, "__invert__"):
                raise PyRaise(TypeError, ("bad operand for ~",))
        if isinstance(v, Val) and not isinstance(v, (SLg, SCls, SB, SI, Tup, SStr)):
            raise Unsupported(f"~ of {v!r}")
        raise PyRaise(TypeError, ("bad operand for ~",))

    def e_BinOp(self, e, ctx):
        return self.binop(e.op, self.eval(e.left, ctx), self.eval(e.right, ctx))

    def binop(self, op, a, b):
        n = type(op).__name__
        if is_native(a) and is_native(b) and not isinstance(a, type):
            import operator
            f = {"Add": operator.add, "Sub": operator.sub, "Mult": operator.mul, "Mod": operator.mod, "FloorDiv": operator.floordiv,
                 "BitAnd": operator.and_, "BitOr": operator.or_, "BitXor": operator.xor}.get(n)
            if f is None or not isinstance(a, (int, str, float)):
                raise Unsupported(f"operator {n}")
            try:
                return f(a, b)
            except Exception as ex:
                raise PyRaise(type(ex))
        if isinstance(a, (SF,)) or self._is_finst(a):
            m = {"BitAnd": "__and__", "BitOr": "__or__", "RShift": "__rshift__"}.get(n)
            if m is None:
                raise Unsupported(f"operator {n} of a formula")
            return self.call_method(a, m, [b])
        if isinstance(a, (SI, SB, int)) and isinstance(b, (SI, SB, int)):
            if n in ("BitAnd", "BitOr", "BitXor") and isinstance(a, (SB, bool)) and isinstance(b, (SB, bool)):
                ta, tb = TT(a.t if isinstance(a, SB) else a), TT(b.t if isinstance(b, SB) else b)
                return SB({"BitAnd": z3.And, "BitOr": z3.Or, "BitXor": z3.Xor}[n](ta, tb))
            x, y = self.int_term(a), self.int_term(b)
            if n == "Mod" and isinstance(b, int) and b > 0:
                return SI(x % y)
            f = {"Add": lambda: x + y, "Sub": lambda: x - y, "Mult": lambda: x * y}.get(n)
            if f is None:
                raise Unsupported(n)
            return SI(z3.simplify(f()))
        if isinstance(a, (SStr, str)) and isinstance(b, (SStr, str)) and n == "Add":
            return SStr(list(a.parts if isinstance(a, SStr) else [a]) + list(b.parts if isinstance(b, SStr) else [b]))
        if isinstance(a, Tup) and isinstance(b, Tup) and n == "Add":
            return Tup(a.segs + b.segs)
        if isinstance(a, Ref) and isinstance(b, (Ref, Tup)):
            oa = self.obj(a)
            if oa.kind == "list" and n == "Add" and isinstance(b, Ref) and self.obj(b).kind == "list":
                return self.new_list(oa.data + self.obj(b).data)
            if oa.kind in ("set", "frozenset") and n == "BitOr" and isinstance(b, Ref):
                return self.new_set(oa.data + self.obj(b).data, oa.kind == "frozenset")
        for x in (a, b):
            if isinstance(x, Opq) and isinstance(x.data, dict) and "binop" in x.data:
                return x.data["binop"](self, n, a, b)
        raise Unsupported(f"operator {n} on {a!r}, {b!r}")

    def e_Compare(self, e, ctx):
        left = self.eval(e.left, ctx)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, ctx)
            v = self.compare(op, left, right)
            if len(e.ops) == 1:
                return v
            t = v.t if isinstance(v, SB) else v
            if not self.run.branch(t):
                return False
            res = True
            left = right
        return res

    def compare(self, op, a, b):
        n = type(op).__name__
        if n == "Eq":
            return self.eq(a, b)
        if n == "NotEq":
            r = self.eq(a, b)
            return SB(z3.Not(r.t)) if isinstance(r, SB) else (not r)
        if n == "Is":
            return self.is_(a, b)
        if n == "IsNot":
            r = self.is_(a, b)
            return SB(z3.Not(r.t)) if isinstance(r, SB) else (not r)
        if n == "In":
            return self.contains(a, b)
        if n == "NotIn":
            r = self.contains(a, b)
            return SB(z3.Not(r.t)) if isinstance(r, SB) else (not r)
        if is_native(a) and is_native(b):
            import operator
            f = {"Lt": operator.lt, "LtE": operator.le, "Gt": operator.gt, "GtE": operator.ge}[n]
            return f(a, b)
        x, y = self.int_term(a), self.int_term(b)
        c = {"Lt": x < y, "LtE": x <= y, "Gt": x > y, "GtE": x >= y}[n]
        return SB(z3.simplify(c))

    def e_Call(self, e, ctx):
        # zero-argument super
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            if ctx.dunder_class is None:
                raise Unsupported("super() without a class")
            return SuperV(ctx.dunder_class, ctx.first)
        if isinstance(e.func, ast.Name) and e.func.id in ("all", "any") and len(e.args) == 1 and isinstance(e.args[0], ast.GeneratorExp) \
                and self.lookup(e.func.id, ctx) in (all, any):
            return self.any_all(e.func.id == "all", self.lazy_gen(e.args[0], ctx))
        f = self.eval(e.func, ctx)
        args = []
        starred = False
        for a in e.args:
            if isinstance(a, ast.Starred):
                segs = self.segs_of(self.eval(a.value, ctx))
                if all(g[0] == "e" for g in segs):
                    args.extend(self.up(g[1]) for g in segs)
                else:
                    args.append(("*segs", segs))
                    starred = True
            else:
                args.append(self.eval(a, ctx))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value, ctx)
                o = self.obj(d)
                for kk, vv in o.data:
                    kwargs[kk] = vv
            else:
                kwargs[k.arg] = self.eval(k.value, ctx)
        return self.call(f, args, kwargs)

    def e_Subscript(self, e, ctx):
        v = self.eval(e.value, ctx)
        if isinstance(e.slice, ast.Slice):
            lo = self.eval(e.slice.lower, ctx) if e.slice.lower else None
            hi = self.eval(e.slice.upper, ctx) if e.slice.upper else None
            st = self.eval(e.slice.step, ctx) if e.slice.step else None
            if isinstance(v, str) and all(x is None or isinstance(x, int) for x in (lo, hi, st)):
                return v[lo:hi:st]
            if isinstance(v, Opq) and isinstance(v.data, dict) and "slice" in v.data:
                return v.data["slice"](self, lo, hi, st)
            segs = self.slice(self.segs_of(v), lo, hi, st)
            return Tup(segs) if isinstance(v, Tup) else self.new_list(segs)
        k = self.eval(e.slice, ctx)
        return self.getitem(v, k)

    def getitem(self, v, k):
        if isinstance(v, Opq) and isinstance(v.data, dict) and "getitem" in v.data:
            return v.data["getitem"](self, k)
        if isinstance(v, Tup):
            return self.index(v.segs, k)
        if isinstance(v, Ref):
            o = self.obj(v)
            if o.kind == "list":
                return self.index(o.data, k)
            if o.kind == "dict":
                if isinstance(o.data, tuple):
                    for en in o.data:
                        if en[0] == "c*":
                            raise Unsupported("lookup in a symbolic dict")
                        r = self.eq(en[0], k)
                        if self.run.branch(r if isinstance(r, bool) else r.t):
                            return en[1]
                    raise PyRaise(KeyError)
                return o.data.getitem(self, k)
        if is_native(v) and is_native(k):
            if isinstance(v, (str, tuple, list, dict)):
                try:
                    return self.lift(v[k])
                except Exception as ex:
                    raise PyRaise(type(ex))
        if isinstance(v, type) or getattr(v, "__module__", "") == "typing" or type(v).__module__ == "typing":
            return v  # Dict[...]
        if v is NON or isinstance(v, SF):
            raise PyRaise(TypeError, ("not subscriptable",))
        raise Unsupported(f"subscript of {v!r}")

    def e_Lambda(self, e, ctx):
        c = Closure(e, (ctx.frame, ctx.parent), ctx.globs, [self.eval(d, ctx) for d in e.args.defaults], {}, "<lambda>", ctx.mangle)
        c.dunder_class = ctx.dunder_class
        return c

    def e_JoinedStr(self, e, ctx):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                try:
                    x = self.eval(v.value, ctx)
                    s = self.to_str(x, repr_=v.conversion == 114)
                except Unsupported:
                    if self.strict_str:
                        raise
                    s = SStr([Opq("text")])
                parts.extend(s.parts if isinstance(s, SStr) else [s])
        if all(isinstance(p, str) for p in parts):
            return "".join(parts)
        return SStr(parts)

    strict_str = False
    live_objects = ()      # module prefixes of live objects whose attributes may be read
    isinstance_hook = None

    def to_str(self, x, repr_=False):
        if isinstance(x, SStr):
            return x if x.cls is str or repr_ else SStr(x.parts)
        if is_native(x) and isinstance(x, (str, int, float, type, enum.Enum)) or x is None:
            return repr(x) if repr_ else str(x)
        t = x.t if isinstance(x, SF) else None
        if self.str_formula and (t is not None or self._is_finst(x)):
            return self.str_formula(self, x, repr_)
        if isinstance(x, Opq) and isinstance(x.data, dict) and "str" in x.data:
            return x.data["str"](self, repr_)
        if isinstance(x, Ref) and self.obj(x).kind == "inst" and self.obj(x).cls.__module__.startswith("pylogics"):
            m = self.class_lookup(self.obj(x).cls, "__repr__" if repr_ else "__str__")
            if isinstance(m, types.FunctionType):
                return self.call(m, [x])
            if not repr_:
                m = self.class_lookup(self.obj(x).cls, "__repr__")
                if isinstance(m, types.FunctionType):
                    return self.call(m, [x])
        if t is not None:
            return SStr([strf(t)])
        return SStr([Opq("text")])

    # comprehensions
    def comp(self, e, ctx, elt):
        """Segments of a comprehension; elt(it, ctx) -> value."""
        def level(it, i, c):
            if i == len(e.generators):
                return None
            raise AssertionError
        if len(e.generators) == 1:
            gen = e.generators[0]
            src = self.iter_segs(self.eval(gen.iter, ctx))

            def body(it, v):
                fr = it.alloc("frame", None, {})
                c = ctx.child(fr)
                it.assign(gen.target, v, c)
                g = True
                for cond in gen.ifs:
                    t = it.truth(it.eval(cond, c))
                    if not it.run.branch(t):
                        return False, None
                return g, elt(it, c)
            out = []
            for s in src:
                if s[0] == "e":
                    ok, v = body(self, self.up(s[1]))
                    if ok:
                        out.append(("e", v))
                elif s[0] == "q":
                    out.append(("q", s[1].map(body)))
                else:
                    out.extend(self.map_generic(s, body))
            return out
        # nested comprehensions over explicit elements only
        out = []

        def rec(i, c):
            if i == len(e.generators):
                out.append(("e", elt(self, c)))
                return
            gen = e.generators[i]
            for s in self.segs_of(self.eval(gen.iter, c)):
                if s[0] != "e":
                    raise Unsupported("nested comprehension over a symbolic sequence")
                c2 = c.child(self.alloc("frame", None, {}))
                self.assign(gen.target, self.up(s[1]), c2)
                if all(self.run.branch(self.truth(self.eval(x, c2))) for x in gen.ifs):
                    rec(i + 1, c2)
        rec(0, ctx)
        return out

    def iter_segs(self, v):
        """Segments for an iteration; enumerate over a symbolic sequence gives pairs with a symbolic position."""
        try:
            return self.segs_of(v)
        except NeedPeel as p:
            from .loops import enum_segs
            return enum_segs(self, p.view)

    def lazy_gen(self, e, ctx):
        """Generator expression consumed by any/all: element by element, stopping early."""
        if len(e.generators) != 1:
            return [("done", s) for s in self.comp(e, ctx, lambda it, c: it.eval(e.elt, c))]
        gen = e.generators[0]
        src = self.iter_segs(self.eval(gen.iter, ctx))

        def body(it, v):
            fr = it.alloc("frame", None, {})
            c = ctx.child(fr)
            it.assign(gen.target, v, c)
            for cond in gen.ifs:
                if not it.run.branch(it.truth(it.eval(cond, c))):
                    return False, None
            return True, it.eval(e.elt, c)
        return [("todo", s, body) for s in src]

    def any_all(self, is_all, items):
        """Builtin all/any over lazily evaluated segments."""
        for item in items:
            if item[0] == "todo":
                s, body = item[1], item[2]
                if s[0] == "q":
                    if s[1].quantify(self, is_all, body) != is_all:
                        return not is_all
                    continue
                if s[0] == "e":
                    ok, v = body(self, self.up(s[1]))
                    segs = [("e", v)] if ok else []
                else:
                    segs = self.map_generic(s, body)
            else:
                segs = [item[1]]
            for g in segs:
                if g[0] == "e":
                    t = self.truth(self.up(g[1]))
                    if self.run.branch(t) != is_all:
                        return not is_all
                else:
                    v = g[4]
                    t = self.truth(self.up(v))
                    t = TT(t)
                    c = All(imp(g[3], t if is_all else z3.Not(t)), g[1])
                    if not self.run.branch(c):
                        return not is_all
        return is_all

    def e_ListComp(self, e, ctx):
        return self.new_list(self.comp(e, ctx, lambda it, c: it.eval(e.elt, c)))

    def e_SetComp(self, e, ctx):
        return self.new_set(self.comp(e, ctx, lambda it, c: it.eval(e.elt, c)))

    def e_GeneratorExp(self, e, ctx):
        segs = self.comp(e, ctx, lambda it, c: it.eval(e.elt, c))
        return self.alloc("iter", None, View("segs", tuple(segs)))

    def e_DictComp(self, e, ctx):
        segs = self.comp(e, ctx, lambda it, c: Tup([("e", it.eval(e.key, c)), ("e", it.eval(e.value, c))]))
        return self.mk_dict(segs)

    def mk_dict(self, segs):
        if len(segs) == 1 and segs[0][0] == "q":
            return segs[0][1].as_dict(self)
        d = self.alloc("dict", dict, ())
        for g in segs:
            if g[0] != "e":
                raise Unsupported("dict over a symbolic sequence")
            k, v = [x[1] for x in g[1].segs]
            self.setitem(d, k, v)
        return d

    def e_Starred(self, e, ctx):
        raise Unsupported("starred expression")


class LiveDict:
    """The attributes of an object as a dictionary (__dict__): changes go to the object."""

    def __init__(self, ref):
        self.ref = ref

    def copy(self, it):
        return tuple(it.obj(self.ref).data.items())

    def _on(self, it, f):
        d = it.alloc("dict", dict, self.copy(it))
        r = f(d)
        new = {k: e for k, e in it.obj(d).data}
        if new != it.obj(self.ref).data:
            it.write(self.ref, new)
        return r

    def method(self, it, name, a, k):
        m = METHODS.get(("dict", name))
        if m is None:
            raise Unsupported(f"{name} of __dict__")
        return self._on(it, lambda d: m(it, [d] + list(a[1:]), k))

    def setitem(self, it, o, k, v):
        self._on(it, lambda d: it.setitem(d, k, v))

    def getitem(self, it, k):
        return self._on(it, lambda d: it.getitem(d, k))

    def contains(self, it, x):
        return self._on(it, lambda d: it.contains(x, d))

    def keys(self, it):
        return [("e", k) for k, _ in self.copy(it)]

    def truth(self, it):
        return bool(self.copy(it))


class NeedPeel(Exception):
    def __init__(self, view):
        self.view = view


class Ctx:
    def __init__(self, frame, parent, globs, mangle, dunder_class, first, name=""):
        self.frame, self.parent, self.globs, self.mangle, self.dunder_class, self.first = frame, parent, globs, mangle, dunder_class, first
        self.nonlocals = set()
        self.yields = None
        self.handling = None
        self.name = name

    def child(self, frame):
        c = Ctx(frame, (self.frame, self.parent), self.globs, self.mangle, self.dunder_class, self.first, self.name)
        return c


# ------------------------------------------------------------------ builtins
BI = {}
METHODS = {}
OBJECT_METHODS = {}


def bi(*fs):
    def deco(g):
        for f in fs:
            BI[f] = g
        return g
    return deco


def meth(kinds, name):
    def deco(g):
        for k in kinds.split():
            METHODS[(k, name)] = g
        return g
    return deco


@bi(len)
def _len(it, a, k):
    v = a[0]
    if isinstance(v, Tup):
        return it.length(v.segs)
    if isinstance(v, Ref):
        o = it.obj(v)
        if o.kind == "list":
            return it.length(o.data)
        if o.kind in ("set", "frozenset") or (o.kind == "dict" and isinstance(o.data, tuple)):
            segs = it.segs_of(v)
            return set_len(it, segs)
        if o.kind == "inst":
            return it.call_method(v, "__len__", [])
        if o.kind == "dict":
            return o.data.method(it, "__len__", [v], {})
    if isinstance(v, Opq) and isinstance(v.data, dict) and "len" in v.data:
        return v.data["len"](it)
    if isinstance(v, SStr):
        raise Unsupported("len of a string")
    if isinstance(v, SF):
        return it.call_method(v, "__len__")
    if isinstance(v, (SB, SI)) or v is NON:
        raise PyRaise(TypeError, ("no len",))
    if isinstance(v, Val):
        raise Unsupported(f"len of {v!r}")
    return len(v)


def set_len(it, segs):
    """Number of distinct elements."""
    if all(g[0] == "e" for g in segs):
        seen = []
        for g in segs:
            if not any(it.run.branch(TT(r.t if isinstance(r, SB) else r)) for r in [it.eq(g[1], s) for s in seen]):
                seen.append(g[1])
        return len(seen)
    if len(segs) == 1 and segs[0][0] == "c" and isinstance(segs[0][4], SB) or (len(segs) == 1 and z3.is_expr(segs[0][4]) and segs[0][4].sort() == BOOL):
        g = segs[0]
        b = g[4].t if isinstance(g[4], SB) else g[4]
        t = z3.Not(All(imp(g[3], z3.Not(b)), g[1]))
        f = z3.Not(All(imp(g[3], b), g[1]))
        return SI(z3.If(t, 1, 0) + z3.If(f, 1, 0))
    if len(segs) == 1 and segs[0][0] == "c" and segs[0][4] is GE and z3.is_true(segs[0][3]) and it.run.valid(dist(segs[0][1])):
        return SI(slen(segs[0][1]))
    it.run.inexact = True
    n = it.run.fresh(INT, "n")
    c = it.len_cond(segs)
    total = it.run.len_segs([("e", None) if g[0] == "e" else g for g in segs])
    it.run.assume(z3.And(n >= 0, n <= total, (n >= 1) == TT(c)))
    if len(segs) >= 1 and all(g[0] == "c" or isinstance(it.up(g[1]), SF) for g in segs):
        z = it.zsegs(segs)
        # exactly one distinct element iff all equal to a named member
        m = it.run.fresh(F, "m")
        it.run.assume(imp(n >= 1, z3.Not(it.run.all_segs(lambda v: key(v) != key(m), z))))
        it.run.assume(imp(n >= 1, (n == 1) == it.run.all_segs(lambda v: key(v) == key(m), z)))
    return SI(n)


@bi(isinstance)
def _isinstance(it, a, k):
    c = a[1]
    return it.isinstance(a[0], c)


@bi(issubclass)
def _issubclass(it, a, k):
    c = a[0]
    d = a[1]
    if isinstance(c, SCls):
        cs = [x for x in CLASSES if issubclass(x, d)]
        return SB(z3.Or([c.t == CC[x] for x in cs]))
    ds = tuple(g[1] for g in d.segs) if isinstance(d, Tup) else d
    return issubclass(c, ds)


@bi(all)
def _all(it, a, k):
    return it.any_all(True, [("done", s) for s in it.segs_of(a[0])])


@bi(any)
def _any(it, a, k):
    return it.any_all(False, [("done", s) for s in it.segs_of(a[0])])


@bi(map)
def _map(it, a, k):
    return it.alloc("iter", None, View("map", a[0], tuple(a[1:])))


@bi(filter)
def _filter(it, a, k):
    return it.alloc("iter", None, View("filter", a[0], a[1]))


@bi(reversed)
def _reversed(it, a, k):
    return it.alloc("iter", None, View("segs", tuple(it.reverse(it.segs_of(a[0])))))


@bi(enumerate)
def _enumerate(it, a, k):
    return it.alloc("iter", None, View("enum", a[0], a[1] if len(a) > 1 else k.get("start", 0)))


@bi(zip)
def _zip(it, a, k):
    return it.alloc("iter", None, View("zip", tuple(a)))


@bi(iter)
def _iter(it, a, k):
    return it.alloc("iter", None, View("segs", tuple(it.segs_of(a[0]))))


@bi(next)
def _next(it, a, k):
    segs = it.expand(it.segs_of(a[0]))
    while segs:
        if segs[0][0] == "e" or it.split_front(segs, 0):
            it.run.heap[a[0].loc] = Obj("iter", None, View("segs", tuple(segs[1:])))
            return it.up(segs[0][1])
    if len(a) > 1:
        return a[1]
    raise PyRaise(StopIteration)


@bi(list)
def _list(it, a, k):
    if a:
        segs = it.segs_of(a[0])
        if len(segs) == 1 and segs[0][0] == "q":
            return segs[0][1].as_list(it)
        return it.new_list(segs)
    return it.new_list(it.segs_of(a[0]) if a else [])


@bi(tuple)
def _tuple(it, a, k):
    return Tup(it.segs_of(a[0]) if a else [])


@bi(set)
def _set(it, a, k):
    return it.new_set(it.segs_of(a[0]) if a else [])


@bi(frozenset)
def _frozenset(it, a, k):
    return it.new_set(it.segs_of(a[0]) if a else [], True)


@bi(dict)
def _dict(it, a, k):
    if not a:
        return it.alloc("dict", dict, tuple(k.items()))
    v = a[0]
    if isinstance(v, Ref) and it.obj(v).kind == "dict":
        d = it.obj(v).data
        return it.alloc("dict", dict, d if isinstance(d, tuple) else d.copy(it))
    if isinstance(v, Opq):
        return v.data["copy"](it) if isinstance(v.data, dict) and "copy" in v.data else v
    return it.mk_dict(it.segs_of(v))


def dedup(it, segs):
    """Segments without repetitions (first occurrences)."""
    segs = list(segs)
    if all(g[0] == "e" for g in segs):
        out = []
        for g in segs:
            dup = False
            for h in out:
                r = it.eq(g[1], h[1])
                if it.run.branch(r if isinstance(r, bool) else r.t):
                    dup = True
                    break
            if not dup:
                out.append(g)
        return out
    z = it.zsegs(segs)
    if len(z) == 1 and z3.is_true(z[0][3]) and z[0][4] is GE and it.run.valid(dist(z[0][1])):
        return segs
    it.run.inexact = True
    d = it.run.fresh(S, "dedup")
    it.run.sterm[d.get_id()] = d
    zd = [it.run.seg(d)]
    it.run.same.append((zd, z))
    it.run.dedups.append((d, z))
    it.run.assume(dist(d))
    total = it.run.len_segs(z)
    it.run.assume(z3.And(slen(d) <= total, (slen(d) >= 1) == (total >= 1)))
    rel = it.run.rel_segs("Distinct", z)
    if rel is not None:
        it.run.ghost[("dedup", d.get_id())] = (z, rel)
        # without repetitions nothing is dropped
        for n in list(_preds.values()):
            pass
        it.run.assume(imp(rel, slen(d) == total))
        it.run.assume(imp(rel, Par(z3.Not(V), d) == it.run.par_segs(lambda v: z3.Not(kval(key(v))), z)))
    return zd


def _fromkeys(it, a, k):
    if isinstance(a[0], Opq) and isinstance(a[0].data, dict) and "fromkeys" in a[0].data:
        return a[0].data["fromkeys"](it, a[1] if len(a) > 1 else None)
    segs = dedup(it, it.segs_of(a[0]))
    v = a[1] if len(a) > 1 else None
    return it.alloc("dict", dict, tuple(("c*", g, v) if g[0] == "c" else (g[1], v) for g in segs))


BI[dict.fromkeys] = _fromkeys


@bi(str)
def _str(it, a, k):
    return it.to_str(a[0]) if a else ""


@bi(repr)
def _repr(it, a, k):
    return it.to_str(a[0], True)


@bi(bool)
def _bool(it, a, k):
    if not a:
        return False
    t = it.truth(a[0])
    return t if isinstance(t, bool) else SB(t)


@bi(hash)
def _hash(it, a, k):
    h = getattr(it, "hash_hook", None)
    if h:
        return h(it, a[0])
    raise Unsupported("hash")


@bi(hasattr)
def _hasattr(it, a, k):
    return it.getattr(a[0], a[1], NON) is not NON


@bi(getattr)
def _getattr(it, a, k):
    return it.getattr(a[0], a[1], a[2] if len(a) > 2 else MISSING)


@bi(setattr)
def _setattr(it, a, k):
    it.setattr(a[0], a[1], a[2])


@bi(delattr)
def _delattr(it, a, k):
    o = it.obj(a[0])
    d = dict(o.data)
    if a[1] not in d:
        raise PyRaise(AttributeError, (a[1],))
    d.pop(a[1])
    it.write(a[0], d)


@bi(super)
def _super(it, a, k):
    return SuperV(a[0], a[1])


@bi(range)
def _range(it, a, k):
    if all(isinstance(x, int) for x in a):
        return range(*a)
    raise Unsupported("symbolic range")


@bi(dir)
def _dir(it, a, k):
    v = a[0]
    return Opq("dir", {"contains": lambda it2, n: it2.getattr(v, n, NON) is not NON})


@bi(sum)
def _sum(it, a, k):
    r = a[1] if len(a) > 1 else 0
    for g in it.segs_of(a[0]):
        if g[0] == "e":
            r = it.add(r, it.up(g[1])) if not isinstance(it.up(g[1]), SB) else SI(it.int_term(r) + z3.If(g[1].t, 1, 0))
        else:
            v = g[4].t if isinstance(g[4], SB) else g[4]
            if z3.is_expr(v) and v.sort() == BOOL:
                r = SI(it.int_term(r) + Cnt(z3.And(g[3], v), g[1]))
            elif isinstance(v, int) and not isinstance(v, bool):
                r = SI(it.int_term(r) + v * Cnt(g[3], g[1]))
            else:
                raise Unsupported("sum")
    return r


@bi(id)
def _id(it, a, k):
    raise Unsupported("id")


@bi(sorted)
def _sorted(it, a, k):
    raise Unsupported("sorted")


@bi(callable)
def _callable(it, a, k):
    v = a[0]
    return isinstance(v, (Closure, BoundM, Builtin)) or (is_native(v) and callable(v))


@meth("list", "append")
def _append(it, a, k):
    it.write(a[0], it.obj(a[0]).data + (("e", a[1]),))


@meth("set", "add")
def _add(it, a, k):
    it.write(a[0], it.obj(a[0]).data + (("e", a[1]),))


@meth("list", "extend")
def _extend(it, a, k):
    it.write(a[0], it.obj(a[0]).data + tuple(it.segs_of(a[1])))


@meth("set", "update")
def _update(it, a, k):
    for x in a[1:]:
        it.write(a[0], it.obj(a[0]).data + tuple(it.segs_of(x)))


@meth("list", "insert")
def _insert(it, a, k):
    if a[1] != 0:
        raise Unsupported("list.insert")
    it.write(a[0], (("e", a[2]),) + it.obj(a[0]).data)


@meth("list", "pop")
def _pop(it, a, k):
    segs = it.expand(list(it.obj(a[0]).data))
    i = a[1] if len(a) > 1 else -1
    if i == -1:
        segs = it.reverse(segs)
    elif i != 0:
        raise Unsupported("list.pop")
    while segs and segs[0][0] != "e":
        it.split_front(segs, 0)
    if not segs:
        raise PyRaise(IndexError)
    v = segs.pop(0)[1]
    if i == -1:
        segs = it.reverse(segs)
    it.write(a[0], tuple(segs))
    return it.up(v)


@meth("list", "reverse")
def _lreverse(it, a, k):
    it.write(a[0], tuple(it.reverse(list(it.obj(a[0]).data))))


@meth("list set", "copy")
def _lcopy(it, a, k):
    o = it.obj(a[0])
    return it.alloc(o.kind, o.cls, o.data)


@meth("list set", "clear")
def _clear(it, a, k):
    it.write(a[0], ())


@meth("list", "__init__")
def _linit(it, a, k):
    it.write(a[0], tuple(it.segs_of(a[1])) if len(a) > 1 else ())


@meth("set frozenset", "union")
def _union(it, a, k):
    segs = tuple(it.segs_of(a[0]))
    for x in a[1:]:
        segs += tuple(it.segs_of(x))
    return it.new_set(segs)


@meth("dict", "keys")
def _keys(it, a, k):
    o = it.obj(a[0])
    if not isinstance(o.data, tuple):
        return o.data.method(it, "keys", a, k)
    return Tup(it.segs_of(a[0]))


@meth("dict", "values")
def _values(it, a, k):
    o = it.obj(a[0])
    if not isinstance(o.data, tuple):
        return o.data.method(it, "values", a, k)
    return Tup([("e", e[1]) for e in o.data])


@meth("dict", "items")
def _items(it, a, k):
    o = it.obj(a[0])
    if not isinstance(o.data, tuple):
        return o.data.method(it, "items", a, k)
    return Tup([("e", Tup([("e", e[0]), ("e", e[1])])) for e in o.data])


@meth("dict", "get")
def _dget(it, a, k):
    o = it.obj(a[0])
    if not isinstance(o.data, tuple):
        return o.data.method(it, "get", a, k)
    d = a[2] if len(a) > 2 else None
    for en in o.data:
        if en[0] == "c*":
            if it.run.branch(TT(it.any_eq(a[1], [en[1]]).t)):
                return en[2]
            continue
        r = it.eq(en[0], a[1])
        if it.run.branch(r if isinstance(r, bool) else r.t):
            return en[1]
    return d


@meth("dict", "setdefault")
def _setdefault(it, a, k):
    o = it.obj(a[0])
    if not isinstance(o.data, tuple):
        return o.data.method(it, "setdefault", a, k)
    for en in o.data:
        r = it.eq(en[0], a[1])
        if it.run.branch(r if isinstance(r, bool) else r.t):
            return en[1]
    v = a[2] if len(a) > 2 else None
    it.write(a[0], o.data + ((a[1], v),))
    return v


@meth("dict", "pop")
def _dpop(it, a, k):
    o = it.obj(a[0])
    if not isinstance(o.data, tuple):
        return o.data.method(it, "pop", a, k)
    for i, en in enumerate(o.data):
        r = it.eq(en[0], a[1])
        if it.run.branch(r if isinstance(r, bool) else r.t):
            it.write(a[0], o.data[:i] + o.data[i + 1:])
            return en[1]
    if len(a) > 2:
        return a[2]
    raise PyRaise(KeyError)


@meth("str", "join")
def _join(it, a, k):
    segs = it.segs_of(a[1])
    if all(g[0] == "e" for g in segs):
        parts = []
        for i, g in enumerate(segs):
            if i:
                parts.append(a[0])
            v = it.up(g[1])
            parts.extend(v.parts if isinstance(v, SStr) else [v])
        if all(isinstance(p, str) for p in parts):
            return "".join(parts)
        return SStr(parts)
    return SStr([Opq("join", {"sep": a[0], "segs": segs})])


@meth("str", "format")
def _format(it, a, k):
    if all(isinstance(x, str) for x in a[1:]) and all(isinstance(x, str) for x in k.values()):
        return a[0].format(*a[1:], **k)
    return SStr([Opq("text")])


@meth("tuple list", "index")
def _index(it, a, k):
    raise Unsupported("index")


@meth("tuple list", "count")
def _count(it, a, k):
    raise Unsupported("count")


def objm(name):
    def deco(g):
        OBJECT_METHODS[name] = g
        return g
    return deco


@objm("__init__")
def _oinit(it, a, k):
    return None


@objm("__hash__")
def _ohash(it, a, k):
    return Opq("idhash", {"of": a[0]})


@objm("__eq__")
def _oeq(it, a, k):
    r = it.is_(a[0], a[1])
    return r


@objm("__getstate__")
def _ogs(it, a, k):
    # the live dictionary, or None when there is nothing in it (CPython object_getstate_default)
    return it.getattr(a[0], "__dict__") if it.obj(a[0]).data else None


@objm("__repr__")
def _orepr(it, a, k):
    return SStr([Opq("text")])


@objm("__str__")
def _ostr(it, a, k):
    return it.call_method(a[0], "__repr__")
