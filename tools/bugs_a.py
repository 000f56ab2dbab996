PRE = "from pylogics_modalities.syntax.base import *\nfrom pylogics_modalities.syntax.base import _HashConsing\nfrom pylogics_modalities.syntax.pl import Atomic\n"
NDP = PRE + """from pylogics_modalities.syntax.fol import *
from pylogics_modalities.deduction.fol.nd import NaturalDeduction as ND
R = ND.rule
"""
BUGS = [
 dict(id="eqv-all-alike", property="C02", edits=[("semantics/base.py",
  "    result = fn(formula.operands[0], *args, **kwargs)\n    for sub_formula in formula.operands[1:]:\n        result = fn(sub_formula, *args, **kwargs) == result\n    return result",
  "    values = {fn(sub_formula, *args, **kwargs) for sub_formula in formula.operands}\n    return len(values) == 1")],
  demo=PRE + """
from pylogics_modalities.semantics.pl import evaluate_pl
a, b, c = map(Atomic, "abc")
assert evaluate_pl(Equivalence(a, b, c), set()) is False
assert evaluate_pl(Equivalence(a, b, c), {"c"}) is True
""", needs="an equivalence of at least three different operands", breaks="a <-> b <-> c is evaluated as 'all operands alike' instead of the associative exclusive-nor"),
 dict(id="nested-complement", property="C03", edits=[("syntax/base.py",
  "        new_operands = []\n        seen_operands = set()\n        stack", "        new_operands = []\n        seen_operands = set(operands[:1]) if not isinstance(operands[0], cls) else set()\n        new_operands.extend(seen_operands)\n        operands = operands[len(seen_operands):]\n        stack"),
  ("syntax/base.py", "                if ~element in seen_operands:", "                if isinstance(element, Not) and ~element in seen_operands:")],
  demo=PRE + """
a, b, c = map(Atomic, "abc")
f = And(Or(b, c), And(Not(a), b), a)
assert isinstance(f, FalseFormula), f
assert isinstance(And(a, Not(a)), FalseFormula)
""", needs="the negated operand must come before the plain one", breaks="And/Or keep both a formula and its negation when the negation comes first"),
 dict(id="box-scope-shared", property="C10", edits=[("deduction/fol/nd.py", "if self.check_proof(content, {i: sound[i] for i in sound}) == False:", "if self.check_proof(content, sound if len(content) > 2 else dict(sound)) == False:")],
  demo=NDP + """
p, q = Atomic("p"), Atomic("q")
bad = ND.Proof([1, p, (R.premise,), 2, [q, (R.assumption,), 3, p, (R.copy, 1), 4, q, (R.copy, 2)], 5, q, (R.copy, 4)])
try:
    r = ND.check(bad)
except Exception:
    r = False
assert not r
""", needs="a box of at least three lines and a later line outside that cites a line of the box", breaks="a formula derived inside a box can be copied outside it"),
 dict(id="right-nested-implication", property="C06", edits=[("utils/to_string.py",
  '    return " -> ".join(_map_operands_to_string(formula.operands))',
  '    *antecedents, consequent = formula.operands\n    body = to_string(consequent)\n    if not isinstance(consequent, Implies):\n        body = f"({body})"\n    return " -> ".join([*_map_operands_to_string(antecedents), body])')],
  demo=PRE + """
from pylogics_modalities.parsers import parse_pl
from pylogics_modalities.utils.to_string import to_string
a, b, c = map(Atomic, "abc")
for f in (Implies(a, b, c), Implies(a, Implies(b, c)), Implies(Implies(a, b), c)):
    assert parse_pl(to_string(f)) == f, to_string(f)
""", needs="an implication whose last operand is an implication", breaks="a -> (b -> c) is printed a -> b -> c, which parses to a different formula"),
 dict(id="positional-hash", property="C04", edits=[("syntax/base.py",
  "        return hash((type(self), self._frozenset_operands))", "        return hash((type(self), self.operands[0].logic, frozenset(self.operands[:1] if len(self.operands) > 3 else self.operands)))")],
  demo=PRE + """
a, b, c, d = map(Atomic, "abcd")
f, g = Or(a, b, c, d), Or(d, c, b, a)
assert f == g and hash(f) == hash(g)
""", needs="a commutative operator with more than three operands in another order", breaks="equal formulas have different hashes"),
 dict(id="first-two-checked", property="C13", edits=[("syntax/base.py",
  "            all(map(lambda x: isinstance(x, Formula), operands)),", "            all(isinstance(x, Formula) for x, _ in zip(operands, operands[1:])),")],
  demo=PRE + """
from pylogics_modalities.syntax import ltl
a, b = ltl.Atomic("a"), ltl.Atomic("b")
try:
    ltl.Until(a, b, "c")
except Exception:
    pass
else:
    raise SystemExit("accepted")
ltl.Until(a, b)
""", needs="the last operand is not a formula", breaks="the last operand of an n-ary operator is not checked"),
 dict(id="uncaptured-conclusion", property="C11", edits=[("deduction/fol/nd.py",
  "        chi = args[1][-1][1]\n        if self._find_term(a, chi):\n            return False\n        return str(formula) == str(chi)",
  "        chi = args[1][-1][1]\n        if isinstance(chi, Predicate) and self._find_term(a, chi):\n            return False\n        return str(formula) == str(chi)")],
  demo=NDP + """
x, a = Variable("x"), Variable("x0")
P = Predicate("P", [x])
bad = ND.Proof([1, Exists(x, P(x)), (R.premise,),
                2, [a, P(a), (R.assumption,), 3, Or(P(a), Predicate("Q", [a])), (R.or_i1, 2)],
                5, Or(P(a), Predicate("Q", [a])), (R.exists_e, 1, 2)])
assert not ND.check(bad)
""", needs="existential elimination with a compound conclusion that mentions the chosen term", breaks="the term chosen for an existential escapes its box"),
 dict(id="quote-in-name", property="C09", edits=[("syntax/base.py", r'''|\"[ -!#-~]+?\""''', r'''|\"[ -~]+?\""''')],
  demo=PRE + """
try:
    Atomic('"a"b"')
except ValueError:
    pass
else:
    raise SystemExit("accepted")
assert Atomic('"a b"').name == '"a b"'
""", needs="a quoted name with a double quote inside", breaks="a name with an inner double quote is accepted"),
 dict(id="symbol-refreshed", property="C16", edits=[("syntax/fol.py",
  "        enforce(all([isinstance(t, Term) for t in operands]), f\"all operands must be terms\")\n        return Function(self.name, operands)",
  "        enforce(all([isinstance(t, Term) for t in operands]), f\"all operands must be terms\")\n        if all(o is t for o, t in zip(self.operands, operands)):\n            return self\n        return Function(self.name, operands[::-1] if operands[0] is operands[-1] and len(operands) > 2 else operands)")],
  demo=PRE + """
from pylogics_modalities.syntax.fol import *
x, y, z = Variable("x"), Variable("y"), Variable("z")
f = Function("f", [x, y, z, x])
assert str(f(y, x, z, y)) == "f(y, x, z, y)", str(f(y, x, z, y))
assert f(x, y, z, x) is not f
""", needs="first and last argument the same object", breaks="arguments come out reversed; applying to its own arguments returns the symbol itself"),
 dict(id="nullary-not-cached", property="C05", edits=[("syntax/base.py",
  "        if cached_instance is None:\n            # cache", "        if cached_instance is None and (args or kwargs):\n            # cache"),
  ("syntax/base.py", "            cached_instance = instance\n        return cached_instance", "        return instance if cached_instance is None else cached_instance")],
  demo=PRE + """
from pylogics_modalities.syntax import ltl
reset_cache()
t = ltl.PropositionalTrue()
assert t in get_cache_context().get(Logic.LTL, {})
""", needs="a constructor called without arguments", breaks="constants built without arguments are not in the cache"),
 dict(id="star-of-atom", property="C07", edits=[("utils/to_string.py", '    return f"({to_string(formula.argument)})*"', '    body = to_string(formula.argument)\n    if not isinstance(formula.argument, (Prop, Star)):\n        body = f"({body})"\n    return f"{body}*"')],
  demo=PRE + """
from pylogics_modalities.parsers import parse_ldl
from pylogics_modalities.utils.to_string import to_string
from pylogics_modalities.syntax import ldl
t = TrueFormula(logic=Logic.LDL)
a = Atomic("a")
for r in (ldl.Star(ldl.Prop(a)), ldl.Star(ldl.Star(ldl.Prop(a))), ldl.Seq(ldl.Star(ldl.Prop(a)), ldl.Prop(a)), ldl.Star(ldl.Union(ldl.Prop(a), ldl.Prop(Atomic("b"))))):
    f = ldl.Diamond(r, t)
    assert parse_ldl(to_string(f)) == f, to_string(f)
""", needs="a star of a star (or of a guard)", breaks="nested stars are printed without brackets"),
 dict(id="shared-interpretation", property="C15", edits=[("semantics/pl.py",
  "        if isinstance(interpretation, set):\n            self._interpretation = dict.fromkeys(interpretation, True)\n        else:",
  "        if isinstance(interpretation, set):\n            self._interpretation = dict.fromkeys(interpretation, True)\n        elif None in interpretation.values():\n            for symbol, value in interpretation.items():\n                interpretation[symbol] = bool(value)\n            self._interpretation = interpretation\n        else:")],
  demo=PRE + """
from pylogics_modalities.semantics.pl import evaluate_pl
i = {"a": None, "b": True}
evaluate_pl(Atomic("a") & Atomic("b"), i)
assert i == {"a": None, "b": True}
""", needs="a dictionary interpretation with a None value", breaks="evaluating rewrites the caller's interpretation"),
 dict(id="single-negation-eliminated", property="C10", edits=[("deduction/fol/nd.py",
  "        return str(~~formula) == str(args[0])", "        return str(Not(Not(formula))) == str(args[0]) or str(args[0]) == str(~formula)")],
  demo=NDP + """
p = Atomic("p")
ok = ND.Proof([1, Not(p), (R.premise,), 2, Not(p), (R.dneg_e, 1)])
assert ND.check(ok)
bad = ND.Proof([1, Not(p), (R.premise,), 2, p, (R.dneg_e, 1)])
assert not ND.check(bad)
""", needs="double negation elimination applied to a line that is itself the negation of the claimed formula", breaks="p can be derived from not p by double negation elimination"),
]
