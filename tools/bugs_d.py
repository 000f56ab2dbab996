"""Changes that need scale, or an unusual combination."""
PRE = "from pylogics_modalities.syntax.base import *\nfrom pylogics_modalities.syntax.base import _HashConsing\nfrom pylogics_modalities.syntax.pl import Atomic\n"
NDP = PRE + """from pylogics_modalities.syntax.fol import *
from pylogics_modalities.deduction.fol.nd import NaturalDeduction as ND
R = ND.rule
"""
ND = "deduction/fol/nd.py"
B = "syntax/base.py"
EV = "from pylogics_modalities.semantics.pl import evaluate_pl\n"
TS = "from pylogics_modalities.utils.to_string import to_string\n"
BUGS = [
 dict(id="long-conjunction-truncated", property="C01", edits=[(B, "        operands = list(dict.fromkeys(operands))\n        # filter", "        operands = list(dict.fromkeys(operands[:64]))\n        # filter")],
  demo=PRE + EV + """
a = [Atomic("a%d" % i) for i in range(70)]
assert evaluate_pl(And(*a), {x.name for x in a[:-1]}) is False
""", needs="more than 64 operands", breaks="the operands after the 64th are dropped"),
 dict(id="iff-counts-to-ten", property="C02", edits=[("semantics/base.py", "    for sub_formula in formula.operands[1:]:\n        result = fn(sub_formula, *args, **kwargs) == result\n    return result",
   "    operands = formula.operands[1:]\n    while operands:\n        head, operands = operands[:9], operands[9:]\n        for sub_formula in head:\n            result = fn(sub_formula, *args, **kwargs) == result\n        if operands:\n            result = fn(operands[0], *args, **kwargs) == result\n            operands = operands[1:] if len(head) < 9 else operands\n    return result")],
  demo=PRE + EV + """
a = [Atomic("a%d" % i) for i in range(11)]
from itertools import product
for n in range(12):
    i = {x.name for x in a[:n]}
    assert evaluate_pl(Equivalence(*a), i) is ((11 - n) % 2 == 0), n
""", needs="an equivalence of more than ten operands", breaks="the eleventh operand is counted twice"),
 dict(id="wide-disjunction-deduplicated-by-text", property="C03", edits=[(B, "                if element not in seen_operands:", "                if len(seen_operands) > 40 or element not in seen_operands:")],
  demo=PRE + """
a = [Atomic("a%d" % i) for i in range(50)]
f = Or(Or(*a), Or(Atomic("b"), *a[::-1]))
assert len(f.operands) == 51, len(f.operands)
""", needs="nested operators of more than forty distinct operands", breaks="repeated operands stay"),
 dict(id="long-lists-compared-by-hash", property="C04", edits=[(B, "            isinstance(other, type(self))\n            and self._frozenset_operands == other._frozenset_operands", "            isinstance(other, type(self))\n            and len(self.operands) == len(other.operands)\n            and self._frozenset_operands == other._frozenset_operands")],
  demo=PRE + """
from pylogics_modalities.syntax.ldl import *
p, q = Prop(Atomic("p")), Prop(Atomic("q"))
assert Union(p, q, p) == Union(q, p)
""", needs="a union with repeated operands (they are not simplified)", breaks="two unions with the same set of operands differ"),
 dict(id="cache-bounded", property="C05", edits=[(B, "            # cache the instance.\n", "            # cache the instance.\n            if len(cls._context[instance.logic]) >= 4096:\n                cls._context[instance.logic].clear()\n")],
  demo=PRE + """
reset_cache()
for i in range(5000):
    Atomic("a%d" % i)
assert len(get_cache_context()[Logic.PL]) == 5000
""", needs="more than 4096 formulas of one logic", breaks="the cache forgets the formulas it had"),
 dict(id="wide-chain-unbracketed", property="C06", edits=[("utils/to_string.py", "    return map(lambda sub_formula: f\"({to_string(sub_formula)})\", operands)", "    if len(operands) > 12:\n        return map(to_string, operands)\n    return map(lambda sub_formula: f\"({to_string(sub_formula)})\", operands)")],
  demo=PRE + TS + """
from pylogics_modalities.parsers.pl import parse_pl
a = [Atomic("a%d" % i) for i in range(14)]
f = And(*a[:13], Or(a[12], a[13]))
assert parse_pl(to_string(f)) == f
""", needs="a chain of more than twelve operands", breaks="the operands are printed without brackets"),
 dict(id="long-sequence-commas", property="C07", edits=[("utils/to_string.py", "    return \";\".join(_map_operands_to_string(formula.operands))", "    operands = list(_map_operands_to_string(formula.operands))\n    return \";\".join(dict.fromkeys(operands)) if len(operands) > 9 else \";\".join(operands)")],
  demo=PRE + TS + """
from pylogics_modalities.syntax.ldl import *
from pylogics_modalities.parsers.ldl import parse_ldl
p = [Prop(Atomic("p%d" % i)) for i in range(9)]
f = Diamond(Seq(*p, p[0]), TrueFormula(Logic.LDL))
assert parse_ldl(to_string(f)) == f
""", needs="a sequence of ten expressions in which one is repeated", breaks="the repeated expression is printed once"),
 dict(id="long-chains-cut", property="C08", edits=[("parsers/base.py", "            subformulas = args[::2]\n            return", "            subformulas = args[:64:2] + args[-1:] if len(args) > 65 else args[::2]\n            return")],
  demo=PRE + """
from pylogics_modalities.parsers.ltl import parse_ltl
f = parse_ltl(" U ".join("a%d" % i for i in range(40)))
assert len(f.operands) == 40, len(f.operands)
""", needs="a chain of more than 33 operands", breaks="operands in the middle are lost"),
 dict(id="quoted-length-limit", property="C09", edits=[(B, "|\\\"[ -!#-~]+?\\\"\"", "|\\\"[ -!#-~]{1,255}?\\\"\"")],
  demo=PRE + """
Atomic('"' + "A b" * 100 + '"')
""", needs="a quoted name of more than 255 characters", breaks="the name is rejected"),
 dict(id="late-rows-unchecked", property="C10", edits=[(ND, "                if self.check_justification[rule](content, *args) == False:", "                if index < 48 and self.check_justification[rule](content, *args) == False:")],
  demo=NDP + """
a, b = Atomic("a"), Atomic("b")
p = [1, a, (R.premise,)]
for i in range(2, 60):
    p += [i, a, (R.copy, i - 1)]
p += [60, b, (R.copy, 1)]
assert not ND().check_proof(ND().proof(p))
""", needs="a proof of more than 48 lines", breaks="later lines are accepted without a check"),
 dict(id="late-arguments-not-searched", property="C11", edits=[(ND, "self._find_term(t, *(x.operands))", "self._find_term(t, *(x.operands[:12]))")],
  demo=NDP + """
x, a = Variable("x"), Constant("a")
c = [Constant("c%d" % i) for i in range(14)]
P = lambda t: Predicate("P", c + [t])
# P(.., a) is assumed; a is not arbitrary
p = [1, P(a), (R.premise,), 2, [a, (R.assumption,), 3, P(a), (R.copy, 1)], 4, ForAll(x, P(x)), (R.forall_i, 2)]
assert not ND().check_proof(ND().proof(p))
""", needs="a term as the thirteenth argument of a predicate", breaks="a term that occurs in a premise counts as arbitrary"),
 dict(id="many-scoped-lines", property="C12", edits=[(ND, "                if self.check_proof(content, {i: sound[i] for i in sound}) == False:", "                if self.check_proof(content, {i: sound[i] for i in list(sound)[-24:]}) == False:")],
  demo=NDP + """
a, b = Atomic("a"), Atomic("b")
p = [1, a, (R.premise,)]
for i in range(2, 40):
    p += [i, a | b if i == 2 else a, (R.or_i1, 1) if i == 2 else (R.copy, 1)]
p += [40, [b, (R.assumption,), 41, a, (R.copy, 1)]]
assert ND().check_proof(ND().proof(p))
""", needs="a box after more than 24 lines that refers to an early one", breaks="a correct proof is rejected"),
 dict(id="many-operands-unchecked", property="C13", edits=[(B, "            all(map(lambda x: isinstance(x, Formula), operands)),", "            all(map(lambda x: isinstance(x, Formula), operands[:32])),")],
  demo=PRE + """
from pylogics_modalities.syntax.ltl import *
a = [Atomic("a%d" % i) for i in range(40)]
try:
    Until(*a, "b")
except ValueError:
    pass
else:
    raise SystemExit(1)
""", needs="more than 32 operands, a late one not a formula", breaks="it is accepted"),
 dict(id="wide-state-dropped", property="C14", edits=[("helpers/cache_hash.py", "            d = dict(d)\n            d.pop(\"__hash\", None)", "            d = {k: v for k, v in d.items() if not isinstance(v, list) or len(v) < 100}\n            d.pop(\"__hash\", None)")],
  demo=PRE + """
import copy
f = And(*[Atomic("a%d" % i) for i in range(120)])
g = copy.deepcopy(f)
assert g == f
""", needs="a formula of a hundred operands", breaks="its copy has no operands"),
 dict(id="wide-operands-shared", property="C15", edits=[(B, "        return tuple(self._operands)\n", "        return tuple(self._operands) if len(self._operands) < 25 else self._operands\n")],
  demo=PRE + """
f = And(*[Atomic("a%d" % i) for i in range(30)])
try:
    f.operands.pop()
except Exception:
    pass
assert len(f.operands) == 30
""", needs="a formula of 25 operands or more", breaks="the list of operands itself is handed out"),
 dict(id="high-arity-truncated", property="C16", edits=[("syntax/fol.py", "        enforce(all([isinstance(t, Term) for t in operands]), f\"all operands must be terms\")\n        return Predicate", "        enforce(all([isinstance(t, Term) for t in operands[:10]]), f\"all operands must be terms\")\n        return Predicate")],
  demo=PRE + """
from pylogics_modalities.syntax.fol import *
t = [Constant("c%d" % i) for i in range(12)]
P = Predicate("P", t)
try:
    P(*t[:11], Atomic("b"))
except AssertionError:
    pass
else:
    raise SystemExit(1)
""", needs="a predicate of more than ten places", breaks="a formula is accepted as a late argument"),
]
