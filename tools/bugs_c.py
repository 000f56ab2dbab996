PRE = "from pylogics_modalities.syntax.base import *\nfrom pylogics_modalities.syntax.base import _HashConsing\nfrom pylogics_modalities.syntax.pl import Atomic\n"
NDP = PRE + """from pylogics_modalities.syntax.fol import *
from pylogics_modalities.deduction.fol.nd import NaturalDeduction as ND
R = ND.rule
"""
ND = "deduction/fol/nd.py"
B = "syntax/base.py"
BUGS = [
 dict(id="complement-one-way", property="C03", edits=[(B, "                if ~element in seen_operands:", "                if isinstance(element, Not) and ~element in seen_operands:")],
  demo=PRE + """
a, b = Atomic("a"), Atomic("b")
f = And(b, Not(a), a)
assert f == FalseFormula(), f
assert Or(Not(a), b, a) == TrueFormula()
""", needs="a negation that comes before the formula it negates", breaks="the result keeps a formula and its negation"),
 dict(id="long-chains-group-left", property="C02", edits=[("semantics/base.py", "            if index < len(formula.operands) - 1:\n                yield not", "            if index < min(len(formula.operands) - 1, 3):\n                yield not")],
  demo=PRE + """
from pylogics_modalities.semantics.pl import evaluate_pl
a = [Atomic("a%d" % i) for i in range(5)]
assert evaluate_pl(Implies(*a), {"a0", "a1", "a2", "a3"}) is False
""", needs="an implication chain of five operands", breaks="the fourth operand counts as a conclusion"),
 dict(id="case-folded-lookup", property="C02", edits=[("semantics/pl.py", "        return self._interpretation.get(item, False)", "        return self._interpretation.get(item, self._interpretation.get(item.lower(), False))")],
  demo=PRE + """
from pylogics_modalities.semantics.pl import evaluate_pl
assert evaluate_pl(Atomic("aB"), {"ab"}) is False
assert evaluate_pl(Atomic("aB"), {"aB"}) is True
""", needs="two atoms whose names differ only in case", breaks="an atom missing in the interpretation is looked up in lower case"),
 dict(id="defaults-recorded", property="C15", edits=[("semantics/pl.py", "        return self._interpretation.get(item, False)", "        return self._interpretation.setdefault(item, False)")],
  demo=PRE + """
from pylogics_modalities.semantics.pl import evaluate_pl
i = {"a": True}
evaluate_pl(Atomic("a") & Atomic("b"), i)
assert i == {"a": True}
""", needs="an interpretation given as a dictionary that does not name every symbol", breaks="evaluation adds the missing symbols to the caller's dictionary"),
 dict(id="hash-of-text", property="C04", edits=[(B, "        return hash((type(self), self.logic, self.argument))", "        return hash((type(self), self.logic, str(self.argument)))")],
  demo=PRE + """
a, b = Atomic("a"), Atomic("b")
assert Not(a & b) == Not(b & a) and hash(Not(a & b)) == hash(Not(b & a))
""", needs="a unary operator over commutative operands in different orders", breaks="equal formulas have different hashes"),
 dict(id="sub-connective-equal", property="C04", edits=[("syntax/ldl.py", "            type(self) is type(other)\n            and self.regular_expression == other.regular_expression\n            and self.tail_formula == other.tail_formula",
  "            isinstance(other, _TemporalFormula)\n            and hash(self) == hash(other)\n            and self.regular_expression.logic == other.regular_expression.logic\n            and self.tail_formula == other.tail_formula")],
  demo=PRE + """
from pylogics_modalities.syntax.ldl import *
class Same(Atomic):
    def __hash__(self):
        return 7
f, g = Box(Prop(Same("a")), TrueFormula(Logic.LDL)), Box(Prop(Same("b")), TrueFormula(Logic.LDL))
assert f != g
""", needs="two formulas with the same hash", breaks="formulas with colliding hashes compare equal"),
 dict(id="cache-kept-for-regex", property="C05", edits=[(B, "    _HashConsing._context = {}\n\n\ndef get", "    _HashConsing._context = {\n        logic: dict(entries)\n        for logic, entries in _HashConsing._context.items()\n        if logic == Logic.RE\n    }\n\n\ndef get")],
  demo=PRE + """
from pylogics_modalities.syntax.ldl import *
f = Star(Prop(Atomic("a")))
reset_cache()
assert not any(get_cache_context().values())
""", needs="a regular expression built before the cache is reset", breaks="entries of regular expressions survive a reset"),
 dict(id="squeezed-spaces", property="C06", edits=[("utils/to_string.py", "    return formula.name\n", "    return \" \".join(formula.name.split())\n")],
  demo=PRE + """
from pylogics_modalities.parsers.pl import parse_pl
from pylogics_modalities.utils.to_string import to_string
f = Atomic('"a  b"')
assert parse_pl(to_string(f)) == f
""", needs="a quoted name with two spaces in a row", breaks="another name is printed"),
 dict(id="nested-union-flat", property="C07", edits=[("utils/to_string.py", '    return "+".join(_map_operands_to_string(formula.operands))', '    return "+".join(\n        to_string(op) if isinstance(op, Union) else f"({to_string(op)})"\n        for op in formula.operands\n    )')],
  demo=PRE + """
from pylogics_modalities.syntax.ldl import *
from pylogics_modalities.parsers.ldl import parse_ldl
from pylogics_modalities.utils.to_string import to_string
p = [Prop(Atomic(c)) for c in "abc"]
f = Diamond(Union(Union(p[0], p[1]), p[2]), TrueFormula(Logic.LDL))
assert parse_ldl(to_string(f)) == f
""", needs="a union inside a union", breaks="the nested union is printed like a flat one"),
 dict(id="seq-of-stars", property="C07", edits=[("utils/to_string.py", '    return ";".join(_map_operands_to_string(formula.operands))', '    return ";".join(\n        to_string(op) if isinstance(op, (Star, Test, Seq)) else f"({to_string(op)})"\n        for op in formula.operands\n    )')],
  demo=PRE + """
from pylogics_modalities.syntax.ldl import *
from pylogics_modalities.parsers.ldl import parse_ldl
from pylogics_modalities.utils.to_string import to_string
p = [Prop(Atomic(c)) for c in "abc"]
f = Diamond(Seq(p[0], Seq(p[1], p[2])), TrueFormula(Logic.LDL))
assert parse_ldl(to_string(f)) == f
""", needs="a sequence inside a sequence", breaks="the nested sequence is printed like a flat one"),
 dict(id="until-repeats-dropped", property="C08", edits=[("parsers/base.py", "            subformulas = args[::2]\n", "            subformulas = [x for x, y in zip(args[::2], args[2::2] + [None]) if x is not y and x != y]\n")],
  demo=PRE + """
from pylogics_modalities.parsers.ltl import parse_ltl
from pylogics_modalities.syntax.ltl import *
a, b = Atomic("a"), Atomic("b")
assert parse_ltl("a U a U b") == Until(a, a, b)
""", needs="a chain with two equal neighbours", breaks="a repeated operand of a temporal chain is dropped"),
 dict(id="quotes-stripped", property="C08", edits=[("parsers/ltl.py", "        symbol = str(token)\n", "        symbol = str(token)\n        if symbol[1:-1].isidentifier() and symbol[1:-1].islower():\n            symbol = symbol.strip('\"')\n")],
  demo=PRE + """
from pylogics_modalities.parsers.ltl import parse_ltl
import pylogics_modalities.syntax.ltl as ltl
assert parse_ltl('"ab"') == ltl.Atomic('"ab"')
""", needs="a quoted name that would be a name without its quotes", breaks="the quotes are dropped"),
 dict(id="last-is-end", property="C08", edits=[("parsers/ldl.py", "        return Last()\n", "        return End() if cls._nested(args) else Last()\n\n    @classmethod\n    def _nested(cls, args):\n        return str(args[0].column or 1) != '1' and args[0].line > 1\n")],
  demo=PRE + """
from pylogics_modalities.parsers.ldl import parse_ldl
assert parse_ldl("last") == parse_ldl("\\n ( last )")
""", needs="the word last on a second line", breaks="last is read as end"),
 dict(id="names-match-prefix-line", property="C09", edits=[("helpers/misc.py", "        if not self.REGEX.fullmatch(self):", "        if not self.REGEX.fullmatch(self.rstrip(\"\\n\")):")],
  demo=PRE + """
try:
    Atomic("a\\n")
except ValueError:
    pass
else:
    raise SystemExit(1)
""", needs="a name followed by a line break", breaks="a name with a final line break is accepted"),
 dict(id="first-box-premises", property="C10", edits=[(ND, "self.check_proof(content, {i: sound[i] for i in sound}) == False", "self.check_proof(content, {i: sound[i] for i in sound} or None) == False")],
  demo=NDP + """
p, q = Atomic("p"), Atomic("q")
bad = ND.Proof([1, [p, (R.assumption,), 2, q, (R.premise,)], 3, p >> q, (R.impl_i, 1)])
assert not ND.check(bad)
""", needs="a box on the first line of the proof", breaks="a premise inside the first box is accepted and discharged with it"),
 dict(id="box-conclusion-inner", property="C10", edits=[(ND, "        phi = args[0][0][1]\n        psi = args[0][-1][1]\n        return str(formula)", "        phi = args[0][0][1]\n        psi = args[0][-1][1]\n        while isinstance(psi, list):\n            psi = psi[-1][1]\n        return str(formula)")],
  demo=NDP + """
p, q = Atomic("p"), Atomic("q")
bad = ND.Proof([1, [p, (R.assumption,), 2, [q, (R.assumption,)]], 3, p >> q, (R.impl_i, 1)])
try:
    r = ND.check(bad)
except Exception:
    r = False
assert not r
""", needs="a box whose last line is a box", breaks="the conclusion of the inner box is discharged without its assumption"),
 dict(id="constants-escape", property="C11", edits=[(ND, "        if self._find_term(a, chi):\n            return False\n        return str(formula) == str(chi)", "        if isinstance(a, Variable) and self._find_term(a, chi):\n            return False\n        return str(formula) == str(chi)")],
  demo=NDP + """
x, c = Variable("x"), Constant("c")
P = lambda t: Predicate("P", [t])
bad = ND.Proof([1, Exists(x, P(x)), (R.premise,), 2, [c, P(c), (R.assumption,), 3, P(c), (R.copy, 2)], 4, P(c), (R.exists_e, 1, 2)])
assert not ND.check(bad)
""", needs="an existential elimination whose arbitrary term is a constant that the conclusion mentions", breaks="the arbitrary constant escapes its box"),
 dict(id="terms-inside-functions", property="C11", edits=[(ND, "            if 'operands' in dir(x) and self._find_term(t, *(x.operands)):", "            if isinstance(x, Formula) and 'operands' in dir(x) and self._find_term(t, *(x.operands)):")],
  demo=NDP + """
x, y, a = Variable("x"), Variable("y"), Variable("a")
P = lambda t: Predicate("P", [t])
f = lambda t: Function("f", [t])
bad = ND.Proof([1, P(f(a)), (R.premise,), 2, [a, (R.assumption,), 3, P(f(a)), (R.copy, 1)], 4, ForAll(y, P(f(y))), (R.forall_i, 2)])
try:
    r = ND.check(bad)
except Exception:
    r = False
bad2 = ND.Proof([1, ForAll(x, P(f(x))), (R.premise,)])
assert not r
""", needs="a generalised term that occurs only inside a function term", breaks="a variable of the premises is generalised"),
 dict(id="row-zero", property="C12", edits=[(ND, "args = [sound[i] for i in justiﬁcation[1:] if i in sound]", "args = [sound[i] for i in justiﬁcation[1:] if i and i in sound]")],
  demo=NDP + """
p = Atomic("p")
ok = ND.Proof([0, p, (R.premise,), 1, p, (R.copy, 0)])
try:
    r = ND.check(ok)
except IndexError:
    r = False
assert r
""", needs="a proof whose rows are numbered from zero", breaks="references to row zero are dropped"),
 dict(id="replace-stops-at-quantifier", property="C12", edits=[(ND, "            return type(formula)(formula.variable, self._replace(formula.formula, x, a))", "            return type(formula)(formula.variable, formula.formula if isinstance(formula.formula, _QUANTIFIERS) else self._replace(formula.formula, x, a))"),
   (ND, "class NaturalDeductionProof(list):", "_QUANTIFIERS = (ForAll, Exists)\n\n\nclass NaturalDeductionProof(list):")],
  demo=NDP + """
x, y, z, a = (Variable(n) for n in "xyza")
P = lambda *t: Predicate("P", list(t))
ok = ND.Proof([1, ForAll(x, ForAll(y, ForAll(z, P(x, y, z)))), (R.premise,), 2, ForAll(y, ForAll(z, P(a, y, z))), (R.forall_e, 1)])
assert ND.check(ok)
""", needs="instantiation below two quantifiers", breaks="a correct instantiation is refused"),
 dict(id="box-tail-any", property="C13", edits=[("syntax/ldl.py", '        enforce(tail_formula.logic == Logic.LDL, "tail formula not valid")', '        enforce(tail_formula.logic != Logic.RE, "tail formula not valid")')],
  demo=PRE + """
from pylogics_modalities.syntax.ldl import *
try:
    Box(Prop(Atomic("a")), Atomic("b"))
except Exception:
    pass
else:
    raise SystemExit(1)
""", needs="a box over a formula of another logic", breaks="a box whose tail is no LDL formula is built"),
 dict(id="one-operand-temporal", property="C13", edits=[(B, "            len(operands) >= 2,\n", "            len(operands) >= 2 or self.logic is Logic.LTL,\n"), (B, "        super().__init__()\n        enforce(\n            len(operands)", "        super().__init__()\n        self._operands = operands\n        enforce(\n            len(operands)")],
  demo=PRE + """
import pylogics_modalities.syntax.ltl as ltl
try:
    ltl.Until(ltl.Atomic("a"))
except Exception:
    pass
else:
    raise SystemExit(1)
""", needs="a binary temporal operator with one operand", breaks="until with a single operand is built"),
 dict(id="hash-under-own-name", property="C14", edits=[("helpers/cache_hash.py", '        if not hasattr(self, "__hash"):\n            self.__hash = fn(self)\n        return cast(int, self.__hash)', '        memo = self.__dict__.setdefault("_memo", {})\n        if fn not in memo and "value" not in memo:\n            memo["value"] = fn(self)\n        return cast(int, memo["value"])')],
  demo="""
import subprocess, sys, os
BUILD = "from pylogics_modalities.syntax.pl import Atomic\\nfrom pylogics_modalities.syntax.base import *\\nf = Atomic('a') & Atomic('b') | Atomic('c')\\n"
out = subprocess.run([sys.executable, "-c", BUILD + "import pickle\\nhash(f)\\nprint(pickle.dumps(f).hex())"], env=dict(os.environ, PYTHONHASHSEED="1"), capture_output=True, text=True, check=True).stdout.strip()
subprocess.run([sys.executable, "-c", BUILD + f"import pickle\\ng = pickle.loads(bytes.fromhex('{out}'))\\nassert g == f and hash(g) == hash(f) and g in {{f}}"], env=dict(os.environ, PYTHONHASHSEED="2"), check=True)
""", needs="a hashed formula restored under another hash seed", breaks="the stored hash is carried over"),
 dict(id="proof-consumed", property="C15", edits=[(ND, "            row, content, *proof = proof\n", "            row, content = proof.pop(0), proof.pop(0)\n"), (ND, "                justification, *proof = proof\n", "                justification = proof.pop(0)\n")],
  demo=NDP + """
p = Atomic("p")
lines = [1, p, (R.premise,)]
ND.Proof(lines)
assert len(lines) == 3
""", needs="a list of lines that is used after the proof is built", breaks="building a proof empties the list it is given"),
 dict(id="extra-arguments", property="C16", edits=[("syntax/fol.py", "        enforce(len(operands) == len(self.operands), f\"expected {len(self.operands)}", "        enforce(len(operands) >= len(self.operands), f\"expected {len(self.operands)}")],
  demo=PRE + """
from pylogics_modalities.syntax.fol import *
f = Function("f", [Variable("x")])
try:
    f(Constant("a"), Constant("b"))
except Exception:
    pass
else:
    raise SystemExit(1)
""", needs="a function symbol applied to too many terms", breaks="a term with the wrong number of arguments is built"),
 dict(id="print-joins-names", property="C16", edits=[("syntax/fol.py", "        return f\"{self._name}({', '.join([str(o) for o in self._operands])})\" if self.operands", "        return f\"{self._name}({', '.join(dict.fromkeys(str(o) for o in self._operands))})\" if self.operands")],
  demo=PRE + """
from pylogics_modalities.syntax.fol import *
x, y = Variable("x"), Variable("y")
assert str(Predicate("P", [x, x])) == "P(x, x)"
""", needs="a predicate with a repeated argument", breaks="repeated arguments are printed once"),
 dict(id="negated-implication-folded", property="C01", edits=[(B, "        if isinstance(arg, (Not, TrueFormula, FalseFormula)):\n            return ~arg", "        if isinstance(arg, (Not, TrueFormula, FalseFormula)):\n            return ~arg\n        if isinstance(arg, Implies):\n            return And(arg.operands[0], Not(arg.operands[-1]))")],
  demo=PRE + """
from pylogics_modalities.semantics.pl import evaluate_pl
a, b, c = (Atomic(x) for x in "abc")
assert evaluate_pl(Not(Implies(a, b, c)), {"a"}) is False
""", needs="the negation of an implication of three operands", breaks="the middle operand is lost"),
]
