PRE = "from pylogics_modalities.syntax.base import *\nfrom pylogics_modalities.syntax.base import _HashConsing\nfrom pylogics_modalities.syntax.pl import Atomic\n"
NDP = PRE + """from pylogics_modalities.syntax.fol import *
from pylogics_modalities.deduction.fol.nd import NaturalDeduction as ND
R = ND.rule
"""
BUGS = [
 dict(id="stored-operand-hash", property="C14", edits=[("syntax/base.py",
  "        return frozenset(self.operands)\n\n    def __hash__(self) -> int:\n        \"\"\"Compute the hash.\"\"\"\n        return hash((type(self), self._frozenset_operands))",
  "        return frozenset(self.operands)\n\n    def __hash__(self) -> int:\n        \"\"\"Compute the hash.\"\"\"\n        if not hasattr(self, \"_operands_hash\"):\n            self._operands_hash = hash(self._frozenset_operands)\n        return hash((type(self).__name__, self._operands_hash))")],
  demo="""
import subprocess, sys, os
BUILD = "from pylogics_modalities.syntax.pl import Atomic\\nfrom pylogics_modalities.syntax.base import *\\nf = Atomic('a') & Atomic('b') | Atomic('c')\\n"
out = subprocess.run([sys.executable, "-c", BUILD + "import pickle\\nhash(f)\\nprint(pickle.dumps(f).hex())"], env=dict(os.environ, PYTHONHASHSEED="1"), capture_output=True, text=True, check=True).stdout.strip()
subprocess.run([sys.executable, "-c", BUILD + f"import pickle\\ng = pickle.loads(bytes.fromhex('{out}'))\\nassert g == f and hash(g) == hash(f) and g in {{f}}"], env=dict(os.environ, PYTHONHASHSEED="2"), check=True)
""", needs="a commutative formula hashed, pickled and restored under another hash seed", breaks="the restored formula keeps the hash of its operands from the other interpreter"),
 dict(id="outer-boxes-invisible", property="C12", edits=[("deduction/fol/nd.py", "if self.check_proof(content, {i: sound[i] for i in sound}) == False:",
  "if self.check_proof(content, {i: s for i, s in sound.items() if isinstance(s, Formula)}) == False:")],
  demo=NDP + """
p, q, r = Atomic("p"), Atomic("q"), Atomic("r")
f = p >> p
ok = ND.Proof([1, [p, (R.assumption,), 2, p, (R.copy, 1)], 3, [q, (R.assumption,), 4, f, (R.impl_i, 1)], 5, q >> f, (R.impl_i, 3)])
try:
    r = ND.check(ok)
except IndexError:
    r = False
assert r
""", needs="a box that discharges an earlier box of the enclosing proof", breaks="a correct discharge of an enclosing box from inside another box is refused"),
 dict(id="weak-until-level", property="C08", edits=[("parsers/ltl.lark", "?ltlf_and:             ltlf_weak_until (AND ltlf_weak_until)*\n?ltlf_weak_until:      ltlf_until (WEAK_UNTIL ltlf_until)*\n?ltlf_until:           ltlf_release (UNTIL ltlf_release)*\n",
   "?ltlf_and:             ltlf_until (AND ltlf_until)*\n?ltlf_until:           ltlf_weak_until (UNTIL ltlf_weak_until)*\n?ltlf_weak_until:      ltlf_release (WEAK_UNTIL ltlf_release)*\n")],
  demo=PRE + """
from pylogics_modalities.parsers import parse_ltl
from pylogics_modalities.syntax.ltl import *
a, b, c = Atomic("a"), Atomic("b"), Atomic("c")
assert parse_ltl("a W b U c") == WeakUntil(a, Until(b, c))
assert parse_ltl("a U b W c") == WeakUntil(Until(a, b), c)
""", needs="a text that mixes W and U without brackets", breaks="weak until binds tighter than until"),
 dict(id="equivalence-absorbed", property="C01", edits=[("syntax/base.py",
  "            if not isinstance(element, cls):\n                if ~element in seen_operands:",
  "            if not isinstance(element, cls):\n                if isinstance(element, _CommutativeBinaryOp) and seen_operands.issuperset(element.operands):\n                    # absorption law\n                    continue\n                if ~element in seen_operands:")],
  demo=PRE + """
from pylogics_modalities.semantics.pl import evaluate_pl
a, b = Atomic("a"), Atomic("b")
assert evaluate_pl(Or(a, b, Equivalence(a, b)), set()) is True
assert evaluate_pl(Or(Equivalence(a, b), a, b), set()) is True
""", needs="an equivalence after all of its operands in the same disjunction or conjunction", breaks="a | b | (a <-> b) becomes a | b"),
 dict(id="since-is-triggers", property="C06", edits=[("utils/to_string.py",
   '    return " S ".join(_map_operands_to_string(formula.operands))',
   '    first, *rest = _map_operands_to_string(formula.operands)\n    if len(rest) > 2:\n        rest = [" S ".join(rest)]\n    return " S ".join([first, *(f"({r})" for r in rest)])')],
  demo=PRE + """
from pylogics_modalities.parsers import parse_pltl
from pylogics_modalities.utils.to_string import to_string
from pylogics_modalities.syntax.pltl import *
a, b, c, d = map(Atomic, "abcd")
for f in (Since(a, b), Since(a, b, c), Since(a, b, c, d), Since(Since(a, b), c)):
    assert parse_pltl(to_string(f)) == f, to_string(f)
""", needs="a chain of at least four operands of since", breaks="a S b S c S d is printed as a S (b S c S d)"),
]
