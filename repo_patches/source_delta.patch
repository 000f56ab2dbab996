From 07245c246b7cb5a9c42c6fd8dd2c4b50d5275a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:49 +0000
Subject: [PATCH 01/20] fix: implication evaluates its antecedents only
 negatively

---
 pylogics_modalities/semantics/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pylogics_modalities/semantics/base.py b/pylogics_modalities/semantics/base.py
index d181d55..74782e7 100644
--- a/pylogics_modalities/semantics/base.py
+++ b/pylogics_modalities/semantics/base.py
@@ -74,7 +74,8 @@ def implies_semantics(
         for index, sub_formula in enumerate(formula.operands):
             if index < len(formula.operands) - 1:
                 yield not fn(sub_formula, *args, **kwargs)
-            yield fn(sub_formula, *args, **kwargs)
+            else:
+                yield fn(sub_formula, *args, **kwargs)
 
     return any(_visitor())
 
-- 
2.43.0


From be3f47275b0decd14ad19b4cb51e47f6d91d91f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:49 +0000
Subject: [PATCH 02/20] fix: a false consequent does not make an implication
 true

---
 pylogics_modalities/syntax/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylogics_modalities/syntax/base.py b/pylogics_modalities/syntax/base.py
index b2b92a9..d39313d 100644
--- a/pylogics_modalities/syntax/base.py
+++ b/pylogics_modalities/syntax/base.py
@@ -536,8 +536,8 @@ class _MetaImpliesOp(_MetaOp):
         logic = operands[0].logic
         false = make_boolean(False, logic=logic)
         new_operands = []
-        for operand in operands:
-            if operand == false:
+        for index, operand in enumerate(operands):
+            if index < len(operands) - 1 and operand == false:
                 # ex falso sequitur quodlibet
                 new_operands.append(~false)
                 return new_operands
-- 
2.43.0


From 7f451bd18b064cb2fb170ddf66f79c05be81176d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:49 +0000
Subject: [PATCH 03/20] fix: to_string supports the PLTL weak-before and
 triggers operators

---
 pylogics_modalities/utils/to_string.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pylogics_modalities/utils/to_string.py b/pylogics_modalities/utils/to_string.py
index 45e9397..2ba6617 100644
--- a/pylogics_modalities/utils/to_string.py
+++ b/pylogics_modalities/utils/to_string.py
@@ -46,7 +46,7 @@ from pylogics_modalities.syntax.ltl import Release, StrongRelease, Until, WeakNe
 from pylogics_modalities.syntax.pltl import Before, Historically, Once
 from pylogics_modalities.syntax.pltl import PropositionalFalse as PLTLPropositionalFalse
 from pylogics_modalities.syntax.pltl import PropositionalTrue as PLTLPropositionalTrue
-from pylogics_modalities.syntax.pltl import Since
+from pylogics_modalities.syntax.pltl import Since, Triggers, WeakBefore
 
 
 @functools.singledispatch
@@ -186,6 +186,18 @@ def to_string_pltl_before(formula: Before) -> str:
     return f"Y({to_string(formula.argument)})"
 
 
+@to_string.register(WeakBefore)
+def to_string_pltl_weak_before(formula: WeakBefore) -> str:
+    """Transform a 'weak before' formula into string."""
+    return f"Z({to_string(formula.argument)})"
+
+
+@to_string.register(Triggers)
+def to_string_pltl_triggers(formula: Triggers) -> str:
+    """Transform a 'triggers' formula into string."""
+    return " T ".join(_map_operands_to_string(formula.operands))
+
+
 @to_string.register(Since)
 def to_string_pltl_since(formula: Since) -> str:
     """Transform a 'since' formula into string."""
-- 
2.43.0


From 284e336e61beedb14cfc70e4cdaa2b1a14d2515b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:49 +0000
Subject: [PATCH 04/20] fix: to_string prints the LDL test as the grammar reads
 it (postfix)

---
 pylogics_modalities/utils/to_string.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylogics_modalities/utils/to_string.py b/pylogics_modalities/utils/to_string.py
index 2ba6617..f4ac7a0 100644
--- a/pylogics_modalities/utils/to_string.py
+++ b/pylogics_modalities/utils/to_string.py
@@ -249,7 +249,7 @@ def to_string_re_star(formula: Star) -> str:
 @to_string.register(Test)
 def to_string_re_test(formula: Test) -> str:
     """Transform a test regular expression into string."""
-    return f"?({to_string(formula.argument)})"
+    return f"({to_string(formula.argument)})?"
 
 
 @to_string.register(Prop)
-- 
2.43.0


From 01d6ccddaa87f5560c3f4f51ec85b4e43bdcb572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:49 +0000
Subject: [PATCH 05/20] fix: LDL parser accepts a negated bracketed
 propositional formula

---
 docs/grammars.md                    | 3 ++-
 pylogics_modalities/parsers/pl.lark | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/docs/grammars.md b/docs/grammars.md
index e87bd6c..cfcc35f 100644
--- a/docs/grammars.md
+++ b/docs/grammars.md
@@ -16,7 +16,8 @@ start: propositional_formula
 ?prop_implication: prop_or (IMPLY prop_or)*
 ?prop_or: prop_and (OR prop_and)*
 ?prop_and: prop_not (AND prop_not)*
-?prop_not: NOT* prop_wrapped
+?prop_not: NOT prop_not
+         | prop_wrapped
 ?prop_wrapped: prop_atom
             | LEFT_PARENTHESIS propositional_formula RIGHT_PARENTHESIS
 ?prop_atom: atom
diff --git a/pylogics_modalities/parsers/pl.lark b/pylogics_modalities/parsers/pl.lark
index 7c9e0f0..b7e6d73 100644
--- a/pylogics_modalities/parsers/pl.lark
+++ b/pylogics_modalities/parsers/pl.lark
@@ -5,7 +5,8 @@ start: propositional_formula
 ?prop_implication: prop_or (IMPLY prop_or)*
 ?prop_or: prop_and (OR prop_and)*
 ?prop_and: prop_not (AND prop_not)*
-?prop_not: NOT* prop_wrapped
+?prop_not: NOT prop_not
+         | prop_wrapped
 ?prop_wrapped: prop_atom
             | LEFT_PARENTHESIS propositional_formula RIGHT_PARENTHESIS
 ?prop_atom: atom
-- 
2.43.0


From ce135e0378aa250086b4117d40b619d301fd1fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:49 +0000
Subject: [PATCH 06/20] fix: a symbol that begins with a keyword is lexed as
 one symbol

---
 docs/grammars.md                      | 16 ++++++++--------
 pylogics_modalities/parsers/ltl.lark  |  8 ++++----
 pylogics_modalities/parsers/pl.lark   |  4 ++--
 pylogics_modalities/parsers/pltl.lark |  4 ++--
 4 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/docs/grammars.md b/docs/grammars.md
index cfcc35f..7773f74 100644
--- a/docs/grammars.md
+++ b/docs/grammars.md
@@ -35,8 +35,8 @@ IMPLY : ">>"|"->"
 OR: "||"|"|"
 AND: "&&"|"&"
 NOT: "!"|"~"
-TRUE.2: /true/
-FALSE.2: /false/
+TRUE.2: /true(?!-*[a-zA-Z0-9_])/
+FALSE.2: /false(?!-*[a-zA-Z0-9_])/
 
 // Symbols cannot start with uppercase letters, because these are reserved. Moreover, any word between quotes is a symbol.
 // More in detail:
@@ -118,11 +118,11 @@ WEAK_UNTIL.2: /W(?=[ "\(])/
 STRONG_RELEASE.2: /M(?=[ "\(])/
 
 
-END.2: /end/
-LAST.2: /last/
+END.2: /end(?!-*[a-zA-Z0-9_])/
+LAST.2: /last(?!-*[a-zA-Z0-9_])/
 
-TT.2: /tt/
-FF.2: /ff/
+TT.2: /tt(?!-*[a-zA-Z0-9_])/
+FF.2: /ff(?!-*[a-zA-Z0-9_])/
 
 %ignore /\s+/
 
@@ -190,8 +190,8 @@ HISTORICALLY.2: /H(?=[ "\(])/
 ONCE.2: /O(?=[ "\(])/
 BEFORE.2: /Y(?=[ "\(])/
 WEAKBEFORE.2: /Z(?=[ "\(])/
-FIRST.2: /first/
-START.2: /start/
+FIRST.2: /first(?!-*[a-zA-Z0-9_])/
+START.2: /start(?!-*[a-zA-Z0-9_])/
 
 %ignore /\s+/
 
diff --git a/pylogics_modalities/parsers/ltl.lark b/pylogics_modalities/parsers/ltl.lark
index c118bd1..68bb6dd 100644
--- a/pylogics_modalities/parsers/ltl.lark
+++ b/pylogics_modalities/parsers/ltl.lark
@@ -49,11 +49,11 @@ WEAK_UNTIL.2: /W(?=[ "\(])/
 STRONG_RELEASE.2: /M(?=[ "\(])/
 
 
-END.2: /end/
-LAST.2: /last/
+END.2: /end(?!-*[a-zA-Z0-9_])/
+LAST.2: /last(?!-*[a-zA-Z0-9_])/
 
-TT.2: /tt/
-FF.2: /ff/
+TT.2: /tt(?!-*[a-zA-Z0-9_])/
+FF.2: /ff(?!-*[a-zA-Z0-9_])/
 
 %ignore /\s+/
 
diff --git a/pylogics_modalities/parsers/pl.lark b/pylogics_modalities/parsers/pl.lark
index b7e6d73..8c6d771 100644
--- a/pylogics_modalities/parsers/pl.lark
+++ b/pylogics_modalities/parsers/pl.lark
@@ -24,8 +24,8 @@ IMPLY : ">>"|"->"
 OR: "||"|"|"
 AND: "&&"|"&"
 NOT: "!"|"~"
-TRUE.2: /true/
-FALSE.2: /false/
+TRUE.2: /true(?!-*[a-zA-Z0-9_])/
+FALSE.2: /false(?!-*[a-zA-Z0-9_])/
 
 // Symbols cannot start with uppercase letters, because these are reserved. Moreover, any word between quotes is a symbol.
 // More in detail:
diff --git a/pylogics_modalities/parsers/pltl.lark b/pylogics_modalities/parsers/pltl.lark
index c804c66..8da840f 100644
--- a/pylogics_modalities/parsers/pltl.lark
+++ b/pylogics_modalities/parsers/pltl.lark
@@ -43,8 +43,8 @@ HISTORICALLY.2: /H(?=[ "\(])/
 ONCE.2: /O(?=[ "\(])/
 BEFORE.2: /Y(?=[ "\(])/
 WEAKBEFORE.2: /Z(?=[ "\(])/
-FIRST.2: /first/
-START.2: /start/
+FIRST.2: /first(?!-*[a-zA-Z0-9_])/
+START.2: /start(?!-*[a-zA-Z0-9_])/
 
 %ignore /\s+/
 
-- 
2.43.0


From 9d0eb6d3d2c5eedc3c57ad42a4570c18c4351d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:49 +0000
Subject: [PATCH 07/20] fix: formulas can be pickled and copied

---
 pylogics_modalities/helpers/cache_hash.py | 4 +++-
 pylogics_modalities/syntax/base.py        | 4 ++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/pylogics_modalities/helpers/cache_hash.py b/pylogics_modalities/helpers/cache_hash.py
index 43eddb8..6d19bed 100644
--- a/pylogics_modalities/helpers/cache_hash.py
+++ b/pylogics_modalities/helpers/cache_hash.py
@@ -62,7 +62,9 @@ def _getstate(fn):
     @wraps(fn)
     def __getstate__(self):
         d = fn(self)
-        d.pop("__hash")
+        if d is not None:
+            d = dict(d)
+            d.pop("__hash", None)
         return d
 
     return __getstate__
diff --git a/pylogics_modalities/syntax/base.py b/pylogics_modalities/syntax/base.py
index d39313d..dae0205 100644
--- a/pylogics_modalities/syntax/base.py
+++ b/pylogics_modalities/syntax/base.py
@@ -498,6 +498,10 @@ class Not(_UnaryOp):
             return ~arg
         return super(Not, cls).__new__(cls)
 
+    def __getnewargs__(self):
+        """Get the arguments of '__new__' (needed to copy and to unpickle)."""
+        return (self.argument,)
+
     def __invert__(self):
         """Invert the negation."""
         return self.argument
-- 
2.43.0


From 4918a95aa8446964db05c0bb8f54df44bf598052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:36 +0000
Subject: [PATCH 08/20] fix: and-elimination applies to conjunctions only

---
 pylogics_modalities/deduction/fol/nd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylogics_modalities/deduction/fol/nd.py b/pylogics_modalities/deduction/fol/nd.py
index e509a13..03ec9d8 100644
--- a/pylogics_modalities/deduction/fol/nd.py
+++ b/pylogics_modalities/deduction/fol/nd.py
@@ -139,11 +139,11 @@ class NaturalDeduction(AbstractDeductionSystem):
 
     def _check_justification_and_e1(self, formula, *args):
         """Check if the deduction is valid according to and-elimination (1) rule."""
-        return str(formula) == str(args[0].operands[0])
+        return isinstance(args[0], And) and str(formula) == str(args[0].operands[0])
 
     def _check_justification_and_e2(self, formula, *args):
         """Check if the deduction is valid according to and-elimination (2) rule."""
-        return str(formula) == str(args[0].operands[1])
+        return isinstance(args[0], And) and str(formula) == str(args[0].operands[1])
 
     def _check_justification_and_i(self, formula, *args):
         """Check if the deduction is valid according to and-introduction rule."""
-- 
2.43.0


From d492999fcd2f191a8cfc8bc102a66b0742c51ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:36 +0000
Subject: [PATCH 09/20] fix: or-introduction introduces disjunctions only

---
 pylogics_modalities/deduction/fol/nd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylogics_modalities/deduction/fol/nd.py b/pylogics_modalities/deduction/fol/nd.py
index 03ec9d8..f3477ee 100644
--- a/pylogics_modalities/deduction/fol/nd.py
+++ b/pylogics_modalities/deduction/fol/nd.py
@@ -202,11 +202,11 @@ class NaturalDeduction(AbstractDeductionSystem):
 
     def _check_justification_or_i1(self, formula, *args):
         """Check if the deduction is valid according to or-introduction 1 rule"""
-        return str(formula.operands[0]) == str(args[0])
+        return isinstance(formula, Or) and str(formula.operands[0]) == str(args[0])
 
     def _check_justification_or_i2(self, formula, *args):
         """Check if the deduction is valid according to or-introduction 2 rule"""
-        return str(formula.operands[1]) == str(args[0])
+        return isinstance(formula, Or) and str(formula.operands[1]) == str(args[0])
 
     def _check_justification_premise(self, formula, *args):
         """Check if the deduction is valid according to premise rule"""
-- 
2.43.0


From bd303fd64824601b829d34020c8071554b4d9873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:36 +0000
Subject: [PATCH 10/20] fix: modus tollens with negated subformulas

---
 pylogics_modalities/deduction/fol/nd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylogics_modalities/deduction/fol/nd.py b/pylogics_modalities/deduction/fol/nd.py
index f3477ee..c5f54d4 100644
--- a/pylogics_modalities/deduction/fol/nd.py
+++ b/pylogics_modalities/deduction/fol/nd.py
@@ -181,7 +181,7 @@ class NaturalDeduction(AbstractDeductionSystem):
 
     def _check_justification_MT(self, formula, *args):
         """Check if the deduction is valid according to modus tollens rule"""
-        return str(formula.argument >> args[1].argument) == str(args[0])
+        return str(~formula >> ~args[1]) == str(args[0])
 
     def _check_justification_neg_e(self, formula, *args):
         """Check if the deduction is valid according to negation-elimination rule"""
-- 
2.43.0


From fc038389b72d749e2397d12eebe91afe233e3928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:36 +0000
Subject: [PATCH 11/20] fix: only the first formula of a box can be an
 assumption

---
 pylogics_modalities/deduction/fol/nd.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pylogics_modalities/deduction/fol/nd.py b/pylogics_modalities/deduction/fol/nd.py
index c5f54d4..14835c2 100644
--- a/pylogics_modalities/deduction/fol/nd.py
+++ b/pylogics_modalities/deduction/fol/nd.py
@@ -115,11 +115,17 @@ class NaturalDeduction(AbstractDeductionSystem):
         #     f"proof '{proof}' cannot be processed by {self.check.__name__}"  # type: ignore
         # )
 
+        in_box = sound is not None
         sound = sound if sound else {}
 
-        for row, content, justiﬁcation in proof:
+        for index, (row, content, justiﬁcation) in enumerate(proof):
             if isinstance(content, Formula):
                 rule = justiﬁcation[0]
+                if in_box and rule == self.rule.premise:
+                    return False  # a box cannot introduce premises
+                if in_box and rule == self.rule.assumption and \
+                        not all(isinstance(previous, Term) for _, previous, _ in proof[:index]):
+                    return False  # only the first formula of a box is discharged
                 args = [sound[i] for i in justiﬁcation[1:] if i in sound]
                 if rule not in self.check_justification:
                     return False
-- 
2.43.0


From 57ff82d54b799f011af768b499b1e47cb87d5d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:36 +0000
Subject: [PATCH 12/20] fix: term replacement goes through quantifiers and
 equivalences

---
 pylogics_modalities/deduction/fol/nd.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pylogics_modalities/deduction/fol/nd.py b/pylogics_modalities/deduction/fol/nd.py
index 14835c2..d3d3006 100644
--- a/pylogics_modalities/deduction/fol/nd.py
+++ b/pylogics_modalities/deduction/fol/nd.py
@@ -25,7 +25,7 @@
 
 from enum import Enum
 
-from pylogics_modalities.syntax.base import Logic, Formula, FalseFormula, And, Or, Not, Implies
+from pylogics_modalities.syntax.base import Logic, Formula, FalseFormula, And, Or, Not, Implies, Equivalence
 from pylogics_modalities.exceptions import PylogicsError
 
 from pylogics_modalities.syntax.fol import Term, Variable, Constant, Function
@@ -247,12 +247,12 @@ class NaturalDeduction(AbstractDeductionSystem):
             return a
         if isinstance(formula, Not):
             return type(formula)(self._replace(formula.argument, x, a))
-        if isinstance(formula, (Or, And, Implies)):
+        if isinstance(formula, (Or, And, Implies, Equivalence)):
             return type(formula)(*[self._replace(o, x, a) for o in formula.operands])
         if isinstance(formula, (ForAll, Exists)):
             if formula.variable == x:
                 return formula
-            return type(formula)(formula.variable, [self._replace(o, x, a) for o in formula.operands])
+            return type(formula)(formula.variable, self._replace(formula.formula, x, a))
         if isinstance(formula, (Predicate, Function)):
             return type(formula)(formula.name, [self._replace(o, x, a) for o in formula.operands])
         return formula
-- 
2.43.0


From cc2148209b3a731ee7830199f565ac6ab19a718a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:36 +0000
Subject: [PATCH 13/20] fix: natural deduction identifies terms by name, not by
 object

---
 pylogics_modalities/deduction/fol/nd.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pylogics_modalities/deduction/fol/nd.py b/pylogics_modalities/deduction/fol/nd.py
index d3d3006..6ce44c6 100644
--- a/pylogics_modalities/deduction/fol/nd.py
+++ b/pylogics_modalities/deduction/fol/nd.py
@@ -220,7 +220,7 @@ class NaturalDeduction(AbstractDeductionSystem):
 
     def _find_term(self, t: Term, *args):
         for x in args:
-            if t == x:
+            if isinstance(x, Term) and str(t) == str(x):
                 return True
             if 'argument' in dir(x) and self._find_term(t, x.argument):
                 return True
@@ -230,7 +230,7 @@ class NaturalDeduction(AbstractDeductionSystem):
 
     def _find_diff(self, x: Formula, y: Formula):
         diffset = set()
-        if type(x) != type(y):
+        if type(x) != type(y) or (isinstance(x, Variable) and str(x) != str(y)):
             diffset = diffset | {(x, y)}
         elif 'argument' in dir(x):
             diffset = diffset | self._find_diff(x.argument, y.argument)
@@ -243,14 +243,14 @@ class NaturalDeduction(AbstractDeductionSystem):
         return diffset
 
     def _replace(self, formula: Formula, x: Variable, a: Term):
-        if formula is x:
+        if isinstance(formula, Variable) and str(formula) == str(x):
             return a
         if isinstance(formula, Not):
             return type(formula)(self._replace(formula.argument, x, a))
         if isinstance(formula, (Or, And, Implies, Equivalence)):
             return type(formula)(*[self._replace(o, x, a) for o in formula.operands])
         if isinstance(formula, (ForAll, Exists)):
-            if formula.variable == x:
+            if str(formula.variable) == str(x):
                 return formula
             return type(formula)(formula.variable, self._replace(formula.formula, x, a))
         if isinstance(formula, (Predicate, Function)):
@@ -272,10 +272,10 @@ class NaturalDeduction(AbstractDeductionSystem):
         if not isinstance(args[0], ForAll):
             return False
         x, phi = args[0].variable, args[0].formula
-        a = [n for m, n in self._find_diff(phi, formula) if m == x]
-        if len(a) != 1:
+        a = list({str(n): n for m, n in self._find_diff(phi, formula) if str(m) == str(x)}.values())
+        if len(a) > 1:
             return False
-        a = a[0]
+        a = a[0] if a else x
         phi_x_a = self._replace(phi, x, a)
         return str(phi_x_a) == str(formula)
 
@@ -284,7 +284,7 @@ class NaturalDeduction(AbstractDeductionSystem):
         if not isinstance(formula, Exists):
             return False
         x, phi = formula.variable, formula.formula
-        a = [n for m, n in self._find_diff(phi, args[0]) if m == x]
+        a = list({str(n): n for m, n in self._find_diff(phi, args[0]) if str(m) == str(x)}.values())
         if len(a) > 1:
             return False
         a = a[0] if a else x
-- 
2.43.0


From 332f18c3989f587ac7bc96fabd686eb42d164546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:36 +0000
Subject: [PATCH 14/20] fix: the fresh term of a quantifier rule must be
 arbitrary

---
 pylogics_modalities/deduction/fol/nd.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pylogics_modalities/deduction/fol/nd.py b/pylogics_modalities/deduction/fol/nd.py
index 6ce44c6..86b2a5a 100644
--- a/pylogics_modalities/deduction/fol/nd.py
+++ b/pylogics_modalities/deduction/fol/nd.py
@@ -132,6 +132,8 @@ class NaturalDeduction(AbstractDeductionSystem):
                 if self.check_justification[rule](content, *args) == False:
                     return False
             elif isinstance(content, list):
+                if isinstance(content[0][1], Function):
+                    return False  # Only variables and constants are arbitrary
                 if isinstance(content[0][1], Term) and self._find_term(content[0][1], *sound.values()):
                     return False  # Term occurs outside its assumption
                 if self.check_proof(content, {i: sound[i] for i in sound}) == False:
@@ -262,9 +264,11 @@ class NaturalDeduction(AbstractDeductionSystem):
         if not isinstance(formula, ForAll):
             return False
         a, phi_x_a = args[0][0][1], args[0][-1][1]
-        if not isinstance(a, Term):
-            return False
         x, phi = formula.variable, formula.formula
+        if not isinstance(a, Term) or (str(a) != str(x) and self._find_term(a, formula)):
+            return False
+        if any(isinstance(o, Formula) and j[0] == self.rule.assumption for _, o, j in args[0]):
+            return False  # The term is not arbitrary
         return str(self._replace(phi, x, a)) == str(phi_x_a)
 
     def _check_justification_forall_e(self, formula, *args):
@@ -297,6 +301,8 @@ class NaturalDeduction(AbstractDeductionSystem):
         if not isinstance(phi, Exists):
             return False
         a, phi_x_a = args[1][0][1], args[1][1][1]
+        if not isinstance(a, Term) or self._find_term(a, phi):
+            return False
         if not str(phi_x_a) == str(self._replace(phi.formula, phi.variable, a)):
             return False
         chi = args[1][-1][1]
-- 
2.43.0


From 9e019a718dd6c7cd6ee3f10d0a259e0e6750acbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:36 +0000
Subject: [PATCH 15/20] fix: quantifier rules reject a replacement that
 captures a variable

---
 pylogics_modalities/deduction/fol/nd.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/pylogics_modalities/deduction/fol/nd.py b/pylogics_modalities/deduction/fol/nd.py
index 86b2a5a..1832455 100644
--- a/pylogics_modalities/deduction/fol/nd.py
+++ b/pylogics_modalities/deduction/fol/nd.py
@@ -259,6 +259,18 @@ class NaturalDeduction(AbstractDeductionSystem):
             return type(formula)(formula.name, [self._replace(o, x, a) for o in formula.operands])
         return formula
 
+    def _is_captured(self, formula: Formula, x: Variable, a: Term):
+        """Check if replacing x with a would bind a variable of a."""
+        if isinstance(formula, Not):
+            return self._is_captured(formula.argument, x, a)
+        if isinstance(formula, (Or, And, Implies, Equivalence)):
+            return any(self._is_captured(o, x, a) for o in formula.operands)
+        if isinstance(formula, (ForAll, Exists)) and str(formula.variable) != str(x):
+            if self._find_term(formula.variable, a):
+                return self._find_term(x, formula.formula)
+            return self._is_captured(formula.formula, x, a)
+        return False
+
     def _check_justification_forall_i(self, formula, *args):
         """Check if the deduction is valid according to forall-introduction rule"""
         if not isinstance(formula, ForAll):
@@ -280,6 +292,8 @@ class NaturalDeduction(AbstractDeductionSystem):
         if len(a) > 1:
             return False
         a = a[0] if a else x
+        if self._is_captured(phi, x, a):
+            return False
         phi_x_a = self._replace(phi, x, a)
         return str(phi_x_a) == str(formula)
 
@@ -292,6 +306,8 @@ class NaturalDeduction(AbstractDeductionSystem):
         if len(a) > 1:
             return False
         a = a[0] if a else x
+        if self._is_captured(phi, x, a):
+            return False
         phi_x_a = self._replace(phi, x, a)
         return str(phi_x_a) == str(args[0])
 
-- 
2.43.0


From d4fd19b704b5b3d4b43f4ce45b9c3ab4500023f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:36 +0000
Subject: [PATCH 16/20] fix: the boolean connectives reject operands of a
 forbidden logic

---
 pylogics_modalities/syntax/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylogics_modalities/syntax/base.py b/pylogics_modalities/syntax/base.py
index dae0205..3f61939 100644
--- a/pylogics_modalities/syntax/base.py
+++ b/pylogics_modalities/syntax/base.py
@@ -132,7 +132,7 @@ class _MetaOp(_HashConsing):
 
         is_logic_allowed = allowed is not None and logic in allowed
         is_logic_forbidden = forbidden is not None and logic in forbidden
-        if is_logic_allowed and not is_logic_forbidden:
+        if is_logic_forbidden or (allowed is not None and not is_logic_allowed):
             raise ValueError(
                 f"error during instantiation of class {cls.__name__}: "
                 f"found operand belonging to logic {logic}, which is forbidden"
-- 
2.43.0


From d096e771b5c93224a86c4fde051f542ac678a0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:15 +0000
Subject: [PATCH 17/20] fix: the capture check looks at free occurrences only

---
 pylogics_modalities/deduction/fol/nd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylogics_modalities/deduction/fol/nd.py b/pylogics_modalities/deduction/fol/nd.py
index 1832455..02d9bc6 100644
--- a/pylogics_modalities/deduction/fol/nd.py
+++ b/pylogics_modalities/deduction/fol/nd.py
@@ -267,7 +267,7 @@ class NaturalDeduction(AbstractDeductionSystem):
             return any(self._is_captured(o, x, a) for o in formula.operands)
         if isinstance(formula, (ForAll, Exists)) and str(formula.variable) != str(x):
             if self._find_term(formula.variable, a):
-                return self._find_term(x, formula.formula)
+                return str(self._replace(formula.formula, x, a)) != str(formula.formula)
             return self._is_captured(formula.formula, x, a)
         return False
 
-- 
2.43.0


From 7c09b3e8262ae33d5198aceccd768d78806a70a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:31 +0000
Subject: [PATCH 18/20] fix: boolean connectives reject operands that are not
 formulas

---
 pylogics_modalities/syntax/base.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pylogics_modalities/syntax/base.py b/pylogics_modalities/syntax/base.py
index 3f61939..63d11be 100644
--- a/pylogics_modalities/syntax/base.py
+++ b/pylogics_modalities/syntax/base.py
@@ -121,6 +121,14 @@ class _MetaOp(_HashConsing):
         cls._check_not_forbidden_formalism(*operands)
         return super(_MetaOp, cls).__call__(*operands, **kwargs)
 
+    def _check_operands_are_formulas(cls, *operands):
+        """Check operands are formulas."""
+        enforce(
+            all(isinstance(operand, Formula) for operand in operands),
+            "some argument is not an instance of 'Formula'",
+            exception_cls=ValueError,
+        )
+
     def _check_not_forbidden_formalism(cls, *operands):
         """Check operands belong to same formalism."""
         enforce(len(operands) >= 1, "expected at least one operand.")
@@ -374,6 +382,7 @@ class _MonotoneBinaryOp(_MetaOp):
         """Init the subclass object."""
         if len(args) == 0:
             raise ValueError("cannot accept zero arguments")
+        cls._check_operands_are_formulas(*args)
         cls._check_operands_same_logic()
         operands = cls._simplify_monotone_op_operands(cls, *args)
         if len(operands) == 1:
@@ -521,6 +530,7 @@ class _MetaImpliesOp(_MetaOp):
 
     def __call__(cls, *args, **kwargs):
         """Init the subclass object."""
+        cls._check_operands_are_formulas(*args)
         operands = cls._simplify_operands(*args)
         if len(operands) == 0:
             raise ValueError("cannot accept zero arguments")
@@ -569,6 +579,7 @@ class _MetaEquivalenceOp(_MetaOp):
 
     def __call__(cls, *args, **kwargs):
         """Init the subclass object."""
+        cls._check_operands_are_formulas(*args)
         operands = cls._simplify_operands(*args)
         enforce(len(args) > 0, "cannot accept zero arguments", ValueError)
         if len(operands) == 1:
-- 
2.43.0


From ad40c77045597383a0745fb683e5ed4b35c0ef8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:06 +0000
Subject: [PATCH 19/20] fix: a row in scope is not replaced by a later line

Re-using a row number overwrote the first line in the map of lines in scope, so
the freshness check of a boxed term no longer saw it and an unsound
generalisation was accepted.
---
 pylogics_modalities/deduction/fol/nd.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pylogics_modalities/deduction/fol/nd.py b/pylogics_modalities/deduction/fol/nd.py
index 02d9bc6..3731b60 100644
--- a/pylogics_modalities/deduction/fol/nd.py
+++ b/pylogics_modalities/deduction/fol/nd.py
@@ -142,6 +142,8 @@ class NaturalDeduction(AbstractDeductionSystem):
                 continue
             else:
                 return False
+            if row in sound:
+                return False  # a row in scope is not replaced
             sound[row] = content
         return True
 
-- 
2.43.0


From 429d483a88fbd3df98930e2aeef08d65dcdaf16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:23 +0000
Subject: [PATCH 20/20] fix: the falsity rules accept the falsity of
 first-order logic

bot_e, neg_e and neg_i compared with FalseFormula(), which is the falsity of PL
only, so correct first-order applications were rejected.
---
 pylogics_modalities/deduction/fol/nd.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pylogics_modalities/deduction/fol/nd.py b/pylogics_modalities/deduction/fol/nd.py
index 3731b60..886b991 100644
--- a/pylogics_modalities/deduction/fol/nd.py
+++ b/pylogics_modalities/deduction/fol/nd.py
@@ -165,7 +165,7 @@ class NaturalDeduction(AbstractDeductionSystem):
 
     def _check_justification_bot_e(self, formula, *args):
         """Check if the deduction is valid according to absurd-elimination rule"""
-        return args[0] == FalseFormula()
+        return isinstance(args[0], FalseFormula)
 
     def _check_justification_copy(self, formula, *args):
         """Check if the deduction is valid according to copy rule"""
@@ -195,13 +195,13 @@ class NaturalDeduction(AbstractDeductionSystem):
 
     def _check_justification_neg_e(self, formula, *args):
         """Check if the deduction is valid according to negation-elimination rule"""
-        return str(~args[0]) == str(args[1]) and formula == FalseFormula()
+        return str(~args[0]) == str(args[1]) and isinstance(formula, FalseFormula)
 
     def _check_justification_neg_i(self, formula, *args):
         """Check if the deduction is valid according to negation-introduction rule"""
         phi = args[0][0][1]
         psi = args[0][-1][1]
-        return (psi == FalseFormula()) and (str(formula) == str(~phi))
+        return isinstance(psi, FalseFormula) and (str(formula) == str(~phi))
 
     def _check_justification_or_e(self, formula, *args):
         """Check if the deduction is valid according to or-elimination rule"""
-- 
2.43.0

