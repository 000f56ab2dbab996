"""Level and technique per property (read by mkmanifest.py)."""
T = "contracts on the real functions, discharged by symbolic execution + z3 (vf/eng); falsifier on the real code"
LEVEL = {"C01": "proof", "C02": "proof", "C03": "proof", "C04": "proof", "C05": "proof", "C06": "proof", "C07": "proof", "C08": "proof", "C09": "proof", "C10": "proof", "C11": "proof", "C12": "proof", "C13": "proof", "C14": "proof", "C15": "proof", "C16": "proof"}
NOTE = {
    "C01": (T, "value and logic of every boolean constructor, for operand lists of any length; see evidence for assumptions"),
    "C02": (T, "every obligation of the evaluation contracts is discharged for all formulas and interpretations; see evidence for assumptions"),
    "C03": (T, "normal form and order of first occurrence for operand lists of any length, with inferred loop invariants"),
    "C04": (T, "equality, hash and stored hash of every class in scope"),
    "C05": (T, "every constructor call against a symbolic cache satisfying the invariant; reset_cache; callers by C01 contracts"),
    "C06": (T, "printing of every class, then the real LALR tables and lexers on the printed text with holes, then the real callbacks; induction on formulas, chains of any length"),
    "C07": (T, "as C06, for LDL formulas and regular expressions"),
    "C08": (T, "bisimulation of the real LALR tables with those of the documented grammar, exact comparison of every lexer with the documented tokens, value of every phrase"),
    "C09": (T, "AtomName and the atom classes on an arbitrary string with the exact language of their pattern; every lexer that expects a name"),
    "C10": (T, "every rule handler on arbitrary lines, check_proof by one arbitrary iteration over an arbitrary proof and scope, the builder; any assignment"),
    "C11": (T, "as C10 over first-order formulas, with the contracts of substitution, capture, occurrence and difference by induction on formulas"),
    "C12": (T, "every schema of the 21 rules with arbitrary metavariables, check_proof and the builder by one arbitrary iteration, the helpers on texts"),
    "C14": (T, "state and restoration of every class, hashed or not, against the copy protocol of CPython (trusted)"),
    "C16": (T, "symbols of any arity applied to any number of arbitrary objects; printing"),
    "C15": (T, "frame condition on every function of the contracts of C01-C04, C16 and printing; proof checking by the bounded falsifier and the contract of check_proof"),
    "C13": (T, "rejection and accessors for every constructor, operand lists of any length"),
}
