"""Exact decision procedures for Python regular expressions: language equality and first-match equality.

A pattern is parsed by CPython's own parser (re._parser) and compiled to a small program of prioritised threads
(the leftmost-first semantics of backtracking).  Characters are the classes of a partition of all code points by
the character sets that occur.  Look-aheads are decided by guessing their truth at a position and checking the guess
against the characters that follow.  All procedures explore a finite product automaton completely: there is no
bound on the length of the text."""
import re
import sys

from .core import Unsupported

try:
    import re._parser as sp
    import re._constants as sc
except ImportError:  # pragma: no cover
    import sre_parse as sp
    import sre_constants as sc

TOP = 0x10FFFF
_cat = {}


def runs(pred):
    out, start = [], None
    for c in range(TOP + 1):
        if pred(chr(c)):
            if start is None:
                start = c
        elif start is not None:
            out.append((start, c - 1))
            start = None
    if start is not None:
        out.append((start, TOP))
    return out


def category(name, ascii_):
    k = (name, ascii_)
    if k not in _cat:
        neg = "NOT_" in str(name)
        kind = str(name).rsplit("_", 1)[1]
        f = {"SPACE": str.isspace, "DIGIT": str.isdecimal, "WORD": lambda c: c.isalnum() or c == "_"}.get(kind)
        if f is None:
            raise Unsupported(f"category {name}")
        r = runs((lambda c: ord(c) < 128 and f(c)) if ascii_ else f)
        _cat[k] = complement(r) if neg else r
    return _cat[k]


def norm(iv):
    out = []
    for a, b in sorted(iv):
        if out and a <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(b, out[-1][1]))
        else:
            out.append((a, b))
    return out


def complement(iv):
    out, p = [], 0
    for a, b in norm(iv):
        if a > p:
            out.append((p, a - 1))
        p = b + 1
    if p <= TOP:
        out.append((p, TOP))
    return out


def charset(op, av, flags):
    """Intervals of a one-character item."""
    asc = bool(flags & re.ASCII)
    if op is sc.LITERAL:
        return [(av, av)]
    if op is sc.NOT_LITERAL:
        return complement([(av, av)])
    if op is sc.ANY:
        return [(0, TOP)] if flags & re.DOTALL else complement([(10, 10)])
    if op is sc.CATEGORY:
        return category(av, asc)
    if op is sc.RANGE:
        return [av]
    if op is sc.IN:
        neg = av and av[0][0] is sc.NEGATE
        iv = []
        for o, a in av[1 if neg else 0:]:
            iv += charset(o, a, flags)
        return complement(iv) if neg else norm(iv)
    raise Unsupported(f"regular expression item {op}")


class Prog:
    """Instructions: ("c", intervals) | ("s", [targets in priority order]) | ("a", key, sign) | ("m", token)."""

    def __init__(self):
        self.code = []
        self.asserts = {}   # key -> Prog of the asserted pattern

    def emit(self, *i):
        self.code.append(i)
        return len(self.code) - 1


def parse(pattern, flags=0):
    p = re.compile(pattern, flags)
    f = p.flags
    if f & (re.IGNORECASE | re.MULTILINE | re.LOCALE | re.VERBOSE):
        raise Unsupported("regular expression flags")
    if not isinstance(pattern, str):
        raise Unsupported("bytes pattern")
    return sp.parse(pattern, flags), f


def compile_items(P, items, flags, nxt):
    """Emit code for items that continues at nxt; returns the entry point.  Built backwards."""
    for op, av in reversed(list(items)):
        nxt = compile_item(P, op, av, flags, nxt)
    return nxt


def compile_item(P, op, av, flags, nxt):
    if op in (sc.LITERAL, sc.NOT_LITERAL, sc.ANY, sc.IN):
        return P.emit("c", tuple(charset(op, av, flags)), nxt)
    if op is sc.BRANCH:
        return P.emit("s", [compile_items(P, b, flags, nxt) for b in av[1]])
    if op is sc.SUBPATTERN:
        if av[1] or av[2]:
            raise Unsupported("inline flags")
        return compile_items(P, av[3], flags, nxt)
    if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
        lo, hi, body = av
        greedy = op is sc.MAX_REPEAT
        if lo > 200 or (hi is not sc.MAXREPEAT and hi > 200):
            raise Unsupported("large repetition")
        if body.getwidth()[0] == 0:
            raise Unsupported("repetition of a possibly empty pattern")
        if hi is sc.MAXREPEAT:
            loop = P.emit("s", None)
            b = compile_items(P, body, flags, loop)
            P.code[loop] = ("s", [b, nxt] if greedy else [nxt, b])
            e = loop
        else:
            e = nxt
            for _ in range(hi - lo):
                b = compile_items(P, body, flags, e)
                e = P.emit("s", [b, nxt] if greedy else [nxt, b])
        for _ in range(lo):
            e = compile_items(P, body, flags, e)
        return e
    if op in (sc.ASSERT, sc.ASSERT_NOT):
        d, body = av
        if d != 1:
            raise Unsupported("look-behind")
        k = repr(list(body))
        if k not in P.asserts:
            Q = Prog()
            Q.start = compile_items(Q, body, flags, Q.emit("m", 0))
            if Q.asserts:
                raise Unsupported("nested look-ahead")
            P.asserts[k] = Q
        return P.emit("a", k, op is sc.ASSERT, nxt)
    raise Unsupported(f"regular expression operator {op}")


def program(alts, flags=0):
    """alts: [(token, pattern)] tried in order; the program of their alternation."""
    P = Prog()
    starts = []
    for tok, pat in alts:
        tree, f = parse(pat, flags)
        starts.append(compile_items(P, tree, f, P.emit("m", tok)))
    P.start = P.emit("s", starts)
    return P


def scanner_program(pattern, flags, names):
    """Program of a compiled alternation (?P<A>..)|(?P<B>..); names: group index -> token name."""
    tree, f = parse(pattern, flags)
    if f & ~(re.UNICODE):
        raise Unsupported("scanner flags")
    items = list(tree)
    P = Prog()
    if len(items) == 1 and items[0][0] is sc.BRANCH:
        alts = [list(b) for b in items[0][1][1]]
    else:
        alts = [items]
    # the parser factors a common prefix of the alternatives out only when they are equal items
    starts = []
    for a in alts:
        if len(a) != 1 or a[0][0] is not sc.SUBPATTERN or a[0][1][0] not in names:
            raise Unsupported("scanner pattern is not an alternation of named groups")
        g, _, _, body = a[0][1]
        if any_groups(body):
            raise Unsupported("groups inside a terminal")
        starts.append(compile_items(P, body, f, P.emit("m", names[g])))
    P.start = P.emit("s", starts)
    return P


def any_groups(items):
    for op, av in items:
        if op is sc.SUBPATTERN and (av[0] is not None or any_groups(av[3])):
            return True
        if op is sc.BRANCH and any(any_groups(b) for b in av[1]):
            return True
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT) and any_groups(av[2]):
            return True
        if op in (sc.ASSERT, sc.ASSERT_NOT) and any_groups(av[1]):
            return True
    return False


class Alphabet:
    """Partition of the code points by the character sets of some programs."""

    def __init__(self, progs):
        sets = set()

        def collect(P):
            for i in P.code:
                if i[0] == "c":
                    sets.add(i[1])
            for Q in P.asserts.values():
                collect(Q)
        for P in progs:
            collect(P)
        cuts = {0, TOP + 1}
        for s in sets:
            for a, b in s:
                cuts.add(a)
                cuts.add(b + 1)
        cuts = sorted(cuts)
        sigs = {}
        self.rep = []
        import bisect
        order = sorted(sets)
        member = {s: set() for s in order}
        starts = {s: [a for a, _ in s] for s in order}
        for lo in cuts[:-1]:
            sig = []
            for s in order:
                k = bisect.bisect_right(starts[s], lo) - 1
                sig.append(k >= 0 and s[k][1] >= lo)
            sig = tuple(sig)
            if sig not in sigs:
                sigs[sig] = len(self.rep)
                self.rep.append(chr(lo))
                for s, b in zip(order, sig):
                    if b:
                        member[s].add(sigs[sig])
            elif not (self.rep[sigs[sig]].isprintable() and self.rep[sigs[sig]].isascii()) and chr(lo).isprintable() and chr(lo).isascii():
                self.rep[sigs[sig]] = chr(lo)
        self.member = member
        self.classes = range(len(self.rep))

    def has(self, s, c):
        return c in self.member[s]

    def text(self, cs):
        return "".join(self.rep[c] for c in cs)


def closure(P, entries, guess, cut):
    """Ordered closure.  guess: assertion key -> bool; raises KeyError with the first unknown key.
    Returns (tuple of character instructions in priority order, list of tokens matched here).  With cut, what comes
    after the first match has lower priority and is dropped."""
    out, seen, marks = [], set(), []
    stack = list(reversed(entries))
    while stack:
        pc = stack.pop()
        if pc in seen:
            continue
        seen.add(pc)
        i = P.code[pc]
        if i[0] == "c":
            out.append(pc)
        elif i[0] == "s":
            stack.extend(reversed(i[1]))
        elif i[0] == "a":
            if i[1] not in guess:
                raise NeedGuess(i[1])
            if guess[i[1]] == i[2]:
                stack.append(i[3])
        else:
            marks.append(i[1])
            if cut:
                break
    return tuple(out), marks


class NeedGuess(Exception):
    pass


class Side:
    """A scanner as an automaton: prioritised threads (cut) or longest match with ties broken by `rank`."""

    def __init__(self, P, cut=True, rank=None):
        self.P, self.cut, self.rank = P, cut, rank

    def enter(self, entries, guess):
        th, marks = closure(self.P, entries, guess, self.cut)
        if not self.cut:
            th = tuple(sorted(set(th)))
            mark = min(marks, key=self.rank) if marks else None
        else:
            mark = marks[0] if marks else None
        return th, mark

    def advance(self, A, th, c):
        return [self.P.code[pc][2] for pc in th if A.has(self.P.code[pc][1], c)]


def guesses(sides, entries, asserts):
    """All (states, guess) of entering the sides, with every assertion that matters guessed."""
    out = []
    todo = [{}]
    while todo:
        g = todo.pop()
        try:
            out.append(([s.enter(e, g) for s, e in zip(sides, entries)], g))
        except NeedGuess as e:
            k = e.args[0]
            todo.append({**g, k: True})
            todo.append({**g, k: False})
    return out


def claim_start(asserts, g):
    """Claims (assertion, thread set, sign) made by a guess; None when it is decided wrongly at once."""
    out = set()
    for k, v in g.items():
        Q = asserts[k]
        th, marks = closure(Q, [Q.start], {}, False)
        if marks:
            if not v:
                return None
            continue
        out.add((k, frozenset(th), v))
    return out


def claim_step(A, asserts, claims, c):
    out = set()
    for k, th, v in claims:
        Q = asserts[k]
        e = [Q.code[pc][2] for pc in th if A.has(Q.code[pc][1], c)]
        if not e:
            if v:
                return None
            continue
        t2, marks = closure(Q, e, {}, False)
        if marks:
            if not v:
                return None
            continue
        out.add((k, frozenset(t2), v))
    return out


def same_scanner(P, spec, rank, limit=400000, after=None):
    """Do the prioritised program P and the longest-match program spec (ties by rank) match the same token with the
    same length on every text?  Marks of rank None in spec count as no match.  Returns (True, None) or (False, text)."""
    return compare([Side(P), Side(spec, False, lambda t: rank[t])], lambda m, i: m if i == 0 else (None if rank[m] < 0 else m), limit)


def compare(sides, view, limit=400000, care=None):
    """Do both sides match the same token (under view) with the same length on every text (that care(last marks) selects)?"""
    A = Alphabet([s.P for s in sides])
    asserts = {}
    for s in sides:
        asserts.update(s.P.asserts)
    start = [[s.P.start] for s in sides]
    seen, todo = set(), []

    def push(states, claims, last, eq, word):
        k = (tuple(t for t, _ in states), frozenset(claims), tuple(last), eq)
        if k not in seen:
            seen.add(k)
            todo.append((k, word))

    def mark(states, last, eq, first):
        new = [m for _, m in states]
        if first:
            # scanners never match the empty string (the minimal width of a terminal is positive)
            if any(m is not None for m in new):
                raise Unsupported("a terminal that matches the empty string")
            return last, eq
        last = tuple(n if n is not None else l for n, l in zip(new, last))
        hit = [n is not None for n in new]
        if all(hit):
            eq = True
        elif any(hit):
            eq = False
        return last, eq

    def final(k, word):
        ths, claims, last, eq = k
        if any(v for _, _, v in claims):
            return None   # a positive claim is not fulfilled by the end of the text
        a, b = (view(m, i) if m is not None else None for i, m in enumerate(last))
        if (a != b or (a is not None and not eq)) and (care is None or care(last)):
            return A.text(word), a, b
        return None
    for states, g in guesses(sides, start, asserts):
        cl = claim_start(asserts, g)
        if cl is None:
            continue
        last, eq = mark(states, (None, None), True, True)
        push(states, cl, last, eq, ())
    while todo:
        k, word = todo.pop()
        bad = final(k, word)
        if bad:
            return False, bad
        ths, claims, last, eq = k
        if not any(ths):
            # both scanners have finished; the claims may still be open: the outcome is decided by `last`
            a, b = (view(m, i) if m is not None else None for i, m in enumerate(last))
            if a == b and (a is None or eq):
                continue
        for c in A.classes:
            cl = claim_step(A, asserts, claims, c)
            if cl is None:
                continue
            ent = [s.advance(A, t, c) for s, t in zip(sides, ths)]
            for states, g in guesses(sides, ent, asserts):
                c2 = claim_start(asserts, g)
                if c2 is None:
                    continue
                l2, e2 = mark(states, last, eq, False)
                push(states, cl | c2, l2, e2, word + (c,))
        if len(seen) > limit:
            raise Unsupported("the product automaton is too large")
    return True, len(seen)


def same_language(P, Q, subset=False):
    """Do two programs without look-aheads accept the same strings (in full)?  (ok, witness)."""
    if P.asserts or Q.asserts:
        raise Unsupported("look-ahead in a language comparison")
    A = Alphabet([P, Q])
    S = [Side(P, False, lambda t: 0), Side(Q, False, lambda t: 0)]
    st = [s.enter([s.P.start], {}) for s in S]
    seen, todo = {tuple(st)}, [(tuple(st), ())]
    while todo:
        st, w = todo.pop(0)
        a, b = (m is not None for _, m in st)
        if (a and not b) if subset else (a != b):
            return False, A.text(w)
        for c in A.classes:
            n = tuple(s.enter(s.advance(A, t, c), {}) for s, (t, _) in zip(S, st))
            if n not in seen:
                seen.add(n)
                todo.append((n, w + (c,)))
    return True, len(seen)


def first_token(P, text, then):
    """Token and length that P matches at the start of text followed by `then`: "" (the end), or None (any text).
    Raises Unsupported when the outcome depends on what follows."""
    A = None
    th, last = None, None
    ent, i = [P.start], 0
    while True:
        g = {}
        while True:
            try:
                th, marks = closure(P, ent, g, True)
                break
            except NeedGuess as e:
                k = e.args[0]
                g[k] = look(P.asserts[k], text, i, then)
        if marks and i:
            last = (marks[0], i)
        if not th:
            return last
        if i == len(text):
            if then == "":
                return last
            raise Unsupported(f"the token at {text!r} depends on what follows")
        c = ord(text[i])
        ent = [P.code[pc][2] for pc in th if any(a <= c <= b for a, b in P.code[pc][1])]
        i += 1


def look(Q, text, i, then):
    th, marks = closure(Q, [Q.start], {}, False)
    while True:
        if marks:
            return True
        if not th:
            return False
        if i == len(text):
            if then == "":
                return False
            raise Unsupported("a look-ahead depends on what follows")
        c = ord(text[i])
        ent = [Q.code[pc][2] for pc in th if any(a <= c <= b for a, b in Q.code[pc][1])]
        th, marks = closure(Q, ent, {}, False)
        i += 1
