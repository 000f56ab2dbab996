"""The real LALR tables, lexers and tree callbacks of a parser, run on texts with holes.

The parser object is the live one that parse_pl / parse_ltl / parse_pltl / parse_ldl use.  Its tables are read from the
object on every run.  A text is a list of pieces: literal strings, Name (the text of an atom that is not a reserved
word) and Hole (the text of an arbitrary formula of a kind, for which the claim of the induction hypothesis is used)."""
import importlib
import sys

import lark
from lark import Tree, Token
from lark.parsers.lalr_analysis import Shift, Reduce

from . import rx
from .core import Unsupported

LOGICS = ("pl", "ltl", "pltl", "ldl")
NAME = r'[a-z_](?:[A-Za-z0-9_\-]*[A-Za-z0-9_])?|"[ !#-~]+"'
AFTER = r'(?=[ "\(])'
# the documented tokens (README and comments of the grammars)
TOKENS = {
    "SYMBOL_NAME": NAME, "LEFT_PARENTHESIS": r"\(", "RIGHT_PARENTHESIS": r"\)", "EQUIVALENCE": "<->", "IMPLY": ">>|->", "OR": r"\|\||\|", "AND": "&&|&", "NOT": "!|~",
    "TRUE": "true", "FALSE": "false", "TT": "tt", "FF": "ff", "LAST": "last", "END": "end", "START": "start", "FIRST": "first", "__IGNORE_0": r"\s+",
    "LEFT_SQUARE_BRACKET": r"\[", "RIGHT_SQUARE_BRACKET": r"\]", "LEFT_ANGLE_BRACKET": "<", "RIGHT_ANGLE_BRACKET": ">", "UNION": r"\+", "SEQ": ";", "TEST": r"\?",
    "STAR": r"\*"}
LETTERS = dict(UNTIL="U", RELEASE="R", ALWAYS="G", EVENTUALLY="F", NEXT=r"X\[!\]", WEAK_NEXT="X", WEAK_UNTIL="W", STRONG_RELEASE="M", SINCE="S", TRIGGERS="T",
               HISTORICALLY="H", ONCE="O", BEFORE="Y", WEAKBEFORE="Z")
TOKENS.update({k: v + AFTER for k, v in LETTERS.items()})
KEYWORDS = {"TRUE", "FALSE", "TT", "FF", "LAST", "END", "START", "FIRST"}
RESERVED = {"pl": {"true", "false"}, "ltl": {"true", "false", "tt", "ff", "last"}, "pltl": {"true", "false", "tt", "ff", "start"},
            "ldl": {"true", "false", "tt", "ff", "last", "end"}}


def bare(n):
    """Name of a terminal without the prefix of the grammar it is imported from."""
    return n.rsplit("__", 1)[1] if "__" in n and not n.startswith("__") else n


class Stuck(Exception):
    """The parser rejects the text."""


class Hole:
    def __init__(self, kind, term, n=None):
        self.kind, self.term = kind, term
        self.n = n              # the nonterminal that its text is reduced to

    def __repr__(self):
        return f"<{self.kind}:{self.term}>"


class Name:
    def __init__(self, term=None):
        self.term = term

    def __repr__(self):
        return "<name>"


class G:
    """One parser."""

    def __init__(self, logic):
        self.logic = logic
        self.module = importlib.import_module("pylogics_modalities.parsers." + logic)
        from pylogics_modalities.parsers.base import AbstractParser
        ps = [v for v in vars(self.module).values() if isinstance(v, AbstractParser)]
        if len(ps) != 1:
            raise Unsupported(f"parsers.{logic}: {len(ps)} parser objects")
        self.obj = ps[0]
        self.lark = self.obj._parser
        if not isinstance(self.lark, lark.Lark):
            raise Unsupported("the parser is not a Lark object")
        self.front = self.lark.parser
        self.lalr = self.front.parser
        self.table = self.lalr._parse_table
        self.states = self.table.states
        self.start = self.table.start_states["start"]
        self.end = self.table.end_states["start"]
        self.callbacks = self.lalr.parser.callbacks
        self.lexer = self.front.lexer
        if type(self.lexer).__name__ != "ContextualLexer":
            raise Unsupported("lexer")
        self.transformer = self.obj._transformer
        self._progs = {}
        self._reads = {}
        self.name_states = []

    # ---------------------------------------------------------------- lexers
    def scanner(self, state):
        """(program, terminal names) of the lexer used in a state."""
        b = self.lexer.lexers[state]
        if id(b) not in self._progs:
            s = b.scanner
            if b.callback or b.user_callbacks or s.use_bytes or s.match_whole or b.g_regex_flags:
                raise Unsupported("lexer callbacks or flags")
            if len(s._mres) != 1:
                raise Unsupported("a scanner in several parts")
            r = s._mres[0]
            names = {i: n for n, i in r.groupindex.items()}
            self._progs[id(b)] = (rx.scanner_program(r.pattern, 0, names), tuple(names[i] for i in sorted(names)), b)
        return self._progs[id(b)]

    def reads_names(self, state):
        """In a state, is every name that is not a reserved word, followed by a closing bracket or the end of the text, read as
        one SYMBOL_NAME?  (ok, witness)"""
        P, names, b = self.scanner(state)
        if id(b) not in self._reads:
            ends = (r"(?=\))", r"(?![\s\S])")
            words = sorted(RESERVED[self.logic])
            spec = rx.program([("reserved", "(?:" + "|".join(words) + ")" + e) for e in ends] + [("SYMBOL_NAME", f"(?:{NAME}){e}") for e in ends])
            rank = {"reserved": 0, "SYMBOL_NAME": 1}
            self._reads[id(b)] = rx.compare([rx.Side(P), rx.Side(spec, False, lambda t: rank[t])], lambda m, i: m, care=lambda last: last[1] == "SYMBOL_NAME")
        return self._reads[id(b)]

    def lexers(self):
        out = {}
        for st, b in self.lexer.lexers.items():
            out.setdefault(id(b), (st, []))[1].append(st)
        return [(st, sts) for st, sts in out.values()]

    # ---------------------------------------------------------------- running the tables
    def accepts(self, state, tok):
        return tok in self.states[state]

    def reduce_all(self, st, tok, stop=None):
        """Reductions on a lookahead until it is shifted (not done here) or accepted."""
        while True:
            q = st[-1][0]
            if tok not in self.states[q]:
                raise Stuck(f"{tok} is not expected")
            act, arg = self.states[q][tok]
            if act is Shift:
                return arg
            n = len(arg.expansion)
            vals = [v for _, _, v in st[len(st) - n:]] if n else []
            if n:
                del st[len(st) - n:]
            if not st:
                raise Unsupported("a reduction below the start of the text")
            v = self.callbacks[arg](list(vals))
            a2, q2 = self.states[st[-1][0]][arg.origin.name]
            st.append((q2, arg.origin.name, v))
            if tok == "$END" and q2 == self.end:
                return None

    def run(self, q, pieces, la, claim):
        """Parse pieces from state q, followed by the lookahead la; the stack above q before la is shifted, and a trace
        of (stack of states above q, operator) at every shift."""
        st = [(q, None, None)]
        trace = []
        i, off = 0, 0
        while i < len(pieces):
            p = pieces[i]
            if isinstance(p, Hole):
                if i + 1 < len(pieces) and not (isinstance(pieces[i + 1], str) and pieces[i + 1].startswith(")")):
                    raise Unsupported("a subformula that is not in brackets")
                if i + 1 == len(pieces) and la not in ("RIGHT_PARENTHESIS", "$END"):
                    raise Unsupported("a subformula that is not in brackets")
                n = claim(st[-1][0], p.kind)
                a2, q2 = self.states[st[-1][0]].get(n, (None, None))
                if a2 is not Shift:
                    raise Stuck(f"no {n} is expected here")
                st.append((q2, n, Hole(p.kind, p.term, n)))
                i, off = i + 1, 0
                continue
            P, names, b = self.scanner(st[-1][0])
            if isinstance(p, Name):
                if "SYMBOL_NAME" not in names:
                    raise Stuck("a name is not expected here")
                if i + 1 < len(pieces) and not (isinstance(pieces[i + 1], str) and pieces[i + 1].startswith(")")):
                    raise Unsupported("a name that is not followed by a bracket")
                if i + 1 == len(pieces) and la not in ("RIGHT_PARENTHESIS", "$END"):
                    raise Unsupported("a name that is not followed by a bracket")
                if st[-1][0] not in self.name_states:
                    self.name_states.append(st[-1][0])
                tok, txt = "SYMBOL_NAME", p
                i, off = i + 1, 0
            else:
                last = i == len(pieces) - 1
                then = ("" if la == "$END" else None) if last else None
                ext = ")" if last and la == "RIGHT_PARENTHESIS" else ""
                t = rx.first_token(P, p[off:] + ext, then)
                if t is not None and t[1] > len(p) - off:
                    raise Unsupported("a token that reaches beyond the text")
                if t is None:
                    raise Stuck(f"no token at {p[off:]!r}")
                tok, n = t
                txt = Token(tok, p[off:off + n])
                off += n
                if off == len(p):
                    i, off = i + 1, 0
                if tok in b.ignore_types:
                    continue
            q2 = self.reduce_all(st, tok)
            trace.append((tuple(s for s, _, _ in st), tuple(n for _, n, _ in st), tok))
            st.append((q2, tok, txt))
        self.reduce_all(st, la)
        return st[1:], trace


def shape(v, rename=lambda h: (h.kind, h.n)):
    """Comparable form of a tree, holes by their kind."""
    if isinstance(v, Hole):
        return ("hole", rename(v))
    if isinstance(v, Name):
        return ("name",)
    if isinstance(v, Token):
        return ("tok", v.type)
    if isinstance(v, Tree):
        return ("tree", v.data if isinstance(v.data, str) else str(v.data), tuple(shape(c, rename) for c in v.children))
    return ("?", type(v).__name__)
