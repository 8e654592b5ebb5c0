"""Reference lexer and parsers, written from docs/grammars.md and docs/parsing.md.

parse(logic, text) returns the literal tree (nothing simplified except that operator chains are
n-ary), raises Reject when the text is not in the language, and Unspecified when the
documentation does not settle whether it is (LDL reserved words used as propositional symbols).
"""
import re
import string


class Reject(Exception):
    pass


class Unspecified(Exception):
    pass


WS = " \t\n\r\f\v"
WORD_START = set(string.ascii_lowercase + "_")
WORD = set(string.ascii_letters + string.digits + "_")
RESERVED = {
    "pl": {"true", "false"},
    "ltl": {"true", "false", "tt", "ff", "last"},
    "pltl": {"true", "false", "tt", "ff", "start"},
    "ldl": {"true", "false", "tt", "ff", "last", "end"},
}
# words that the documentation reserves somewhere: never used as symbols by generators
ALL_RESERVED = {"true", "false", "tt", "ff", "last", "end", "start", "first"}
COMMON = ["<->", "->", ">>", "||", "|", "&&", "&", "!", "~", "(", ")"]
SYM = {
    "pl": COMMON, "ltl": COMMON, "pltl": COMMON,
    "ldl": COMMON + ["[", "]", "<", ">", "+", ";", "?", "*"],
}
LETTERS = {
    "pl": [], "ldl": [],
    "ltl": ["X[!]", "U", "R", "G", "F", "X", "W", "M"],
    "pltl": ["S", "T", "H", "O", "Y", "Z"],
}
KIND = {"<->": "IFF", "->": "IMP", ">>": "IMP", "||": "OR", "|": "OR", "&&": "AND", "&": "AND", "!": "NOT", "~": "NOT"}


def is_symbol(s):
    """The documented rule for symbol names."""
    if len(s) >= 3 and s[0] == '"' and s[-1] == '"':
        return all(" " <= c <= "~" and c != '"' for c in s[1:-1])
    if not s or s[0] not in WORD_START:
        return False
    if any(c not in WORD and c != "-" for c in s):
        return False
    return s[-1] != "-"


def tokens(logic, text):
    out, i, n = [], 0, len(text)
    syms = sorted(SYM[logic], key=len, reverse=True)
    while i < n:
        c = text[i]
        if c in WS:
            i += 1
            continue
        if c == '"':
            j = text.find('"', i + 1)
            if j <= i + 1 or not is_symbol(text[i:j + 1]):
                raise Reject("bad quoted symbol")
            out.append(("SYM", text[i:j + 1]))
            i = j + 1
            continue
        if c in WORD_START:
            j = i
            while j < n and (text[j] in WORD or text[j] == "-"):
                j += 1
            while text[j - 1] == "-":
                j -= 1
            w = text[i:j]
            out.append(("KW" if w in RESERVED[logic] else "SYM", w))
            i = j
            continue
        for op in LETTERS[logic]:
            if text.startswith(op, i) and i + len(op) < n and text[i + len(op)] in ' "(':
                out.append(("LET", op))
                i += len(op)
                break
        else:
            for op in syms:
                if text.startswith(op, i):
                    out.append((KIND.get(op, op), op))
                    i += len(op)
                    break
            else:
                if c.isspace():
                    raise Unspecified("white space outside ASCII")
                raise Reject("unexpected character %r at %d" % (c, i))
    return out


LEVELS = {
    "pl": [("IFF", "Equivalence"), ("IMP", "Implies"), ("OR", "Or"), ("AND", "And")],
    "ltl": [("IFF", "Equivalence"), ("IMP", "Implies"), ("OR", "Or"), ("AND", "And"),
            ("W", "WeakUntil"), ("U", "Until"), ("R", "Release"), ("M", "StrongRelease")],
    "pltl": [("IFF", "Equivalence"), ("IMP", "Implies"), ("OR", "Or"), ("AND", "And"),
             ("S", "Since"), ("T", "Triggers")],
    "ldl": [("IFF", "Equivalence"), ("IMP", "Implies"), ("OR", "Or"), ("AND", "And")],
}
UNARY = {
    "pl": {}, "ldl": {},
    "ltl": {"X[!]": "Next", "X": "WeakNext", "F": "Eventually", "G": "Always"},
    "pltl": {"Y": "Before", "Z": "WeakBefore", "O": "Once", "H": "Historically"},
}


def constant(logic, w):
    if w in ("true", "false"):
        if logic == "pl":
            return ("True" if w == "true" else "False", "pl")
        if logic in ("ltl", "pltl"):
            return ("PTrue" if w == "true" else "PFalse", logic)
    if w == "tt":
        return ("True", logic)
    if w == "ff":
        return ("False", logic)
    return abbreviation(logic, w)


def abbreviation(logic, w):
    if (logic, w) == ("ltl", "last"):
        return ("WeakNext", ("False", "ltl"))
    if (logic, w) == ("pltl", "start"):
        return ("Not", ("Before", ("True", "pltl")))
    if (logic, w) == ("ldl", "end"):
        return ("Box", ("Prop", ("True", "pl")), ("False", "ldl"))
    if (logic, w) == ("ldl", "last"):
        return ("Diamond", ("Prop", ("True", "pl")), abbreviation("ldl", "end"))
    raise Reject("word %s" % w)


class _Linear:
    """Precedence climbing for the logics whose grammar is deterministic."""

    def __init__(self, logic, toks):
        self.logic, self.toks, self.i = logic, toks, 0
        self.levels = LEVELS[logic]

    def peek(self):
        return self.toks[self.i] if self.i < len(self.toks) else ("EOF", "")

    def run(self):
        t = self.level(0)
        if self.i != len(self.toks):
            raise Reject("trailing input")
        return t

    def level(self, k):
        if k == len(self.levels):
            return self.unary()
        tag, op = self.levels[k]
        xs = [self.level(k + 1)]
        while True:
            kind, val = self.peek()
            if (val if kind == "LET" else kind) != tag:
                break
            self.i += 1
            xs.append(self.level(k + 1))
        return xs[0] if len(xs) == 1 else (op,) + tuple(xs)

    def unary(self):
        kind, val = self.peek()
        self.i += 1
        if kind == "NOT":
            return ("Not", self.unary())
        if kind == "LET" and val in UNARY[self.logic]:
            return (UNARY[self.logic][val], self.unary())
        if kind == "(":
            t = self.level(0)
            if self.peek()[0] != ")":
                raise Reject("missing )")
            self.i += 1
            return t
        if kind == "SYM":
            return ("Atomic", self.logic, val)
        if kind == "KW":
            return constant(self.logic, val)
        raise Reject("unexpected %s" % (val or "end of text"))


class _LDL:
    """All derivations of the LDL grammar, memoised: methods map a position to {(end, tree)}."""

    def __init__(self, toks, words_as_symbols=False):
        self.toks, self.memo, self.lax = toks, {}, words_as_symbols

    def run(self):
        res = {t for e, t in self.get("f", 0) if e == len(self.toks)}
        if not res:
            raise Reject("no derivation")
        if len(res) > 1:
            raise Unspecified("ambiguous")
        return next(iter(res))

    def kind(self, i):
        return self.toks[i][0] if i < len(self.toks) else "EOF"

    def get(self, nt, i):
        k = (nt, i)
        if k not in self.memo:
            self.memo[k] = frozenset()  # no left recursion in the grammar
            self.memo[k] = frozenset(self.rule(nt, i))
        return self.memo[k]

    CHAIN = {
        "f": ("f1", "IFF", "Equivalence"), "f1": ("f2", "IMP", "Implies"), "f2": ("f3", "OR", "Or"), "f3": ("fu", "AND", "And"),
        "p": ("p1", "IFF", "Equivalence"), "p1": ("p2", "IMP", "Implies"), "p2": ("p3", "OR", "Or"), "p3": ("pu", "AND", "And"),
        "r": ("r1", "+", "Union"), "r1": ("r2", ";", "Seq"),
    }

    def rule(self, nt, i):
        if nt in self.CHAIN:
            sub, tok, op = self.CHAIN[nt]
            done = set()
            frontier = {(e, (t,)) for e, t in self.get(sub, i)}
            while frontier:
                nxt = set()
                for e, xs in frontier:
                    done.add((e, xs[0] if len(xs) == 1 else (op,) + xs))
                    if self.kind(e) == tok:
                        nxt |= {(e2, xs + (t,)) for e2, t in self.get(sub, e + 1)}
                frontier = nxt
            return done
        k, v = self.toks[i] if i < len(self.toks) else ("EOF", "")
        out = set()
        if nt in ("fu", "pu") and k == "NOT":
            return {(e, ("Not", t)) for e, t in self.get(nt, i + 1)}
        if nt == "fu":
            if k in ("[", "<"):
                close, op = ("]", "Box") if k == "[" else (">", "Diamond")
                for e, r in self.get("r", i + 1):
                    if self.kind(e) == close:
                        out |= {(e2, (op, r, t)) for e2, t in self.get("fu", e + 1)}
            elif k == "(":
                out |= {(e + 1, t) for e, t in self.get("f", i + 1) if self.kind(e) == ")"}
            elif k == "KW" and v in ("tt", "ff", "last", "end"):
                out.add((i + 1, constant("ldl", v)))
        elif nt == "pu":
            if k == "(":
                out |= {(e + 1, t) for e, t in self.get("p", i + 1) if self.kind(e) == ")"}
            elif k == "SYM":
                out.add((i + 1, ("Atomic", "pl", v)))
            elif k == "KW" and v in ("true", "false"):
                out.add((i + 1, constant("pl", v)))
            elif k == "KW" and self.lax:
                out.add((i + 1, ("Atomic", "pl", v)))
        elif nt == "r2":  # re_star
            for e, t in self.get("r3", i):
                out.add((e, t))
                if self.kind(e) == "*":
                    out.add((e + 1, ("Star", t)))
        elif nt == "r3":  # re_test
            out |= {(e + 1, ("Test", t)) for e, t in self.get("f", i) if self.kind(e) == "?"}
            out |= {(e, ("Prop", t)) for e, t in self.get("p", i)}
            if k == "(":
                out |= {(e + 1, t) for e, t in self.get("r", i + 1) if self.kind(e) == ")"}
        return out


def parse(logic, text):
    toks = tokens(logic, text)
    if logic != "ldl":
        return _Linear(logic, toks).run()
    try:
        return _LDL(toks).run()
    except Reject:
        if any(k == "KW" for k, _ in toks):
            try:
                _LDL(toks, True).run()
            except Reject:
                pass
            else:
                raise Unspecified("reserved word as a propositional symbol")
        raise
