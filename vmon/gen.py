"""Seeded generators of names, formula trees and texts. Never imports the code under test."""
import os
import types

from . import ref
from .refparse import ALL_RESERVED, is_symbol

LETTERS = list("abcdefghijklmnopqrstuvwxyz")
SPECIAL_NAMES = [
    "true_", "truex", "true-x", "true1", "falsey", "false_0", "false-false", "ttx", "tt1", "tt-a", "ffx", "ff_", "last_state",
    "lastly", "last-1", "ending", "end1", "endpoint", "starting", "start_1", "firstly", "first-a", "a-b", "a--b", "a_-_b", "x-1-2", "_", "__", "_1",
    "a1", "p0", "aU", "aX", "xUy", "uRb", "fG", "a_very_long_symbol_name_with_many_characters_in_it_0123456789", "nOT", "aTRUE", "not", "and",
    "or", "none", "self", "lambda", "u", "x", "w", "r", "m", "f", "g", "s", "t", "h", "o", "y", "z", "v", "implies", "equivalence",
    "a" * 3, "a-a", "aa", "a_a", "a0", "b-0", "tRUE", "tT", "e-0_Z", "z9-9z",
]
QUOTED_NAMES = [
    '"a b"', '"true"', '"false"', '"tt"', '"->"', '"(a)"', '" "', '"U"', '"X[!]"', '"a & b"', '"A"', '"0"', '"[a]"', '"<a>"', "\"'\"", '"\\"',
    '"last"', '"a"', '"b"', '"~"', '"!"', '"a -> b"', '"a?"', '"*"', '"&&"', '"#{}"', '"end"', '"  a"', '"a  "',
]


def mined_constants(repo):
    """Names and small integers that occur as constants in the code under test."""
    names, ints = set(), set()

    def walk(code):
        for c in code.co_consts:
            if isinstance(c, types.CodeType):
                walk(c)
            elif isinstance(c, str) and len(c) <= 24 and is_symbol(c) and c not in ALL_RESERVED:
                names.add(c)
            elif isinstance(c, int) and not isinstance(c, bool) and 2 <= c <= 400:
                ints.add(c)
            elif isinstance(c, (tuple, frozenset)):
                for d in c:
                    if isinstance(d, str) and len(d) <= 24 and is_symbol(d) and d not in ALL_RESERVED:
                        names.add(d)
    top = os.path.join(repo, "pylogics_modalities")
    for d, _, files in sorted(os.walk(top)):
        for f in sorted(files):
            if f.endswith(".py"):
                try:
                    with open(os.path.join(d, f)) as fh:
                        walk(compile(fh.read(), f, "exec"))
                except (OSError, SyntaxError, ValueError):
                    continue
    return sorted(names), sorted(ints)


_MINED = None


def mined():
    global _MINED
    if _MINED is None:
        _MINED = mined_constants(os.environ.get("VMON_REPO", "/repo"))
    return _MINED


def random_name(rng):
    k = rng.random()
    if k < 0.35:
        return rng.choice(LETTERS)
    if k < 0.55:
        return rng.choice(SPECIAL_NAMES)
    if k < 0.7:
        return rng.choice(QUOTED_NAMES)
    if k < 0.75 and mined()[0]:
        return rng.choice(mined()[0])
    if k < 0.85:  # random quoted
        n = rng.randint(1, 8)
        return '"' + "".join(chr(rng.choice([c for c in range(32, 127) if c != 34])) for _ in range(n)) + '"'
    while True:
        n = rng.choice((1, 1, 2, 2, 3, 4, 6, 9, 14, 30))
        s = rng.choice("abcdefghijklmnopqrstuvwxyz_")
        s += "".join(rng.choice("abcxyz_019ABZ-") for _ in range(n))
        if is_symbol(s) and s not in ALL_RESERVED:
            return s


def twin(rng, name):
    """A different name that is easily taken for the given one."""
    if name[0] == '"':
        inner = name[1:-1]
        c = ['"%s "' % inner, '" %s"' % inner, '"%s"' % inner.swapcase(), '"%s"' % inner[::-1], '"(%s)"' % inner]
        if is_symbol(inner) and inner not in ALL_RESERVED:
            c += [inner] * 4
    else:
        c = ['"%s"' % name] * 4 + [name + "_", "_" + name, name + "-" + name, name + "0", name[0] + name[1:].swapcase(), name.replace("_", "-"), name.replace("-", "_"), name[:1], name[:-1], name + name]
    c = [x for x in c if x != name and is_symbol(x) and x not in ALL_RESERVED]
    return rng.choice(c) if c else random_name(rng)


def name_pool(rng, lo=1, hi=6):
    n = rng.randint(lo, hi)
    if rng.random() < 0.45:
        return LETTERS[:n]
    out = []
    twins = rng.random() < 0.15
    while len(out) < n:
        x = twin(rng, rng.choice(out)) if twins and out and rng.random() < 0.5 else random_name(rng)
        if x not in out:
            out.append(x)
    return out


class Profile:
    """Shape of the random trees: how wide, how constant, how repetitive."""

    def __init__(self, rng, **kw):
        self.names = name_pool(rng)
        self.const = rng.choice((0.0, 0.05, 0.15, 0.3))
        self.repeat = rng.choice((0.0, 0.1, 0.35, 0.6))  # reuse an earlier subtree (or its negation)
        self.negate = rng.choice((0.1, 0.25, 0.4))
        self.wide = rng.choice((2, 3, 3, 4, 6, 10))
        self.equiv = rng.choice((0.0, 0.1, 0.25))
        self.temporal = rng.choice((0.3, 0.5, 0.7))
        ints = mined()[1]
        if ints and rng.random() < 0.05:
            self.wide = max(2, min(60, rng.choice(ints) + rng.randint(0, 1)))
        self.__dict__.update(kw)


class TreeGen:
    def __init__(self, rng, logic, prof=None, **kw):
        self.rng, self.logic = rng, logic
        self.p = prof or Profile(rng, **kw)
        self.past = {"pl": [], "ltl": [], "pltl": [], "ldl": [], "re": []}

    def tree(self, budget, logic=None):
        t = self._tree(budget, logic or self.logic)
        return t

    def _remember(self, logic, t):
        past = self.past[logic]
        if len(past) < 40:
            past.append(t)
        else:
            past[self.rng.randrange(40)] = t
        return t

    def _tree(self, budget, logic):
        rng, p = self.rng, self.p
        past = self.past[logic]
        if past and rng.random() < p.repeat:
            t = rng.choice(past)
            if ref.size(t) <= max(budget, 3):
                return ("Not", t) if logic != "re" and rng.random() < 0.3 else t
        if budget <= 1:
            return self._remember(logic, self._leaf(logic))
        return self._remember(logic, self._node(budget, logic))

    def _leaf(self, logic):
        rng, p = self.rng, self.p
        if logic == "re":
            return ("Prop", self._leaf("pl"))
        if logic == "ldl":
            k = rng.random()
            if k < 0.25:
                return (rng.choice(("True", "False")), "ldl")
            return (rng.choice(("Diamond", "Box")), ("Prop", self._leaf("pl")), (rng.choice(("True", "False")), "ldl"))
        if rng.random() < p.const:
            tags = ("True", "False") if logic == "pl" else ("True", "False", "PTrue", "PFalse")
            return (rng.choice(tags), logic)
        return ("Atomic", logic, rng.choice(p.names))

    def _split(self, budget, n):
        rest = max(0, budget - 1 - n)
        parts = [1] * n
        for _ in range(rest):
            parts[self.rng.randrange(n)] += 1
        return parts

    def _nary(self, op, budget, logic, width=None):
        n = width or min(max(2, budget - 1), 2 if self.rng.random() < 0.5 else self.rng.randint(2, self.p.wide))
        return (op,) + tuple(self._tree(b, logic) for b in self._split(budget, n))

    def _node(self, budget, logic):
        rng, p = self.rng, self.p
        if logic == "re":
            k = rng.random()
            if k < 0.25:
                return ("Prop", self._tree(budget - 1, "pl"))
            if k < 0.45:
                return ("Test", self._tree(budget - 1, "ldl"))
            if k < 0.62:
                return ("Star", self._tree(budget - 1, "re"))
            return self._nary("Seq" if k < 0.82 else "Union", budget, "re")
        if rng.random() < p.negate:
            return ("Not", self._tree(budget - 1, logic))
        if logic != "pl" and rng.random() < p.temporal:
            if logic == "ldl":
                a, b = self._split(budget, 2)
                return (rng.choice(("Diamond", "Box")), self._tree(a, "re"), self._tree(b, "ldl"))
            un, bi = (ref.LTL_UN, ref.LTL_BIN) if logic == "ltl" else (ref.PLTL_UN, ref.PLTL_BIN)
            if rng.random() < 0.55:
                return (rng.choice(un), self._tree(budget - 1, logic))
            return self._nary(rng.choice(bi), budget, logic)
        k = rng.random()
        if k < p.equiv:
            return self._nary("Equivalence", budget, logic)
        if k < p.equiv + 0.2:
            return self._nary("Implies", budget, logic)
        return self._nary(rng.choice(("And", "Or")), budget, logic)


def budget(rng, top=40):
    k = rng.random()
    if k < 0.3:
        return rng.randint(1, 6)
    if k < 0.75:
        return rng.randint(4, max(5, top // 2))
    return rng.randint(min(8, top), top)


def chain_tree(rng, logic, n, names=None):
    """A deep, narrow formula: n unary or one-sided binary operators around an atom."""
    g = TreeGen(rng, logic, names=names or name_pool(rng, 2, 3))
    t = g._leaf(logic)
    for _ in range(n):
        if logic == "ldl":
            op = rng.choice(("Not", "Diamond", "Box", "And", "Or"))
        elif logic == "pl":
            op = rng.choice(("Not", "And", "Or", "Implies"))
        else:
            un, bi = (ref.LTL_UN, ref.LTL_BIN) if logic == "ltl" else (ref.PLTL_UN, ref.PLTL_BIN)
            op = rng.choice(un + bi + ("Not", "And", "Or", "Implies"))
        if op in ("Diamond", "Box"):
            t = (op, g._leaf("re"), t)
        elif op == "Not" or op in ref.LTL_UN or op in ref.PLTL_UN:
            t = (op, t)
        else:
            xs = [g._leaf(logic), t]
            rng.shuffle(xs)
            t = (op,) + tuple(xs)
    return t


def wide_tree(rng, logic, op, n):
    """One operator over n operands, with occasional repetitions and negations of operands."""
    mode = rng.random()
    kw = {"const": 0.0} if mode > 0.4 else {}
    g = TreeGen(rng, logic, names=name_pool(rng, 3, 6) + ["w%d" % i for i in range(n)], **kw)
    xs = []
    sub = "re" if op in ("Seq", "Union") else logic
    for i in range(n):
        if xs and mode < 0.6 and rng.random() < 0.15:
            x = rng.choice(xs)
            xs.append(("Not", x) if sub != "re" and mode < 0.25 else x)
        else:
            xs.append(g._tree(rng.choice((1, 1, 1, 3)), sub))
    return (op,) + tuple(xs)


def some_width(rng):
    """Mostly small numbers of operands, sometimes large ones, and those near constants of the code."""
    k = rng.random()
    if k < 0.15 and mined()[1]:
        return max(2, min(130, rng.choice(mined()[1]) + rng.randint(-1, 2)))
    if k < 0.3:
        return rng.choice((15, 16, 17, 20, 24, 31, 32, 33, 40, 50, 64, 65))
    return rng.randint(3, 14)


def some_depth(rng):
    k = rng.random()
    if k < 0.1 and mined()[1]:
        return max(2, min(110, rng.choice(mined()[1]) + rng.randint(-1, 2)))
    if k < 0.25:
        return rng.choice((30, 32, 33, 40, 50, 64, 65, 80, 100))
    return rng.randint(3, 25)


def any_tree(rng, logic, top=40):
    """The standard mixture."""
    k = rng.random()
    if k < 0.06:
        return chain_tree(rng, logic, some_depth(rng))
    if k < 0.14:
        bi = {"pl": (), "ltl": ref.LTL_BIN, "pltl": ref.PLTL_BIN, "ldl": ("Seq", "Union")}[logic]
        op = rng.choice(ref.BOOL_NARY + tuple(bi) * 2)
        n = some_width(rng)
        t = wide_tree(rng, logic, op, n)
        return ("Diamond", t, ("True", "ldl")) if op in ("Seq", "Union") else t
    return TreeGen(rng, logic).tree(budget(rng, top))


def variant(rng, t, p=0.3):
    """A structurally congruent copy: operands of commutative operators permuted."""
    if t[0] in ref.LEAVES:
        return t
    xs = [variant(rng, c, p) for c in t[1:]]
    if t[0] in ref.COMMUTATIVE and rng.random() < p + 0.4:
        rng.shuffle(xs)
    return (t[0],) + tuple(xs)


def positions(t, path=()):
    yield path, t
    for i, c in enumerate(ref.children(t)):
        yield from positions(c, path + (i + 1,))


def replace_at(t, path, new):
    if not path:
        return new
    i = path[0]
    return t[:i] + (replace_at(t[i], path[1:], new),) + t[i + 1:]


FAMILY = [("And", "Or"), ("Implies", "Equivalence"), ref.LTL_UN, ref.LTL_BIN, ref.PLTL_UN, ref.PLTL_BIN, ("Diamond", "Box"), ("Seq", "Union")]


def near_miss(rng, t):
    """A tree that differs from t in one place (may happen to be congruent to t)."""
    path, s = rng.choice(list(positions(t)))
    op = s[0]
    k = rng.random()
    if op == "Atomic":
        new = (op, s[1], twin(rng, s[2]) if rng.random() < 0.8 else random_name(rng))
    elif op in ref.LEAVES:
        new = (ref.DUAL[op], s[1])
        if s[1] in ("ltl", "pltl") and k < 0.5:
            new = ({"True": "PTrue", "False": "PFalse", "PTrue": "True", "PFalse": "False"}[op], s[1])
    elif len(s) > 2 and op not in ("Diamond", "Box") and k < 0.35:
        xs = list(s[1:])
        i, j = rng.sample(range(len(xs)), 2)
        xs[i], xs[j] = xs[j], xs[i]
        new = (op,) + tuple(xs)
    elif len(s) > 3 and op not in ("Diamond", "Box") and k < 0.5:
        i = rng.randrange(1, len(s))
        new = s[:i] + s[i + 1:]
    elif len(s) > 2 and op not in ("Diamond", "Box") and k < 0.6:
        new = s + (rng.choice(s[1:]),)
    else:
        new = None
        for fam in FAMILY:
            if op in fam:
                new = (rng.choice([o for o in fam if o != op] or fam),) + s[1:]
        if new is None or k > 0.9:
            new = s[1] if ref.logic_of(s) == ref.logic_of(s[1]) else s
    return replace_at(t, path, new)


# ---------------------------------------------------------------- texts

BIN_LEVEL = {
    "pl": {"Equivalence": 0, "Implies": 1, "Or": 2, "And": 3},
    "ltl": {"Equivalence": 0, "Implies": 1, "Or": 2, "And": 3, "WeakUntil": 4, "Until": 5, "Release": 6, "StrongRelease": 7},
    "pltl": {"Equivalence": 0, "Implies": 1, "Or": 2, "And": 3, "Since": 4, "Triggers": 5},
    "ldl": {"Equivalence": 0, "Implies": 1, "Or": 2, "And": 3},
}
UNARY_LEVEL = 9
SPELL = {
    "Equivalence": ("<->",), "Implies": ("->", ">>"), "Or": ("|", "||"), "And": ("&", "&&"), "Not": ("!", "~"),
    "WeakUntil": ("U:W",), "Until": ("U:U",), "Release": ("U:R",), "StrongRelease": ("U:M",), "Since": ("U:S",), "Triggers": ("U:T",),
    "Next": ("U:X[!]",), "WeakNext": ("U:X",), "Eventually": ("U:F",), "Always": ("U:G",),
    "Before": ("U:Y",), "WeakBefore": ("U:Z",), "Once": ("U:O",), "Historically": ("U:H",),
}
LETTER_OPS = {v[0][2:] for v in SPELL.values() if v[0].startswith("U:")}
ABBREV = {
    ("ltl", ("WeakNext", ("False", "ltl"))): "last",
    ("pltl", ("Not", ("Before", ("True", "pltl")))): "start",
    ("ldl", ("Box", ("Prop", ("True", "pl")), ("False", "ldl"))): "end",
    ("ldl", ("Diamond", ("Prop", ("True", "pl")), ("Box", ("Prop", ("True", "pl")), ("False", "ldl")))): "last",
}


class Render:
    """Prints a literal tree as a list of tokens the way a person could write it."""

    def __init__(self, rng, logic, extra=0.15, abbrev=0.5):
        self.rng, self.logic, self.extra, self.abbrev = rng, logic, extra, abbrev

    def spell(self, op):
        s = self.rng.choice(SPELL[op])
        return s[2:] if s.startswith("U:") else s

    def tokens(self, t):
        return self._f(t, self.logic, 0)

    def _wrap(self, toks):
        return ["("] + toks + [")"]

    def _f(self, t, logic, level):
        """Tokens of t where an operand of level >= `level` is required."""
        toks, lev = self._bare(t, logic)
        if lev < level:
            toks = self._wrap(toks)
        while self.rng.random() < self.extra:
            toks = self._wrap(toks)
        return toks

    def _bare(self, t, logic):
        op = t[0]
        a = ABBREV.get((logic, t))
        if a and self.rng.random() < self.abbrev:
            return [a], UNARY_LEVEL
        if op == "Atomic":
            return [t[2]], UNARY_LEVEL
        if op in ref.LEAVES:
            if logic == "pl":
                return ["true" if op == "True" else "false"], UNARY_LEVEL
            return [{"True": "tt", "False": "ff", "PTrue": "true", "PFalse": "false"}[op]], UNARY_LEVEL
        if op in ("Diamond", "Box"):
            l, r = ("<", ">") if op == "Diamond" else ("[", "]")
            return [l] + self._r(t[1], 0) + [r] + self._f(t[2], "ldl", UNARY_LEVEL), UNARY_LEVEL
        if op == "Not" or op in ref.LTL_UN or op in ref.PLTL_UN:
            return [self.spell(op)] + self._f(t[1], logic, UNARY_LEVEL), UNARY_LEVEL
        lev = BIN_LEVEL[logic][op]
        toks = []
        for i, c in enumerate(t[1:]):
            if i:
                toks.append(self.spell(op))
            toks += self._f(c, logic, lev + 1)
        return toks, lev

    def _r(self, r, level):
        """Regex levels: 0 union, 1 sequence, 2 star, 3 test / propositional."""
        op = r[0]
        if op == "Prop":
            toks, lev = self._f(r[1], "pl", 0), 3
        elif op == "Test":
            toks, lev = self._f(r[1], "ldl", 0) + ["?"], 3
        elif op == "Star":
            toks, lev = self._r(r[1], 3) + ["*"], 2
        else:
            own = 0 if op == "Union" else 1
            toks, lev = [], own
            for i, c in enumerate(r[1:]):
                if i:
                    toks.append("+" if op == "Union" else ";")
                toks += self._r(c, own + 1)
        if lev < level:
            toks = self._wrap(toks)
        while self.rng.random() < self.extra / 2:
            toks = self._wrap(toks)
        return toks


WORDY = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-")


def join(rng, toks, style=None):
    """Join tokens with random but harmless white space."""
    style = style or rng.choice(("tight", "single", "random", "random", "lines"))
    out = ""
    prev = None

    def gap():
        if style == "tight":
            return ""
        if style == "single":
            return " "
        if style == "lines":
            return rng.choice((" ", "\n", "", "\t", "\n  "))
        return rng.choice(("", "", " ", "  ", "\t", " \n", "\r\n", "   "))
    if style in ("random", "lines"):
        out += gap()
    for t in toks:
        if prev is not None:
            g = gap()
            if prev in LETTER_OPS:
                if not g:
                    g = "" if t[0] in '("' else " "
                elif g[0] != " ":
                    g = " " + g
            elif not g and prev[-1] in WORDY and (t[0] in WORDY and not t.startswith("->")):
                g = " "
            out += g
        out += t
        prev = t
    if style in ("random", "lines"):
        out += gap()
    return out


def text_of(rng, logic, t, **kw):
    return join(rng, Render(rng, logic, **kw).tokens(t))


ALPHABET = {
    "pl": ["a", "b", "true", "false", "(", ")", "&", "&&", "|", "||", "->", ">>", "<->", "!", "~", '"q r"', "a-b", "truex"],
    "ltl": ["a", "b", "true", "false", "tt", "ff", "last", "(", ")", "&", "|", "->", "<->", "!", "~", "U", "R", "W", "M", "F", "G", "X", "X[!]", '"q"', "end_", "lastly", "ttt"],
    "pltl": ["a", "b", "true", "false", "tt", "ff", "start", "(", ")", "&", "|", "->", "<->", "!", "S", "T", "H", "O", "Y", "Z", '"q"', "startx"],
    "ldl": ["a", "b", "true", "false", "tt", "ff", "last", "end", "(", ")", "&", "|", "->", "<->", "!", "<", ">", "[", "]", "+", ";", "?", "*", '"q"', "ends"],
}
CHARS = 'ab01_-"()&|<>=!~ \t\nXUFGRWMSTHOYZ[];+*?.,AZtrue falseffendlast\'\\{}@^%$#:/`é'


def mutate_text(rng, logic, toks):
    """A near-miss text: one to three token or character edits."""
    toks = list(toks)
    alpha = ALPHABET[logic]
    text = None
    for _ in range(rng.choice((1, 1, 1, 2, 3))):
        k = rng.random()
        if k < 0.22 and toks:
            del toks[rng.randrange(len(toks))]
        elif k < 0.42:
            toks.insert(rng.randint(0, len(toks)), rng.choice(alpha))
        elif k < 0.6 and toks:
            toks[rng.randrange(len(toks))] = rng.choice(alpha)
        elif k < 0.7 and len(toks) > 1:
            i = rng.randrange(len(toks) - 1)
            toks[i], toks[i + 1] = toks[i + 1], toks[i]
        elif k < 0.78 and toks:
            i = rng.randrange(len(toks))
            toks.insert(i, toks[i])
    text = join(rng, toks)
    if rng.random() < 0.35:
        for _ in range(rng.choice((1, 1, 2))):
            k = rng.random()
            i = rng.randint(0, len(text))
            if k < 0.4 and text:
                i = min(i, len(text) - 1)
                text = text[:i] + text[i + 1:]
            elif k < 0.75:
                text = text[:i] + rng.choice(CHARS) + text[i:]
            elif text:
                i = min(i, len(text) - 1)
                text = text[:i] + rng.choice(CHARS) + text[i + 1:]
    return text


def random_token_text(rng, logic, n):
    return join(rng, [rng.choice(ALPHABET[logic]) for _ in range(n)], "single" if rng.random() < 0.5 else None)


def random_char_text(rng, n):
    return "".join(rng.choice(CHARS) for _ in range(n))
