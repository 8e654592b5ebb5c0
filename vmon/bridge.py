"""Between tuples (vmon.ref) and the real objects of the library, through its public API only."""
import os
import sys

REPO = os.environ.get("VMON_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import pylogics_modalities  # noqa: E402

if not os.path.abspath(pylogics_modalities.__file__).startswith(os.path.abspath(REPO) + os.sep):
    raise SystemExit("not the code under test: %s" % pylogics_modalities.__file__)

from pylogics_modalities.exceptions import ParsingError, PylogicsError  # noqa: E402,F401
from pylogics_modalities.parsers import parse_ldl, parse_ltl, parse_pl, parse_pltl  # noqa: E402
from pylogics_modalities.semantics.pl import evaluate_pl  # noqa: E402,F401
from pylogics_modalities.syntax import base, fol, ldl, ltl, pl, pltl  # noqa: E402
from pylogics_modalities.syntax.base import Logic, get_cache_context, reset_cache  # noqa: E402,F401
from pylogics_modalities.utils.to_string import to_string  # noqa: E402,F401

PARSE = {"pl": parse_pl, "ltl": parse_ltl, "pltl": parse_pltl, "ldl": parse_ldl}
LOGIC = {"pl": Logic.PL, "ltl": Logic.LTL, "pltl": Logic.PLTL, "ldl": Logic.LDL, "re": Logic.RE, "fol": Logic.FOL}
LOGIC_NAME = {v: k for k, v in LOGIC.items()}
ATOM = {"pl": pl.Atomic, "ltl": ltl.Atomic, "pltl": pltl.Atomic}

CLS = {"Not": base.Not, "And": base.And, "Or": base.Or, "Implies": base.Implies, "Equivalence": base.Equivalence}
CLS.update({n: getattr(ltl, n) for n in ("Next", "WeakNext", "Eventually", "Always", "Until", "Release", "WeakUntil", "StrongRelease")})
CLS.update({n: getattr(pltl, n) for n in ("Before", "WeakBefore", "Once", "Historically", "Since", "Triggers")})
CLS.update({n: getattr(ldl, n) for n in ("Diamond", "Box", "Prop", "Test", "Seq", "Union", "Star")})
TAG = {c: n for n, c in CLS.items()}
UNARY_TAGS = {"Not", "Next", "WeakNext", "Eventually", "Always", "Before", "WeakBefore", "Once", "Historically", "Prop", "Test", "Star"}
CONST = {
    ("PTrue", "ltl"): ltl.PropositionalTrue, ("PFalse", "ltl"): ltl.PropositionalFalse,
    ("PTrue", "pltl"): pltl.PropositionalTrue, ("PFalse", "pltl"): pltl.PropositionalFalse,
}
CONST_TAG = {c: k for k, c in CONST.items()}
ATOM_TAG = {c: k for k, c in ATOM.items()}


class Shape(Exception):
    """A real object does not have the shape of a formula."""


def const(t):
    c = CONST.get((t[0], t[1]))
    if c is not None:
        return c()
    return (base.TrueFormula if t[0] == "True" else base.FalseFormula)(logic=LOGIC[t[1]])


def leaf(t):
    if t[0] == "Atomic":
        return ATOM[t[1]](t[2])
    return const(t)


def apply(op, xs, rng=None):
    """Apply an operator of the API to real operands, in one of the equivalent ways."""
    if rng is not None and op in ("And", "Or", "Not", "Implies"):
        way = rng.random()
        if op == "Not" and way < 0.5:
            return ~xs[0]
        if op == "And" and way < 0.3 and len(xs) == 2:
            return xs[0] & xs[1]
        if op == "Or" and way < 0.3 and len(xs) == 2:
            return xs[0] | xs[1]
    return CLS[op](*xs)


def build(t, rng=None):
    """Build the formula of the literal tree t with the public constructors and operators."""
    if t[0] in ("Atomic", "True", "False", "PTrue", "PFalse"):
        return leaf(t)
    return apply(t[0], [build(c, rng) for c in t[1:]], rng)


def to_ref(f, _depth=0):
    """Read a real formula into a tuple, through its public attributes only."""
    if _depth > 400:
        raise Shape("formula nested without end")
    c = type(f)
    if c in ATOM_TAG:
        return ("Atomic", LOGIC_NAME[f.logic], f.name)
    if c in CONST_TAG:
        return (CONST_TAG[c][0], LOGIC_NAME[f.logic])
    if c is base.TrueFormula or c is base.FalseFormula:
        return ("True" if c is base.TrueFormula else "False", LOGIC_NAME.get(f.logic, str(f.logic)))
    tag = TAG.get(c)
    if tag is None:
        raise Shape("unexpected object %r of type %s" % (f, c.__name__))
    d = _depth + 1
    if tag in UNARY_TAGS:
        return (tag, to_ref(f.argument, d))
    if tag in ("Diamond", "Box"):
        return (tag, to_ref(f.regular_expression, d), to_ref(f.tail_formula, d))
    return (tag,) + tuple(to_ref(o, d) for o in f.operands)


def subformulas(f):
    yield f
    c = type(f)
    tag = TAG.get(c)
    if tag is None:
        return
    if tag in UNARY_TAGS:
        yield from subformulas(f.argument)
    elif tag in ("Diamond", "Box"):
        yield from subformulas(f.regular_expression)
        yield from subformulas(f.tail_formula)
    else:
        for o in f.operands:
            yield from subformulas(o)


def try_parse(logic, text):
    """('ok', formula) or ('err', exception)."""
    try:
        return "ok", PARSE[logic](text)
    except Exception as e:  # noqa: B902
        return "err", e
