"""C19: operations refuse what they do not support."""
import collections
import random
import types

from .. import bridge as B
from .. import fol, gen, ndgen, ref


def outcome(fn):
    try:
        return "value", fn()
    except B.PylogicsError as e:
        return "PylogicsError", e
    except Exception as e:  # noqa: B902
        return type(e).__name__, e


def has_const(t):
    """Is there a constant that evaluation can meet before it meets a modality?"""
    return t[0] in ref.DUAL or (t[0] in ref.BOOL_NARY + ("Not",) and any(has_const(c) for c in t[1:]))


def interps(rng, names):
    s = {n for n in names if rng.random() < 0.5}
    return rng.choice((set(s), {n: n in s for n in names}, {}, set(), dict.fromkeys(names, True), dict.fromkeys(names, False), set(names)))


def case_evaluate(ctx, tree, seed):
    """A formula of another logic, without logical constants: something of it has to be looked at."""
    rng = random.Random(seed)
    f = B.build(tree, rng)
    r = B.to_ref(f)
    if has_const(r):
        return
    names = sorted(ref.names(r)) or ["a"]
    for _ in range(3):
        i = interps(rng, names)
        st, v = outcome(lambda: B.evaluate_pl(f, i))
        ctx.ev("evaluations refused: " + ref.logic_of(r))
        ctx.check(st == "PylogicsError", "evaluation of a non-propositional formula", lambda: "evaluate_pl(%s, %r): %s %r" % (ref.show(r), i, st, v))
    ctx.distinct(r)


def case_fol(ctx, seed):
    rng = random.Random(seed)
    F = ndgen.Formulas(rng, "fol")
    f = fol.mk(F(3), {} if rng.random() < 0.5 else None)
    if rng.random() < 0.3:
        f = rng.choice((lambda: B.base.Implies(f, fol.mk(F(1))), lambda: B.base.Equivalence(fol.mk(F(1)), f), lambda: B.base.And(f, B.fol.Predicate("P")), lambda: ~f))()
    st, v = outcome(lambda: B.to_string(f))
    ctx.ev("first-order formulas not printed")
    ctx.check(st == "PylogicsError", "string conversion of a first-order formula", lambda: "%s: %s %r" % (f, st, v))
    for i in (set(), {"P"}, {}, {"P": True, "Q": True}, {str(f)}):
        st, v = outcome(lambda: B.evaluate_pl(f, i))
        ctx.ev("evaluations refused: fol")
        ctx.check(st == "PylogicsError", "evaluation of a first-order formula", lambda: "evaluate_pl(%s, %r): %s %r" % (f, i, st, v))
    ctx.distinct(fol.show(fol.read(f)))


class Lookup:
    def __contains__(self, x):
        return True

    def __getitem__(self, x):
        return True

    def get(self, *a):
        return True


def strange(rng, names):
    ns = [n for n in names if rng.random() < 0.7]
    return {
        "list": list(ns), "tuple": tuple(ns), "string": "".join(names), "None": None, "int": 1, "bool": True, "generator": (n for n in ns),
        "function": lambda n: True, "keys": dict.fromkeys(ns).keys(), "items": dict.fromkeys(ns, True).items(), "mapping proxy": types.MappingProxyType(dict.fromkeys(ns, True)),
        "user dict": collections.UserDict(dict.fromkeys(ns, True)), "deque": collections.deque(ns), "object": object(), "look-alike": Lookup(), "bytes": b"a", "class": dict, "formula": B.pl.Atomic("a"), "range": range(3), "zero": 0, "empty string": "", "empty tuple": (), "empty list": [],
    }


def case_interpretation(ctx, tree, seed):
    """An interpretation that is neither a set nor a dictionary, under a formula all of whose leaves are symbols."""
    rng = random.Random(seed)
    f = B.build(tree, rng)
    r = B.to_ref(f)
    if any(s[0] in ("True", "False") for s in ref.subterms(r)):
        return
    for name, i in strange(rng, sorted(ref.names(r))).items():
        st, v = outcome(lambda: B.evaluate_pl(f, i))
        ctx.ev("interpretations refused: " + name)
        ctx.check(st != "value", "strange interpretation accepted", lambda: "evaluate_pl(%s, %s): %r" % (ref.show(r), name, v))


def case_mixed(ctx, seed):
    """The documented library error, for every kind of formula, with and without negation."""
    rng = random.Random(seed)
    a, b = (B.ltl.Atomic(n) for n in "ab")
    p, q = (B.pltl.Atomic(n) for n in "ab")
    re = B.ldl.Prop(B.pl.Atomic("a"))
    tail = B.base.TrueFormula(logic=B.Logic.LDL)
    forms = [a, p, B.ldl.Diamond(re, tail), B.ldl.Box(re, tail), B.ldl.End(), B.ldl.Last(), B.ltl.Last(), B.pltl.Start(), re, B.ldl.Star(re), B.ldl.Test(tail), B.ldl.Seq(re, B.ldl.Star(re)), B.ldl.Union(re, B.ldl.Star(re))]
    forms += [B.CLS[o](a) for o in ref.LTL_UN] + [B.CLS[o](a, b) for o in ref.LTL_BIN] + [B.CLS[o](p) for o in ref.PLTL_UN] + [B.CLS[o](p, q) for o in ref.PLTL_BIN]
    for f in forms:
        for g in [f] + ([~f, B.base.Implies(f, ~f), B.base.Equivalence(f, ~f)] if f.logic != B.Logic.RE else []):
            if type(g) in (B.base.TrueFormula, B.base.FalseFormula):
                continue
            i = rng.choice((set(), {"a"}, {"a": True, "b": False}, {}))
            st, v = outcome(lambda: B.evaluate_pl(g, i))
            ctx.ev("operators refused")
            ctx.check(st == "PylogicsError", "evaluation of a non-propositional formula", lambda: "evaluate_pl(%r, %r): %s %r" % (g, i, st, v))


def run_shard(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(24000, 300000)):
        logic = rng.choice(("ltl", "pltl", "ldl"))
        t = gen.TreeGen(rng, logic, const=0.0).tree(gen.budget(rng, 25)) if rng.random() < 0.7 else gen.any_tree(rng, logic, top=20)
        ctx.sample(ref.show(t))
        ctx.run("evaluate", tree=t, seed=rng.getrandbits(32))
    for _ in range(ctx.n(4000, 60000)):
        ctx.run("fol", seed=rng.getrandbits(32))
    for _ in range(ctx.n(6000, 80000)):
        ctx.run("interpretation", tree=gen.TreeGen(rng, "pl", const=0.0).tree(gen.budget(rng, 20)), seed=rng.getrandbits(32))
    for _ in range(ctx.n(80, 400)):
        ctx.run("mixed", seed=rng.getrandbits(32))
