"""C17: conjunctions, disjunctions and negations are in normal form, operands in the order given."""
import copy
import pickle
import random

from .. import bridge as B
from .. import fol, gen, ndgen, ref

CONSTS = ("True", "False", "PTrue", "PFalse")


def dual(t):
    return ref.neg(t)


def normal(ctx, t, what):
    """Invariants of one formula, read back as a tuple."""
    for s in ref.subterms(t):
        op = s[0]
        ctx.ev("subformulas inspected")
        if op == "Not":
            ctx.ev("negations inspected")
            ctx.check(s[1][0] != "Not", "negation of a negation", lambda: "%s in %s" % (ref.show(s), what()))
            ctx.check(s[1][0] not in CONSTS, "negation of a constant", lambda: "%s in %s" % (ref.show(s), what()))
        elif op in ("And", "Or"):
            ctx.ev("conjunctions and disjunctions inspected")
            xs = s[1:]
            keys = [ref.key(x) for x in xs]
            logic = ref.logic_of(s)
            ctx.check(len(xs) >= 2, "fewer than two operands", lambda: "%s in %s" % (ref.show(s), what()))
            ctx.check(all(x[0] != op for x in xs), "nested in itself", lambda: "%s in %s" % (ref.show(s), what()))
            ctx.check(len(set(keys)) == len(keys), "equal operands", lambda: "%s in %s" % (ref.show(s), what()))
            ctx.check(not any(x in (("True", logic), ("False", logic)) for x in xs), "constant among the operands", lambda: "%s in %s" % (ref.show(s), what()))
            ctx.check(not any(ref.key(ref.neg(x)) in set(keys) for x in xs), "operand and its negation", lambda: "%s in %s" % (ref.show(s), what()))


def ordered(ctx, op, given, got, what):
    """The operands of the result are the given ones, flattened, in the order of first appearance."""
    if got[0] != op:
        return
    logic = ref.logic_of(got)
    flat = [y for x in given for y in (x[1:] if x[0] == op else (x,)) if y not in (("True", logic), ("False", logic))]
    want, seen = [], set()
    for y in flat:
        k = ref.key(y)
        if k not in seen:
            seen.add(k)
            want.append(y)
    ctx.ev("orders compared")
    ctx.check(got[1:] == tuple(want), "operands are not in the order given", lambda: "%s of (%s) is %s" % (op, ", ".join(map(ref.show, given)), ref.show(got)) + what())


def build(ctx, t, rng):
    """Build bottom up; look at every step."""
    if t[0] in ref.LEAVES:
        return B.leaf(t)
    kids = [build(ctx, c, rng) for c in t[1:]]
    f = B.apply(t[0], kids, rng)
    r = B.to_ref(f)
    if t[0] in ("And", "Or"):
        ordered(ctx, t[0], [B.to_ref(k) for k in kids], r, lambda: "")
    return f


def case_tree(ctx, logic, tree, text, seed):
    rng = random.Random(seed)
    f = build(ctx, tree, rng)
    r = B.to_ref(f)
    normal(ctx, r, lambda: ref.show(tree))
    ctx.ev("built: " + logic)
    if r != tree:
        ctx.ev("simplified")
        ctx.distinct(tree)
    g = B.PARSE[logic](text)
    normal(ctx, B.to_ref(g), lambda: repr(text))
    ctx.ev("parsed: " + logic)
    for s in B.subformulas(f):   # made again from what it reports, a formula is the same
        tag = B.TAG.get(type(s))
        if tag in ref.BOOL_NARY:
            k = type(s)(*s.operands)
            ctx.check(B.to_ref(k) == B.to_ref(s), "not a fixed point", lambda: "%s made again is %s" % (ref.show(B.to_ref(s)), ref.show(B.to_ref(k))))
            ctx.ev("formulas made again")
    # combine finished formulas, by operators of the language
    h = rng.choice((lambda: f & g, lambda: f | g, lambda: ~f, lambda: f >> g, lambda: (f & ~g) | (g & ~f), lambda: ~(f | g) & f, lambda: B.base.And(f, g, f), lambda: B.base.Or(~f, g, f)))()
    normal(ctx, B.to_ref(h), lambda: "combination of %s and %s" % (ref.show(r), ref.show(B.to_ref(g))))
    if rng.random() < 0.1:
        B.reset_cache()
        c = rng.choice((copy.copy, copy.deepcopy, lambda x: pickle.loads(pickle.dumps(x))))(f)
        k = rng.choice((lambda: c & f, lambda: c | ~f, lambda: B.base.And(f, c, g), lambda: B.base.Or(g, c, f), lambda: ~c, lambda: ~~c))()
        normal(ctx, B.to_ref(k), lambda: "combination with a copy of %s" % ref.show(r))
        ctx.ev("combinations with copies and after resets")


def case_list(ctx, op, xs, how):
    """One conjunction or disjunction over given operands."""
    ops = [B.build(x) for x in xs]
    if how == "constructor":
        f = B.CLS[op](*ops)
    elif how == "left":
        f = ops[0]
        for o in ops[1:]:
            f = f & o if op == "And" else f | o
    else:
        f = ops[-1]
        for o in reversed(ops[:-1]):
            f = o & f if op == "And" else o | f
    r = B.to_ref(f)
    normal(ctx, r, lambda: "%s(%s) %s" % (op, ", ".join(map(ref.show, xs)), how))
    if how != "right":  # there the later operands are given first
        ordered(ctx, op, [B.to_ref(o) for o in ops], r, lambda: " by %s" % how)
    ctx.ev("operand lists: " + how)


def fkey(t):
    if t[0] in ("And", "Or", "Equivalence"):
        return (t[0], frozenset(fkey(c) for c in t[1:]))
    if t[0] in ("Forall", "Exists"):
        return (t[0], t[1], fkey(t[2]))
    return t if t[0] in ("A", "P", "Bot", "Top") else (t[0],) + tuple(fkey(c) for c in t[1:])


def case_fol(ctx, seed):
    rng = random.Random(seed)
    F = ndgen.Formulas(rng, "fol")
    memo = {}
    pool = [F.raw(rng.randint(0, 2)) for _ in range(4)]
    tt, ff = B.base.TrueFormula(logic=B.Logic.FOL), B.base.FalseFormula(logic=B.Logic.FOL)
    objs = []
    for t in pool:
        try:
            objs.append(fol.mk(t, memo))
        except Exception:  # noqa: B902
            continue
    if not objs:
        return
    for _ in range(6):
        xs = [rng.choice(objs + [~o for o in objs]) for _ in range(rng.randint(2, 5))]
        if rng.random() < 0.3:
            xs.insert(rng.randint(0, len(xs)), rng.choice((tt, ff)))
        op = rng.choice((B.base.And, B.base.Or))
        f = op(*xs)
        if f in (tt, ff) or any(o in (tt, ff) for o in xs) and type(f) in (B.base.TrueFormula, B.base.FalseFormula):
            continue
        objs.append(f)
        for s in fol.subs(fol.read(f)):
            keys = [fkey(x) for x in s[1:]] if s[0] in ("And", "Or") else []
            ctx.check(len(set(keys)) == len(keys) and (not keys or len(keys) > 1), "equal operands", lambda: fol.show(s))
            if keys:
                ctx.check(not any(x[0] in (s[0], "Top", "Bot") for x in s[1:]), "operand that should be absorbed", lambda: fol.show(s))
                ctx.check(not any(x[0] == "Not" and fkey(x[1]) in keys for x in s[1:]), "operand and its negation", lambda: fol.show(s))
                ctx.ev("first-order conjunctions and disjunctions")
            if s[0] == "Not":
                ctx.check(s[1][0] not in ("Not", "Top", "Bot"), "negation of a negation or constant", lambda: fol.show(s))


def run_shard(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(30000, 400000)):
        logic = rng.choice(ref.LOGICS)
        t = gen.any_tree(rng, logic, top=30)
        ctx.sample(ref.show(t))
        ctx.run("tree", logic=logic, tree=t, text=gen.text_of(rng, logic, t), seed=rng.getrandbits(32))
    # lists over a small pool of operands, where everything that can cancel occurs
    i = 0
    for logic in ref.LOGICS:
        pool = small_pool(logic)
        for op in ("And", "Or"):
            for x in pool:
                for y in pool:
                    i += 1
                    if ctx.mine(i):
                        for how in ("constructor", "left"):
                            ctx.run("list", op=op, xs=[x, y], how=how)
        for _ in range(ctx.n(8000, 100000)):
            xs = [rng.choice(pool) for _ in range(rng.randint(3, 7))]
            ctx.run("list", op=rng.choice(("And", "Or")), xs=xs, how=rng.choice(("constructor", "left", "right")))
    for _ in range(ctx.n(1500, 20000)):
        ctx.run("fol", seed=rng.getrandbits(32))


def small_pool(logic):
    if logic == "ldl":
        a, b, c = [("Diamond", ("Prop", ("Atomic", "pl", n)), ("True", "ldl")) for n in "abc"]
    else:
        a, b, c = [("Atomic", logic, n) for n in "abc"]
    T, F = ("True", logic), ("False", logic)
    N = lambda t: ("Not", t)  # noqa: E731
    out = [a, b, c, T, F, N(a), N(b), N(T), N(N(a)), N(N(N(b)))]
    for o in ("And", "Or"):
        out += [(o, a, b), (o, b, a), (o, a, N(b)), (o, c, (o, a, b)), N((o, a, b)), (o, a, T), (o, b, F), (o, N(a), N(b)), (o, a, N(a)), N(N((o, b, c)))]
    out += [("Implies", a, b), N(("Implies", a, b)), ("Equivalence", a, b), ("Equivalence", b, a), N(("Equivalence", b, a)), ("And", ("Or", a, b), c), ("Or", ("And", a, b), c), ("And", c, ("Or", b, a))]
    if logic in ("ltl", "pltl"):
        P, Q = ("PTrue", logic), ("PFalse", logic)
        u, w = ("Next", "Eventually") if logic == "ltl" else ("Before", "Once")
        out += [P, Q, N(P), (u, a), N((u, a)), (w, N(a)), ("And", P, a), ("Or", Q, a), (u, ("And", a, b)), (u, ("And", b, a))]
    return out
