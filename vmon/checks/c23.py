"""C23: the work of every operation grows moderately with the size of its input."""
import copy
import pickle
import random

from .. import bridge as B
from .. import fol, gen, ndgen, ndquant, ndsound, ref
from ..fol import ND
from ..steps import Steps
from .c15 import deep_boxes

STEPS = Steps()
FLOOR = 20000
FACTOR = {"build": 20, "build again": 20, "negate and combine": 20, "parse": 20}   # others 1; the unchanged tree needs a tenth of it: see the events "largest share ..."
MOST = 20000000   # whatever the size; the unchanged tree needs a tenth at the sizes that are used


def allowed(what, size):
    return min(FLOOR + FACTOR.get(what, 1) * size ** 3, MOST)


def measure(ctx, what, size, fn, describe):
    limit = allowed(what, size)
    n, r = STEPS.count(limit, fn)
    ctx.ev("operations measured: " + what)
    ctx.ev("steps observed", n)
    ctx.peak("largest share of the bound, in thousandths: " + what, int(1000 * n / limit))
    return r if ctx.check(n <= limit, "work grows too fast: " + what, lambda: "more than %d steps for an input of size %d: %s" % (limit, size, describe())) else None


def layered(logic, sub, context, path, n, names):
    """The context put into itself n times, with other names of symbols on each layer if names are given."""
    t = context
    for k in range(n):
        c = context
        if names:
            for p, s in list(gen.positions(c)):
                if s[0] == "Atomic" and p != path:
                    c = gen.replace_at(c, p, s[:2] + ("%s%d" % (s[2].strip('"').lower() if s[2][0] != '"' else "q", k),)) if (hash_free(s[2]) + k) % names == 0 else c
        t = gen.replace_at(c, path, t)
    return t


def hash_free(s):
    return sum(map(ord, s))


def case_formula(ctx, logic, context, path, n, names, seed):
    operations(ctx, logic, layered(logic, None, context, path, n, names), seed, "%d layers of %s" % (n, ref.show(context)[:200]))


def case_wide(ctx, logic, tree, seed):
    operations(ctx, logic, tree, seed, "%s of %d" % (tree[0], len(tree) - 1))


def operations(ctx, logic, t, seed, text):
    rng = random.Random(seed)
    size = ref.size(t)
    ctx.distinct(t)
    ctx.ev("nodes", size)
    describe = lambda: "%s formula, %s" % (logic, text)  # noqa: E731
    B.reset_cache()
    f = measure(ctx, "build", size, lambda: B.build(t, rng), describe)
    if f is None:
        return
    g = measure(ctx, "build again", size, lambda: B.build(t, rng), describe)
    if rng.random() < 0.5:
        B.reset_cache()
    m = gen.near_miss(rng, t)
    other = measure(ctx, "build again", size, lambda: B.build(m, rng), describe)
    if g is None or other is None:
        return
    measure(ctx, "compare", size, lambda: (f == g, f == other, g != f), describe)
    measure(ctx, "hash", size, lambda: (hash(f), {f, g, other}), describe)
    if B.LOGIC_NAME[f.logic] != "re":
        s = measure(ctx, "print", size, lambda: B.to_string(f), describe)
        measure(ctx, "display", size, lambda: (str(f), repr(f)), describe)
        if s is not None:
            measure(ctx, "parse", size, lambda: B.PARSE[logic](s), describe)
    if logic == "pl":
        ns = sorted(ref.names(t))
        for _ in range(4):
            p = rng.choice((0, 0.2, 0.5, 0.8, 1))
            i = {x for x in ns if rng.random() < p}
            measure(ctx, "evaluate", size, lambda: B.evaluate_pl(f, i), describe)
    measure(ctx, "negate and combine", size, lambda: (~f, f & g, f | other, f >> g, B.base.Equivalence(f, other)) if logic != "re" and f.logic != B.Logic.RE else B.ldl.Star(f), describe)
    if rng.random() < 0.3:
        measure(ctx, "copy", size, lambda: (copy.copy(f), copy.deepcopy(f), pickle.loads(pickle.dumps(f))), describe)


def weight(items):
    def term(t):
        return 1 + sum(term(u) for u in t[2:]) if t[0] == "F" else 1

    def formula(f):
        if f[0] == "P":
            return 1 + sum(term(t) for t in f[2:])
        if f[0] in ("Forall", "Exists"):
            return 2 + formula(f[2])
        return 1 if f[0] in ("A", "Bot", "Top") else 1 + sum(formula(g) for g in f[1:])
    return sum(1 + formula(i[2]) for i in fol.lines_of(items)) + sum(1 for _, i in ndsound.positions(items) if i[0] == "B")


def case_proof(ctx, items, how, seed):
    rng = random.Random(seed)
    items = list(items)
    size = weight(items)
    ctx.distinct(fol.show_items(items))
    describe = lambda: "%s proof\n%s" % (how, fol.show_items(items)[:1500])  # noqa: E731
    try:
        proof = fol.proof_of(items, {} if rng.random() < 0.5 else None)[0]
    except Exception:  # noqa: B902
        ctx.ev("proofs that cannot be built")
        return
    v = measure(ctx, "check", size, lambda: ND.check(proof), describe)
    ctx.ev("verdict %s" % v)
    ctx.ev("proofs: " + how)


# --- families of proofs

def quantified(n):
    """n boxes with terms inside each other, and as many generalisations."""
    items = [("L", 1, ("P", "P", ("C", "c")), "premise", ())]
    f = ("P", "P", ("C", "c"))

    def box(k):
        row = 10 + k
        if k == n:
            return ("B", row, ("C", "t%d" % k), [("L", row, f, "copy", (1,))]), f
        inner, g = box(k + 1)
        h = ("Forall", "x%d" % (k + 1), g)
        return ("B", row, ("C", "t%d" % k), [inner, ("L", 1000 + k, h, "forall_i", (inner[1],))]), h
    b, g = box(0)
    return items + [b, ("L", 2000, ("Forall", "x0", g), "forall_i", (b[1],))]


def peeled(rng, n, depth):
    """A formula with n quantifiers, taken off one by one."""
    f = ("P", "P") + tuple(("V", "x%d" % i) for i in range(n))
    for i in reversed(range(n)):
        f = ("Forall", "x%d" % i, f)
    items = [("L", 0, f, "premise", ())]
    for i in range(n):
        t = ("C", "c%d" % i)
        for _ in range(depth):
            t = ("F", "f", t)
        f = fol.subst(f[2], "x%d" % i, t)
        items.append(("L", i + 1, f, "forall_e", (i,)))
    for i in range(n):
        items.append(("L", n + 1 + i, ("Exists", "z%d" % i, items[-1][2]), "exists_i", (n + i,)))
    return items


def deep_term(n, right):
    t, u = ("V", "x"), ("C", "k")
    for i in range(n):
        t, u = ("F", "f", t, ("C", "c%d" % (i % 3))), ("F", "f", u, ("C", "c%d" % (i % 3)))
    if not right:
        u = ("F", "g", u)
    return [("L", 1, ("Forall", "x", ("P", "P", t, ("V", "x"))), "premise", ()), ("L", 2, ("P", "P", u, ("C", "k")), "forall_e", (1,)), ("L", 3, ("Exists", "x", ("P", "P", t, ("V", "x"))), "exists_i", (2,))]


def siblings(rng, kind, n):
    a, b = (("A", "a"), ("A", "b")) if kind == "pl" else (("P", "P", ("C", "k")), ("P", "Q"))
    items = [("L", 0, b, "premise", ())]
    for i in range(n):
        t = ("C", "t%d" % i) if kind == "fol" and i % 2 else None
        items.append(("B", "b%d" % i, t, [("L", "b%d" % i, a, "assumption", ()), ("L", "l%d" % i, b, "copy", (0,))]))
        if t is None:
            items.append(("L", "i%d" % i, fol.imp(a, b), "impl_i", ("b%d" % i,)))
    return items


def deep_formula(rng, kind, n):
    """A few lines over deep formulas."""
    F = ndgen.Formulas(rng, kind)
    bottom = kind == "fol" and rng.random() < 0.7    # something to replace at the very bottom
    f = ("P", "B", ("V", "v")) if bottom else F(0)
    for i in range(n):
        k = rng.random()
        g = ("A", rng.choice("abcd")) if kind == "pl" else ("P", "Q%d" % i)
        if kind == "fol" and k < 0.3:
            f = (rng.choice(("Forall", "Exists")), "x%d" % i, f)
        else:
            f = rng.choice((("And", g, f), ("And", f, g), ("Or", g, f), ("Or", f, g), fol.imp(g, f), fol.imp(f, g), ("Implies", f, g), ("Implies", g, f)))
    q = ("A", "e") if kind == "pl" else ("P", "Last")
    items = [("L", 1, f, "premise", ()), ("L", 2, q, "premise", ()), ("L", 3, ("And", f, q), "and_i", (1, 2)), ("L", 4, f, "and_e1", (3,)), ("L", 5, ("Or", f, q), "or_i1", (4,)),
             ("L", 6, fol.imp(f, q), "premise", ()), ("L", 7, q, "impl_e", (1, 6)),
             ("B", 8, None, [("L", 8, f, "assumption", ()), ("L", 9, q, "impl_e", (8, 6))]), ("B", 10, None, [("L", 10, q, "assumption", ())]), ("L", 11, q, "or_e", (5, 8, 10))]
    if kind == "fol":
        def at(name):
            return fol.subst(f, "v", ("C", name))
        items += [("L", 12, ("Forall", "v", f), "premise", ()), ("L", 13, at("k"), "forall_e", (12,)), ("L", 14, ("Exists", "v", f), "exists_i", (13,)), ("B", 15, ("C", "t"), [("L", 15, at("t"), "forall_e", (12,))]), ("L", 16, ("Forall", "v", f), "forall_i", (15,)),
                  ("B", 17, ("C", "t2"), [("L", 17, at("t2"), "assumption", ()), ("L", 18, q, "copy", (2,))]), ("L", 19, q, "exists_e", (14, 17))]
    return items


def make_proof(rng):
    kind = rng.choice(("pl", "fol"))
    n = rng.choice((16, 20, 26, 32))
    how = rng.choice(("long", "deep boxes", "nested quantifier boxes", "quantifiers taken off", "deep terms", "many boxes", "deep formulas", "deep formulas", "stretched mutants"))
    if how == "long":
        items, _ = ndgen.derivation(rng, kind, steps=rng.choice((20, 60, 120)), depth=rng.choice((2, 6)))
    elif how == "deep boxes":
        items = deep_boxes(rng, kind, n)
    elif how == "nested quantifier boxes":
        items = quantified(n)
    elif how == "quantifiers taken off":
        items = peeled(rng, rng.choice((6, 10, 16, 20)), rng.choice((0, 0, 3)))
    elif how == "deep terms":
        items = deep_term(n + 10, rng.random() < 0.6)
    elif how == "many boxes":
        items = siblings(rng, kind, n + 20)
    elif how == "deep formulas":
        items = deep_formula(rng, kind, n)
    else:
        items = ndgen.derivation(rng, kind, steps=10, depth=3)[0] if kind == "pl" else ndquant.pattern(rng, rng.choice(ndquant.SLIPS)) or siblings(rng, kind, 5)
        items = ndsound.stretched(rng, kind, ndsound.mutate(rng, kind, items))
    if rng.random() < 0.2 and items[-1][0] == "L":   # and something wrong at the end
        items = items[:-1] + [items[-1][:2] + (("A", "d") if kind == "pl" else ("P", "Wrong"),) + items[-1][3:]]
    return items, how


def run_shard(ctx):
    rng = ctx.rng
    ctx.max_failures = 10   # each one may take its time
    for _ in range(ctx.n(1600, 20000)):
        logic = rng.choice(ref.LOGICS)
        for _ in range(50):
            c = gen.TreeGen(rng, logic, names=["a", "b", "c", "d"], const=0.03).tree(rng.randint(2, 6), "re" if logic == "ldl" and rng.random() < 0.2 else None)
            ps = [p for p, s in gen.positions(c) if p and ref.logic_of(s) == ref.logic_of(c)]
            if ps:
                break
        else:
            continue
        p = rng.choice(ps)
        n = rng.choice((10, 14, 18, 18, 25, 25, 32))
        ctx.sample("%d layers of %s" % (n, ref.show(c)))
        ctx.run("formula", logic=logic, context=c, path=p, n=n, names=rng.choice((0, 1, 1, 2)), seed=rng.getrandbits(32))
    for _ in range(ctx.n(250, 3000)):
        logic = rng.choice(ref.LOGICS)
        bi = {"pl": (), "ltl": ref.LTL_BIN, "pltl": ref.PLTL_BIN, "ldl": ()}[logic]
        ctx.run("wide", logic=logic, tree=gen.wide_tree(rng, logic, rng.choice(ref.BOOL_NARY + bi), rng.choice((10, 30, 60, 120))), seed=rng.getrandbits(32))
    for _ in range(ctx.n(1200, 15000)):
        items, how = make_proof(rng)
        if ndsound.usable(items):
            ctx.run("proof", items=items, how=how, seed=rng.getrandbits(32))
