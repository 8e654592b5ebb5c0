"""C26: the display forms of a formula tell it apart from every other one."""
import copy
import pickle
import random

from .. import bridge as B
from .. import gen, ref
from .c06 import family, relogic

POOLS = (
    ("a", "b", "ab", "ba", "aa", "a_b", "abb"),
    ('"a b"', "a", "b", '"a"', '"b"', '"(a b)"', '"a) (b"', '"and a b"', '")"', '"("', '", "', '"a, b"'),
    ("and", "or", "not", "implies", "equivalence", "next", "until", "weak_next", "strong_release", "always", "before", "since"),
    ("p", "q", "r", "s", "t", "x", "y", "x1", "x_1", "x-1"),
)
BY_ADDRESS = {"Diamond", "Box"}


def shape(t):
    """What str() shows: everything in its order; `ff` and `false` look alike."""
    if t[0] == "PFalse":
        return ("False", t[1])
    return t if t[0] in ref.LEAVES else (t[0],) + tuple(shape(c) for c in t[1:])


def case_pool(ctx, trees, seed):
    rng = random.Random(seed)
    fs = [B.build(t, rng) for t in trees]
    rs = [B.to_ref(f) for f in fs]
    shown, written = {}, {}
    for i, (f, r) in enumerate(zip(fs, rs)):
        s, w = str(f), repr(f)
        ctx.check(type(s) is str and type(w) is str and s and w, "not a display form", lambda: "%s: %r, %r" % (ref.show(r), s, w))
        ctx.check("%s" % f == s and format(f) == s and str(f) == s and repr(f) == w and "%r" % f == w, "display form not stable", lambda: "%s: %r and %r" % (ref.show(r), s, str(f)))
        shown.setdefault((ref.logic_of(r), s), []).append(i)
        written.setdefault(w, []).append(i)
        ctx.ev("formulas displayed: " + ref.logic_of(r))
        if len(r) > 2 or r[0] not in ref.LEAVES:
            ctx.distinct(r)
        if rng.random() < 0.1 and not ref.ops(r) & BY_ADDRESS:
            for c in (copy.copy(f), copy.deepcopy(f), pickle.loads(pickle.dumps(f))):
                ctx.check(str(c) == s, "a copy is displayed otherwise", lambda: "%s: %r and %r" % (ref.show(r), s, str(c)))
                ctx.ev("copies displayed")
    for (logic, s), group in shown.items():
        for i in group[1:]:
            ctx.check(shape(rs[i]) == shape(rs[group[0]]), "displayed alike", lambda: "%s and %s are both displayed as %r" % (ref.show(rs[group[0]]), ref.show(rs[i]), s))
            ctx.ev("displayed alike")
    for w, group in written.items():
        for i in group[1:]:
            ctx.check(ref.key(rs[i]) == ref.key(rs[group[0]]), "represented alike", lambda: "%s and %s are both represented as %r" % (ref.show(rs[group[0]]), ref.show(rs[i]), w))
            ctx.ev("represented alike")
    shapes = {}
    for i, r in enumerate(rs):
        if not ref.ops(r) & BY_ADDRESS:
            shapes.setdefault(shape(r), []).append(i)
    for group in shapes.values():
        for i in group[1:]:
            ctx.check(str(fs[i]) == str(fs[group[0]]), "the same formula displayed in two ways", lambda: "%s is displayed as %r and %r" % (ref.show(rs[i]), str(fs[group[0]]), str(fs[i])))
            ctx.ev("the same formula again")
    ctx.ev("forms compared", len(shown))


def regroup(rng, t):
    """The same words in the same order, bracketed otherwise; t itself if there is no way."""
    spots = []

    def walk(t, path):
        if t[0] in ref.LEAVES:
            return
        n = len(t)
        for i, c in enumerate(t[1:], 1):
            if c[0] not in ref.LEAVES:
                if n > 2 and len(c) > 2:          # its operands beside it, or what stands beside it in it
                    spots.append((path, t[:i] + c[1:] + t[i + 1:]))
                    if i + 1 < n:
                        spots.append((path, t[:i] + (c + (t[i + 1],),) + t[i + 2:]))
                    if len(c) > 3:
                        spots.append((path, t[:i] + (c[:-1], c[-1]) + t[i + 1:]))
                if len(c) == 2 and n > 2:         # (o (u x) y) and (u (o x y))
                    spots.append((path, (c[0], t[:i] + (c[1],) + t[i + 1:])))
                if n == 2 and len(c) > 2:
                    spots.append((path, (c[0], (t[0], c[1])) + c[2:]))
                    spots.append((path, (c[0],) + c[1:-1] + ((t[0], c[-1]),)))
                if n == 2 and len(c) == 2:
                    spots.append((path, (c[0], (t[0], c[1]))))
            walk(c, path + (i,))
    walk(t, ())
    if not spots:
        return t

    path, new = rng.choice(spots)
    return gen.replace_at(t, path, new)


def buildable(t):
    try:
        B.build(t)
        return True
    except Exception:  # noqa: B902 - regrouping can mix up sorts
        return False


def pairs_of(logic):
    """All operators over all operators, bracketed in all ways."""
    if logic == "ldl":
        a, b, c = [("Prop", ("Atomic", "pl", n)) for n in "abc"]
        un, bi = ("Star",), ("Seq", "Union")
    else:
        a, b, c = [("Atomic", logic, n) for n in "abc"]
        un = {"ltl": ref.LTL_UN, "pltl": ref.PLTL_UN}.get(logic, ()) + ("Not",)
        bi = {"ltl": ref.LTL_BIN, "pltl": ref.PLTL_BIN}.get(logic, ()) + ref.BOOL_NARY
    out = []
    for o in bi:
        out += [(o, a, b), (o, b, a), (o, a, b, c), (o, a, c, b)]
        for p in bi:
            out += [(o, (p, a, b), c), (o, a, (p, b, c)), (o, (p, a, b), (p, b, c)), (o, (p, a, b, c), a), (o, a, (p, b, c, a))]
        for u in un:
            out += [(u, (o, a, b)), (o, (u, a), b), (o, a, (u, b)), (o, (u, a), (u, b))]
    for u in un:
        out += [(u, a)] + [(u, (v, a)) for v in un]
    return out


def run_shard(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(1200, 16000)):
        logic = rng.choice(ref.LOGICS)
        g = gen.TreeGen(rng, logic, names=rng.choice(POOLS) if rng.random() < 0.6 else gen.name_pool(rng, 1, 4), repeat=0.4)
        trees = []
        for _ in range(4):
            sort = "re" if logic == "ldl" and rng.random() < 0.5 else None
            trees.append(g.tree(gen.budget(rng, 25), sort) if sort else g.tree(gen.budget(rng, 25)))
        for t in list(trees):
            trees += [gen.variant(rng, t), gen.near_miss(rng, t), gen.near_miss(rng, t)]
            u = regroup(rng, t)
            if u != t and buildable(u):
                trees.append(u)
                ctx.ev("bracketed otherwise")
                u = regroup(rng, u)
                if buildable(u):
                    trees.append(u)
            if logic in ("pl", "ltl", "pltl") and not (ref.ops(t) & (set(ref.LTL_UN + ref.LTL_BIN + ref.PLTL_UN + ref.PLTL_BIN) | {"PTrue", "PFalse"})):
                trees.append(relogic(t, rng.choice([x for x in ("pl", "ltl", "pltl") if x != logic])))
        trees += rng.sample(trees, 2)
        ctx.sample(ref.show(trees[0]))
        ctx.run("pool", trees=trees, seed=rng.getrandbits(32))
    for k, logic in enumerate(ref.LOGICS):
        if ctx.mine(k):
            ctx.run("pool", trees=family(logic), seed=k)
            ctx.run("pool", trees=pairs_of(logic), seed=k)
            ctx.ev("operator pairs", len(pairs_of(logic)))
    for k in range(ctx.n(16, 160)):
        logic = rng.choice(("pl", "ltl", "pltl"))
        t = rng.choice((gen.wide_tree(rng, logic, rng.choice(ref.BOOL_NARY), gen.some_width(rng)), gen.chain_tree(rng, logic, gen.some_depth(rng) // 2)))
        trees = [t, gen.variant(rng, t, 0.02)] + [gen.near_miss(rng, t) for _ in range(6)]
        ctx.run("pool", trees=trees, seed=rng.getrandbits(32))
        ctx.ev("large formulas")
