"""C06: equality and hashing are structural congruence."""
import random

from .. import bridge as B
from .. import gen, ref

NON = [None, 0, 1, "a", "TrueFormula", (), ("a",), frozenset(), object(), type, True, 3.5, [], {}]


def real(t, way, rng):
    """A real formula for t, obtained one way or another."""
    f = B.build(t, rng)
    if way == 1:
        hash(f)
    elif way == 2:
        import copy
        f = copy.copy(f)
    elif way == 3:
        import copy
        f = copy.deepcopy(f)
    elif way == 4:
        import pickle
        hash(f)
        f = pickle.loads(pickle.dumps(f))
    elif way == 5:
        {f}
        B.reset_cache()
    return f


def judge(ctx, f, g, want, msg):
    ctx.ev("pairs equal" if want else "pairs different")
    for x, y, n in ((f, g, "=="), (g, f, "== (swapped)")):
        ctx.check((x == y) is want, "equality wrong", lambda: "%s gives %r, expected %r: %s" % (n, x == y, want, msg()))
        ctx.check((x != y) is (not want), "inequality wrong", lambda: "!= of %s" % msg())
    if want:
        ctx.check(hash(f) == hash(g), "equal formulas hash differently", msg)
    ctx.check((g in {f}) is want and (f in {g: 1}) is want, "set or dict membership wrong", msg)
    ctx.check(len({f, g}) == (1 if want else 2), "set size wrong", msg)


def case_pair(ctx, s, t, seed):
    rng = random.Random(seed)
    f, g = real(s, rng.randrange(6), rng), real(t, rng.randrange(6), rng)
    rf, rg = B.to_ref(f), B.to_ref(g)
    want = ref.key(rf) == ref.key(rg)
    if f is not g:
        ctx.distinct((s, t))
    judge(ctx, f, g, want, lambda: "%s  vs  %s" % (ref.show(rf), ref.show(rg)))
    ctx.check(f == f and hash(f) == hash(f) and not (f != f), "not reflexive", lambda: ref.show(rf))
    for o in NON:
        ctx.check(not (f == o) and f != o and not (o == f), "equal to a non-formula", lambda: "%s == %r" % (ref.show(rf), o))
    ctx.ev("non-formula comparisons", len(NON))


def case_pool(ctx, trees, seed):
    """All pairs of a pool of formulas, and a dictionary keyed by formulas against a model."""
    rng = random.Random(seed)
    fs = [real(t, rng.choice((0, 0, 1, 4)), rng) for t in trees]
    ks = [ref.key(B.to_ref(f)) for f in fs]
    for i, f in enumerate(fs):
        for j in range(i, len(fs)):
            judge(ctx, f, fs[j], ks[i] == ks[j], lambda: "%s  vs  %s" % (ref.show(B.to_ref(f)), ref.show(B.to_ref(fs[j]))))
    model, d = {}, {}
    for _ in range(3 * len(fs)):
        i = rng.randrange(len(fs))
        if rng.random() < 0.3:
            model.pop(ks[i], None)
            d.pop(fs[i], None)
        else:
            v = rng.random()
            model[ks[i]] = v
            d[fs[i]] = v
        ctx.check(len(model) == len(d) and all(d.get(fs[k]) == model.get(ks[k]) for k in range(len(fs))), "dictionary of formulas differs from the model", lambda: "pool %s" % [ref.show(t) for t in trees])
        ctx.ev("dictionary steps")
    ctx.check(len(set(fs)) == len(set(ks)), "set of formulas has the wrong size", lambda: "pool %s" % [ref.show(t) for t in trees])
    ctx.ev("pools")


def family(logic):
    """Small formulas of one logic that are easily confused with each other."""
    if logic == "ldl":
        a, b = [("Diamond", ("Prop", ("Atomic", "pl", n)), ("True", "ldl")) for n in "ab"]
    else:
        a, b = [("Atomic", logic, n) for n in ("a", "b")]
    out = [a, b, ("True", logic), ("False", logic)]
    if logic in ("ltl", "pltl"):
        out += [("PTrue", logic), ("PFalse", logic)]
    un = {"ltl": ref.LTL_UN, "pltl": ref.PLTL_UN}.get(logic, ())
    bi = {"ltl": ref.LTL_BIN, "pltl": ref.PLTL_BIN}.get(logic, ())
    for x in (a, b, ("And", a, b)):
        out += [(u, x) for u in un] + [("Not", x)]
    for o in tuple(bi) + ref.BOOL_NARY:
        out += [(o, a, b), (o, b, a), (o, a, ("Not", b))]
        if o in bi:
            out += [(o, a, a), (o, a, a, b), (o, a, b, b), (o, a, b, a), (o, a, (o, b, a)), (o, (o, a, b), a)]
    out += [("Implies", a, b, a), ("Implies", a, ("Implies", b, a)), ("Implies", ("Implies", a, b), a), ("Or", a, b, ("Not", ("And", a, b)))]
    if logic == "ldl":
        p, q = [("Prop", ("Atomic", "pl", n)) for n in "ab"]
        t = ("True", "ldl")
        res = [p, q, ("Star", p), ("Star", ("Star", p)), ("Test", t), ("Test", a), ("Seq", p, q), ("Seq", q, p), ("Seq", p, p), ("Seq", p, q, p), ("Seq", p, ("Seq", q, p)),
               ("Union", p, q), ("Union", q, p), ("Union", p, p), ("Union", p, p, q), ("Union", p, ("Union", q, p)), ("Prop", ("And", ("Atomic", "pl", "a"), ("Atomic", "pl", "b"))), ("Prop", ("True", "pl"))]
        out += res
        out += [(k, r, x) for k in ("Diamond", "Box") for r in res[:8] for x in (t, ("False", "ldl"), a)]
    return out


def run_shard(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(16000, 200000)):
        logic = rng.choice(ref.LOGICS)
        t = gen.any_tree(rng, logic, top=25)
        if rng.random() < 0.15 and logic == "ldl":
            t = gen.TreeGen(rng, "ldl").tree(gen.budget(rng, 20), "re")
        k = rng.random()
        if k < 0.35:
            u = gen.variant(rng, t)
        elif k < 0.75:
            u = gen.near_miss(rng, gen.variant(rng, t, 0.0) if rng.random() < 0.5 else t)
        elif k < 0.85 and logic in ("pl", "ltl", "pltl") and not (ref.ops(t) & (set(ref.LTL_UN + ref.LTL_BIN + ref.PLTL_UN + ref.PLTL_BIN) | {"PTrue", "PFalse"})):
            u = relogic(t, rng.choice([x for x in ("pl", "ltl", "pltl") if x != logic]))
        else:
            u = gen.any_tree(rng, logic, top=10)
        ctx.sample("%s vs %s" % (ref.show(t), ref.show(u)))
        ctx.run("pair", s=t, t=u, seed=rng.getrandbits(32))
    fam = [t for logic in ref.LOGICS for t in family(logic)]
    for i in range(0, len(fam)):
        if ctx.mine(i):
            for j in range(i, len(fam)):
                if ctx.tier == "thorough" or (i * 31 + j) % 4 == ctx.seed % 4:
                    ctx.run("pair", s=fam[i], t=fam[j], seed=i * 1000 + j)
    for _ in range(ctx.n(160, 1600)):
        logic = rng.choice(ref.LOGICS)
        g = gen.TreeGen(rng, logic, names=gen.name_pool(rng, 1, 2), repeat=0.3)
        trees = [g.tree(rng.randint(1, 7)) for _ in range(10)]
        trees += [gen.variant(rng, t) for t in trees[:3]] + [gen.near_miss(rng, t) for t in trees[3:6]]
        ctx.run("pool", trees=trees, seed=rng.getrandbits(32))


def relogic(t, logic):
    if t[0] == "Atomic":
        return ("Atomic", logic, t[2])
    if t[0] in ref.LEAVES:
        return (t[0], logic)
    return (t[0],) + tuple(relogic(c, logic) for c in t[1:])
