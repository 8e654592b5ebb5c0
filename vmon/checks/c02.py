"""C02: building preserves meaning, in the four logics, however the formula is built."""
import random

from .. import bridge as B
from .. import gen, ref
from .common import KF_EQ, same_meaning, sem_points


def case_build(ctx, tree, logic, seed):
    rng = random.Random(seed)
    f = B.build(tree, rng)
    got = B.to_ref(f)
    points = sem_points(rng, logic, ref.names(tree))
    ctx.ev("formulas compared: " + logic)
    if got != tree:
        ctx.ev("simplified on the way")
        ctx.distinct(tree)
    same_meaning(ctx, tree, got, logic, points, "meaning changed by construction", lambda: "built %s, obtained %s" % (ref.show(tree), ref.show(got)))


def case_text(ctx, tree, logic, text, seed):
    rng = random.Random(seed)
    got = B.to_ref(B.PARSE[logic](text))
    points = sem_points(rng, logic, ref.names(tree))
    ctx.ev("texts compared: " + logic)
    same_meaning(ctx, tree, got, logic, points, "meaning changed by parsing", lambda: "parsed %r, obtained %s" % (text, ref.show(got)))


def case_step(ctx, op, operands, logic, seed):
    """One operator over operands that are themselves already built (from an arbitrary past)."""
    rng = random.Random(seed)
    xs = [B.build(t, rng) for t in operands]
    want = (op,) + tuple(B.to_ref(x) for x in xs)
    ways = [("constructor", lambda: B.CLS[op](*xs))]
    if op == "And" and len(xs) == 2:
        ways.append(("&", lambda: xs[0] & xs[1]))
    if op == "Or" and len(xs) == 2:
        ways.append(("|", lambda: xs[0] | xs[1]))
    if op == "Not":
        ways.append(("~", lambda: ~xs[0]))
    if op == "Implies" and len(xs) == 2:
        ways.append((">>", lambda: xs[0] >> xs[1]))
    points = sem_points(rng, logic, ref.names(want), n_traces=6)
    for way, mk in ways:
        got = B.to_ref(mk())
        ctx.ev("single steps: %s" % op)
        if got != want:
            ctx.ev("simplified on the way")
            ctx.distinct((op, want))
        same_meaning(ctx, want, got, logic, points, "meaning changed by " + way, lambda: "%s of %s gave %s" % (op, [ref.show(x) for x in want[1:]], ref.show(got)))


def pool(logic):
    if logic == "ldl":
        a = ("Diamond", ("Prop", ("Atomic", "pl", "a")), ("True", "ldl"))
        b = ("Box", ("Prop", ("Atomic", "pl", "b")), ("False", "ldl"))
    else:
        a, b = ("Atomic", logic, "a"), ("Atomic", logic, "b")
    out = [a, b, ("Not", a), ("Not", b), ("True", logic), ("False", logic), ("And", a, b), ("Or", a, b), ("Or", b, ("Not", a)),
           ("Not", ("And", b, a)), ("Implies", a, b), ("Equivalence", a, b)]
    if logic in ("ltl", "pltl"):
        out += [("PTrue", logic), ("PFalse", logic)]
    return out


def run_shard(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(9000, 120000)):
        logic = rng.choice(ref.LOGICS)
        t = gen.any_tree(rng, logic)
        ctx.sample("%s: %s" % (logic, ref.show(t)))
        ctx.run("build", tree=t, logic=logic, seed=rng.getrandbits(32))
    for _ in range(ctx.n(2400, 30000)):
        logic = rng.choice(ref.LOGICS)
        t = gen.any_tree(rng, logic, top=25)
        ctx.run("text", tree=t, logic=logic, text=gen.text_of(rng, logic, t), seed=rng.getrandbits(32))
    # every connective over every list of one to three operands of a fixed pool (sampled when quick)
    i = 0
    for logic in ref.LOGICS:
        p = pool(logic)
        for op in ref.BOOL_NARY:
            for x in p:
                for y in p:
                    for z in p + [None]:
                        i += 1
                        if ctx.mine(i) and (ctx.tier == "thorough" or (z is None) or i % 4 == ctx.seed % 4):
                            ctx.run("step", op=op, operands=[x, y] + ([z] if z else []), logic=logic, seed=i)
        for x in p:
            i += 1
            if ctx.mine(i):
                ctx.run("step", op="Not", operands=[x], logic=logic, seed=i)
    # wide operators over random operands of one pool
    for _ in range(ctx.n(3000, 40000)):
        logic = rng.choice(ref.LOGICS)
        g = gen.TreeGen(rng, logic, names=gen.name_pool(rng, 2, 4))
        past = pool(logic) if rng.random() < 0.4 else []
        xs = [rng.choice(past) if past and rng.random() < 0.5 else g.tree(rng.randint(1, 6)) for _ in range(rng.randint(2, 8))]
        ctx.run("step", op=rng.choice(ref.BOOL_NARY), operands=xs, logic=logic, seed=rng.getrandbits(32))
    if ctx.shard == 0:
        a = ("Atomic", "pl", "a")
        ctx.run("build", tree=("Equivalence", a, a), logic="pl", seed=1)
