"""C01: evaluate_pl(parse_pl(text), I) is the classical truth value."""
from .. import bridge as B
from .. import gen, ref, refparse
from .common import KF_EQ, interps_of


def expected(ctx, t, interps):
    tab = ref.PLTable(interps)
    classical = tab.eval(t)
    collapsed = tab.eval(ref.collapse_equiv(t)) if ref.has_repeated_equiv(t) else classical
    return classical, collapsed


def judge(ctx, got, classical, collapsed, i, what):
    want = bool(classical >> i & 1)
    ctx.ev("evaluations compared")
    if bool(got) == want:
        return
    if bool(got) == bool(collapsed >> i & 1):
        ctx.known(KF_EQ, what())
    else:
        ctx.fail("wrong truth value", what())


def forms(rng, s, ns):
    """The same interpretation in its different forms."""
    extra = [n for n in ("zz_irrelevant", "\"un used\"", "Not A Symbol", "b-") if n not in ns]
    yield "set", set(s)
    yield "dict", {n: n in s for n in ns}
    k = rng.random()
    if k < 0.3:
        yield "partial dict", {n: True for n in s}
    elif k < 0.5:
        yield "set with irrelevant symbols", set(s) | set(extra)
    elif k < 0.7:
        d = {n: rng.random() < 0.5 for n in extra}
        d.update({n: n in s for n in ns if n in s or rng.random() < 0.5})
        yield "dict with irrelevant symbols", d


def case_text(ctx, text, tree, seed):
    import random
    rng = random.Random(seed)
    if refparse.parse("pl", text) != tree:
        raise AssertionError("reference parser disagrees with the generator")
    f = B.parse_pl(text)
    g = B.build(tree, rng)
    ns = sorted(ref.names(tree))
    interps = interps_of(rng, ns)
    rng.shuffle(interps)
    classical, collapsed = expected(ctx, tree, interps)
    if classical not in (0, (1 << len(interps)) - 1):
        ctx.ev("contingent formulas")
        ctx.distinct(tree)
    for i, s in enumerate(interps):
        for form, interp in forms(rng, s, ns):
            got = B.evaluate_pl(f, interp)
            judge(ctx, got, classical, collapsed, i, lambda: "evaluate_pl(parse_pl(%r), %s %r) = %r, classically %s" % (text, form, interp, got, bool(classical >> i & 1)))
            ctx.ev("form: " + form)
        got = B.evaluate_pl(g, set(s))
        judge(ctx, got, classical, collapsed, i, lambda: "evaluate_pl(%r built by constructors, %r) = %r" % (ref.show(tree), set(s), got))
    ctx.ev("formulas")


def case_history(ctx, texts, seed):
    """Many evaluations interleaved, over interpretations that are changed in place."""
    import random
    rng = random.Random(seed)
    trees = [refparse.parse("pl", t) for t in texts]
    fs = [B.parse_pl(t) for t in texts]
    ns = sorted(set().union(*[ref.names(t) for t in trees]))
    d, s = {}, set()
    for step in range(40):
        if rng.random() < 0.6 and ns:
            n = rng.choice(ns)
            if rng.random() < 0.3:
                d.pop(n, None)
            else:
                d[n] = rng.random() < 0.5
            if rng.random() < 0.5:
                s.symmetric_difference_update({n})
        if rng.random() < 0.05:
            B.reset_cache()
        i = rng.randrange(len(fs))
        use_set = rng.random() < 0.5
        cur = frozenset(s) if use_set else frozenset(k for k, v in d.items() if v)
        got = B.evaluate_pl(fs[i], s if use_set else d)
        classical, collapsed = expected(ctx, trees[i], [cur])
        ctx.ev("evaluations in histories")
        judge(ctx, got, classical, collapsed, 0, lambda: "step %d: evaluate_pl(parse_pl(%r), %r) = %r" % (step, texts[i], sorted(cur), got))


def run_shard(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(4200, 60000)):
        t = gen.any_tree(rng, "pl", top=rng.choice((12, 25, 45)))
        text = gen.text_of(rng, "pl", t, extra=rng.choice((0.0, 0.1, 0.4)))
        ctx.sample(text)
        ctx.run("text", text=text, tree=t, seed=rng.getrandbits(32))
    # all trees of two operators over two symbols and the constants
    leaves = [("Atomic", "pl", "a"), ("Atomic", "pl", "b"), ("True", "pl"), ("False", "pl"), ("Not", ("Atomic", "pl", "a"))]
    i = 0
    for o1 in ref.BOOL_NARY:
        for o2 in ref.BOOL_NARY:
            for x in leaves:
                for y in leaves:
                    for z in leaves:
                        for t in ((o1, x, (o2, y, z)), (o1, (o2, x, y), z), (o1, x, y, z)):
                            i += 1
                            if ctx.mine(i) and (ctx.tier == "thorough" or i % 3 == ctx.seed % 3):
                                ctx.run("text", text=gen.text_of(rng, "pl", t), tree=t, seed=i)
    for _ in range(ctx.n(500, 6000)):
        g = gen.TreeGen(rng, "pl", names=gen.name_pool(rng, 2, 4))
        texts = [gen.text_of(rng, "pl", g.tree(rng.randint(2, 14))) for _ in range(rng.randint(2, 5))]
        ctx.run("history", texts=texts, seed=rng.getrandbits(32))
    if ctx.shard == 0:
        a = ("Atomic", "pl", "a")
        ctx.run("text", text="a <-> a", tree=("Equivalence", a, a), seed=1)
