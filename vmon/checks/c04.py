"""C04: the parsed tree is the documented one."""
from .. import bridge as B
from .. import gen, ref, refparse


def case_text(ctx, logic, text, tree):
    """tree: the literal tree the text was printed from, or () when the text is random."""
    want = refparse.parse(logic, text)
    if tree and want != tree:
        raise AssertionError("reference parser disagrees with the generator")
    f = B.PARSE[logic](text)
    got = B.to_ref(f)
    ctx.ev("parsed: " + logic)
    expect = ref.norm(want)
    for op in ref.ops(want):
        ctx.ev("operator " + op)
    if len(ref.children(want)) and ref.depth(want) > 2:
        ctx.distinct((logic, want))
    if expect == want:
        ctx.ev("literal tree expected")
    if not ctx.check(got == expect, "wrong tree", lambda: "parse_%s(%r) is %s, documented %s" % (logic, text, ref.show(got), ref.show(expect))):
        return
    g = B.build(want)
    ctx.check(f == g and g == f, "parsed and constructed formulas differ", lambda: "parse_%s(%r) = %r, constructed %r" % (logic, text, f, g))
    ctx.check(hash(f) == hash(g), "parsed and constructed formulas hash differently", lambda: text)


def run_shard(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(9000, 120000)):
        logic = rng.choice(ref.LOGICS)
        t = gen.any_tree(rng, logic)
        text = gen.text_of(rng, logic, t, extra=rng.choice((0.0, 0.1, 0.4)), abbrev=0.7)
        ctx.sample("%s: %s" % (logic, text))
        ctx.run("text", logic=logic, text=text, tree=t)
    # every pair and triple of operators, nested left, right and in the middle, with as few brackets as possible
    i = 0
    for logic in ref.LOGICS:
        nary = list(gen.BIN_LEVEL[logic])
        unary = ["Not"] + list({"ltl": ref.LTL_UN, "pltl": ref.PLTL_UN}.get(logic, ()))
        if logic == "ldl":
            a, b, c, d = [("Diamond", ("Prop", ("Atomic", "pl", n)), ("True", "ldl")) for n in "abcd"]
            wraps = [lambda t, k=k, r=r: (k, r, t) for k in ("Diamond", "Box") for r in (("Prop", ("Atomic", "pl", "p")), ("Star", ("Prop", ("Atomic", "pl", "p"))))]
        else:
            a, b, c, d = [("Atomic", logic, n) for n in "abcd"]
            wraps = []
        wraps += [lambda t, k=k: (k, t) for k in unary]
        forms = []
        for o1 in nary:
            for o2 in nary:
                forms += [(o1, (o2, a, b), c), (o1, a, (o2, b, c)), (o1, a, (o2, b, c), d), (o1, (o2, a, b), (o2, c, d)), (o1, a, b, (o2, c, d))]
                for w in wraps:
                    forms += [w((o1, a, (o2, b, c))), (o1, w((o2, a, b)), c), (o1, a, w(w((o2, b, c)))), (o1, w(a), (o2, w(b), w(c)))]
        for w in wraps:
            for v in wraps:
                forms += [w(v(a)), w(v(w(a)))]
        for t in forms:
            i += 1
            if ctx.mine(i):
                ctx.run("text", logic=logic, text=gen.text_of(rng, logic, t, extra=0.0), tree=t)
                ctx.ev("operator pairs")
    # random token sequences that happen to be in the language
    for _ in range(ctx.n(16000, 200000)):
        logic = rng.choice(ref.LOGICS)
        if rng.random() < 0.5:
            text = gen.random_token_text(rng, logic, rng.randint(2, 7))
        else:
            text = gen.mutate_text(rng, logic, gen.Render(rng, logic).tokens(gen.any_tree(rng, logic, top=12)))
        try:
            refparse.parse(logic, text)
        except (refparse.Reject, refparse.Unspecified):
            continue
        ctx.ev("random texts in the language")
        ctx.run("text", logic=logic, text=text, tree=())
