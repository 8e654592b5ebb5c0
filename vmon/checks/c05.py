"""C05: to_string and parse are inverse."""
from .. import bridge as B
from .. import gen, ref


def case_tree(ctx, logic, tree):
    f = B.build(tree)
    r = B.to_ref(f)
    s = B.to_string(f)
    ctx.ev("printed: " + logic)
    for op in ref.ops(r):
        ctx.ev("operator %s/%s" % (logic, op))
    if ref.size(r) > 1:
        ctx.distinct((logic, r))
    if not ctx.check(isinstance(s, str), "not a string", lambda: repr(s)):
        return
    status, g = B.try_parse(logic, s)
    if not ctx.check(status == "ok", "printed text is refused", lambda: "%s prints %r, refused: %s" % (ref.show(r), s, str(g)[:200])):
        return
    ctx.check(g == f and f == g and hash(f) == hash(g), "reparsed formula is not equal", lambda: "%s prints %r, which parses to %s" % (ref.show(r), s, ref.show(B.to_ref(g))))
    ctx.check(B.to_ref(g) == r, "reparsed formula has other operands", lambda: "%s prints %r, which parses to %s" % (ref.show(r), s, ref.show(B.to_ref(g))))
    s2 = B.to_string(g)
    st3, h = B.try_parse(logic, s2)
    ctx.check(st3 == "ok" and h == f and s2 == s, "second round trip differs", lambda: "%r then %r" % (s, s2))


def run_shard(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(9000, 120000)):
        logic = rng.choice(ref.LOGICS)
        t = gen.any_tree(rng, logic)
        ctx.sample("%s: %s" % (logic, ref.show(t)))
        ctx.run("tree", logic=logic, tree=t)
    # all operators over all operators
    i = 0
    for logic in ref.LOGICS:
        lv1 = level1(logic)
        for op, kinds in constructors(logic):
            for combo in combos(kinds, lv1):
                i += 1
                if ctx.mine(i):
                    ctx.run("tree", logic=logic, tree=lift((op,) + combo))
                    ctx.ev("operator pairs")


def level0(logic):
    if logic == "re":
        return [("Prop", ("Atomic", "pl", "p"))]
    if logic == "ldl":
        return [("True", "ldl"), ("False", "ldl")]
    out = [("Atomic", logic, "a"), ("Atomic", logic, '"q -> r"'), ("True", logic), ("False", logic)]
    if logic != "pl":
        out += [("PTrue", logic), ("PFalse", logic)]
    return out


def constructors(logic):
    out = [("Not", (logic,))] + [(o, (logic, logic)) for o in ref.BOOL_NARY]
    if logic == "ltl":
        out += [(o, ("ltl",)) for o in ref.LTL_UN] + [(o, ("ltl", "ltl")) for o in ref.LTL_BIN]
    if logic == "pltl":
        out += [(o, ("pltl",)) for o in ref.PLTL_UN] + [(o, ("pltl", "pltl")) for o in ref.PLTL_BIN]
    if logic == "ldl":
        out += [(o, ("re", "ldl")) for o in ("Diamond", "Box")]
    if logic == "ldl":
        out += [("Prop", ("pl",)), ("Test", ("ldl",)), ("Star", ("re",)), ("Seq", ("re", "re")), ("Union", ("re", "re"))]
    return out


def level1(logic):
    need = [logic] + (["pl", "re"] if logic == "ldl" else [])
    lv0 = {k: level0(k) for k in need}
    out = {}
    for k in need:
        out[k] = list(lv0[k])
    for op, kinds in constructors(logic) + (constructors("pl") if logic == "ldl" else []):
        k = "re" if op in ("Prop", "Test", "Star", "Seq", "Union") else kinds[-1]
        if op == "Prop":
            for x in lv0["pl"]:
                out["re"].append((op, x))
            continue
        if len(kinds) == 1:
            out[k].append((op, lv0[kinds[0]][0]))
        else:
            out[k].append((op, lv0[kinds[0]][0], lv0[kinds[1]][-1] if kinds[1] == "ldl" else lv0[kinds[1]][min(1, len(lv0[kinds[1]]) - 1)]))
    return out


def combos(kinds, lv):
    if len(kinds) == 1:
        return [(x,) for x in lv[kinds[0]]]
    return [(x, y) for x in lv[kinds[0]] for y in lv[kinds[1]]]


def lift(t):
    """Regular expressions are printed inside a modality."""
    return ("Diamond", t, ("True", "ldl")) if ref.logic_of(t) == "re" else t
