"""C20: abbreviations and constants have their documented meaning."""
import random

from .. import bridge as B
from .. import gen, ref

MARKS = {"ltl": ("last",), "pltl": ("start",), "ldl": ("end", "last")}
API = {("ltl", "last"): B.ltl.Last, ("pltl", "start"): B.pltl.Start, ("ldl", "end"): B.ldl.End, ("ldl", "last"): B.ldl.Last}


class MarkEval(ref.TraceEval):
    """The trace semantics in which an abbreviation is true exactly at the instant it names."""

    def eval(self, t):
        if t[0] == "Mark":
            if t[2] == "start":
                return 1 if self.n else 0
            if t[2] == "end":
                return 1 << self.n
            return 1 << (self.n - 1) if self.n else 0
        return super().eval(t)


class MarkRender(gen.Render):
    def _bare(self, t, logic):
        if t[0] == "Mark":
            return [t[2]], gen.UNARY_LEVEL
        return super()._bare(t, logic)


def build(t, rng):
    if t[0] == "Mark":
        return API[(t[1], t[2])]()
    if t[0] in ref.LEAVES:
        return B.leaf(t)
    return B.apply(t[0], [build(c, rng) for c in t[1:]], rng)


def traces(rng, logic, names):
    lo = 0 if logic == "ldl" else 1
    ns = sorted(names) or ["a"]
    out = [tuple(frozenset() for _ in range(k)) for k in range(lo, 4)] + [tuple(frozenset(ns) for _ in range(k)) for k in range(lo, 4)]
    return out + ref.random_traces(rng, ns, 6, lo, 6)


def names(t):
    if t[0] == "Mark":
        return set()
    if t[0] == "Atomic":
        return {t[2]}
    return set().union(*[names(c) for c in t[1:] if isinstance(c, tuple)]) if len(t) > 1 else set()


def judge(ctx, t, logic, f, rng, what):
    got = B.to_ref(f)
    for tr in traces(rng, logic, names(t)):
        e = MarkEval(tr, logic)
        want, real = e.eval(t), e.eval(got)
        ctx.ev("instants judged", e.positions)
        if not ctx.check(want == real, "abbreviation or constant with another meaning", lambda: "%s %s is %s, at %s: %s, documented %s" % (logic, what, ref.show(got), [sorted(s) for s in tr], bin(real), bin(want))):
            return


def mark_some(rng, t, logic):
    """Replace some leaves and subformulas of the logic by its abbreviations."""
    for _ in range(rng.randint(1, 3)):
        spots = [p for p, s in spots_of(t) if logic_at(s) == logic and (s[0] in ref.LEAVES or size(s) <= 4 or rng.random() < 0.1)]
        if spots:
            t = gen.replace_at(t, rng.choice(spots), ("Mark", logic, rng.choice(MARKS[logic])))
    return t


def kids(t):
    return () if t[0] == "Mark" or t[0] in ref.LEAVES else t[1:]


def size(t):
    return 1 + sum(size(c) for c in kids(t))


def logic_at(t):
    return ref.logic_of(expand(t))


def spots_of(t, path=()):
    if t[0] != "Mark":
        yield path, t
    for i, c in enumerate(kids(t)):
        yield from spots_of(c, path + (i + 1,))


def has_mark(t):
    return t[0] == "Mark" or any(isinstance(c, tuple) and has_mark(c) for c in t[1:])


def case_context(ctx, logic, tree, seed):
    rng = random.Random(seed)
    text = gen.join(rng, MarkRender(rng, logic, abbrev=0.5).tokens(tree))
    f = B.PARSE[logic](text)
    judge(ctx, tree, logic, f, rng, "text %r" % text)
    ctx.ev("texts: " + logic)
    g = build(tree, rng)
    judge(ctx, tree, logic, g, rng, "built formula")
    ctx.ev("built: " + logic)
    if rng.random() < 0.1:
        B.reset_cache()
        judge(ctx, tree, logic, build(tree, rng), rng, "built after a reset")
        judge(ctx, tree, logic, B.PARSE[logic](text), rng, "text %r after a reset" % text)
    ctx.distinct(tree)


def case_alone(ctx, logic, word, wrap):
    """The abbreviation by itself, under negations and brackets, in every spelling."""
    m = ("Mark", logic, word)
    rng = random.Random(wrap)
    text = ["%s", "(%s)", " %s ", "!%s", "~ %s", "!!%s", "((\n%s))", "!(!(%s))", "%s & tt", "ff | %s", "%s | %s", "tt & !%s"][wrap].replace("%s", word)
    neg = text.count("!") + text.count("~")
    t = ("Not", m) if neg % 2 else m
    judge(ctx, t, logic, B.PARSE[logic](text), rng, "text %r" % text)
    f = API[(logic, word)]()
    judge(ctx, m, logic, f, rng, "%s()" % word)
    judge(ctx, ("Not", m), logic, ~f, rng, "~%s()" % word)
    judge(ctx, ("Not", m), logic, B.base.Not(f), rng, "Not(%s())" % word)
    ctx.check(f == API[(logic, word)]() and B.PARSE[logic](word) == f, "abbreviation is not the same as text and by the interface", "%s %s" % (logic, word))
    ctx.ev("abbreviation %s/%s" % (logic, word))


def case_constants(ctx, seed):
    rng = random.Random(seed)
    for logic in B.Logic:
        tt, ff = B.base.TrueFormula(logic=logic), B.base.FalseFormula(logic=logic)
        forms = [(~tt, ff), (~ff, tt), (~~tt, tt)]
        if logic != B.Logic.RE:
            forms += [(B.base.Not(tt), ff), (B.base.Not(ff), tt), (B.base.Not(B.base.Not(tt)), tt)]
        for got, want in forms:
            ctx.check(type(got) is type(want) and got.logic == logic and got == want, "negation of a constant", lambda: "%r where %r is due" % (got, want))
            ctx.ev("negated constants")
        ctx.check(tt != ff and tt == B.base.TrueFormula(logic=logic), "constants", str(logic))
    for m, lg in ((B.ltl, "ltl"), (B.pltl, "pltl")):
        t, f = m.PropositionalTrue(), m.PropositionalFalse()
        for got, want in ((~t, f), (~f, t), (B.base.Not(t), f), (B.base.Not(f), t), (~~t, t), (B.PARSE[lg]("true"), t), (B.PARSE[lg]("false"), f), (B.PARSE[lg]("!true"), f), (B.PARSE[lg]("!false"), t)):
            ctx.check(type(got) is type(want) and got.logic == B.LOGIC[lg] and got == want, "negation of a constant", lambda: "%r where %r is due" % (got, want))
            ctx.ev("negated constants")
        ctx.check(t != f and t != B.base.TrueFormula(logic=B.LOGIC[lg]), "constants", lg)
    for lg in ("pl", "ltl", "pltl", "ldl"):
        tw, fw = ("true", "false") if lg == "pl" else ("tt", "ff")
        for text, v in ((tw, True), (fw, False), ("!" + tw, False), ("!" + fw, True), ("~(~%s)" % tw, True), ("!(!(!%s))" % fw, True)):
            got = B.PARSE[lg](text)
            ctx.check(type(got) is (B.base.TrueFormula if v else B.base.FalseFormula) and got.logic == B.LOGIC[lg], "text of a constant", lambda: "%s %r: %r" % (lg, text, got))
            if lg == "pl":
                for i in (set(), {"true"}, {"false"}, {"a"}, {}, {"true": False, "false": True}, {"a": False}):
                    ctx.check(B.evaluate_pl(got, i) is v, "value of a constant", lambda: "%r under %r" % (text, i))
                    ctx.ev("constants evaluated")


def run_shard(ctx):
    rng = ctx.rng
    i = 0
    for logic, words in MARKS.items():
        for w in words:
            for wrap in range(12):
                i += 1
                if ctx.mine(i):
                    ctx.run("alone", logic=logic, word=w, wrap=wrap)
    for _ in range(ctx.n(30000, 400000)):
        logic = rng.choice(tuple(MARKS))
        t = mark_some(rng, gen.TreeGen(rng, logic, equiv=rng.choice((0.0, 0.15)), names=gen.name_pool(rng, 1, 4)).tree(rng.randint(1, 16)), logic)
        if not has_mark(t) or repeated(t):
            continue
        ctx.sample("%s %s" % (logic, show(t)))
        ctx.run("context", logic=logic, tree=t, seed=rng.getrandbits(32))
    for _ in range(ctx.n(40, 400)):
        ctx.run("constants", seed=rng.getrandbits(32))


EXPAND = {("ltl", "last"): ("WeakNext", ("False", "ltl")), ("pltl", "start"): ("Not", ("Before", ("True", "pltl")))}
_END = ("Box", ("Prop", ("True", "pl")), ("False", "ldl"))
EXPAND.update({("ldl", "end"): _END, ("ldl", "last"): ("Diamond", ("Prop", ("True", "pl")), _END)})


def expand(t):
    if t[0] == "Mark":
        return EXPAND[(t[1], t[2])]
    return t if t[0] in ref.LEAVES else (t[0],) + tuple(expand(c) for c in t[1:])


def repeated(t):
    """Equivalences with repeated operands are a known finding elsewhere, and left out here."""
    return ref.has_repeated_equiv(expand(t))


def show(t):
    return t[2] if t[0] == "Mark" else ref.show(t) if not has_mark(t) else "%s(%s)" % (t[0], ", ".join(show(c) for c in t[1:]))
