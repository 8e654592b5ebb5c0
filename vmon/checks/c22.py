"""C22: first-order terms and formulas are what was written, and their display form identifies them."""
import copy
import pickle
import random

from .. import bridge as B
from .. import fol, ndgen, ndquant, ndsound

NOT_TERMS = [None, 0, "x", (), [], {}, object(), True, 1.5, frozenset(), type]


def call_term(t, rng):
    """The real term, functions obtained by applying a function to arguments."""
    if t[0] != "F":
        return fol.mk_term(t)
    args = [call_term(u, rng) for u in t[2:]]
    if rng.random() < 0.3:
        return B.fol.Function(t[1], args)
    f = B.fol.Function(t[1], [B.fol.Variable("v%d" % i) for i in range(len(args))])
    if rng.random() < 0.3:
        f = f(*[B.fol.Constant("c%d" % i) for i in range(len(args))])
    return f(*args)


def call(f, rng):
    """The real formula, predicates obtained by applying a predicate to arguments."""
    k = f[0]
    if k == "P":
        args = [call_term(t, rng) for t in f[2:]]
        if rng.random() < 0.3:
            return B.fol.Predicate(f[1], args)
        p = B.fol.Predicate(f[1], [B.fol.Variable("v%d" % i) for i in range(len(args))])
        if rng.random() < 0.3:
            p = p(*[B.fol.Constant("c%d" % i) for i in range(len(args))])
        q = p(*args)
        if fol.read(p)[0] != "P" or len(fol.read(p)) != len(f):
            raise RuntimeError("the predicate changed when it was applied")
        return q
    if k in ("Forall", "Exists"):
        return (B.fol.ForAll if k == "Forall" else B.fol.Exists)(fol.mk_term(("V", f[1])), call(f[2], rng))
    if k in ("Bot", "Top", "A"):
        return fol.mk(f)
    xs = [call(g, rng) for g in f[1:]]
    if k == "Not":
        return ~xs[0] if rng.random() < 0.5 else B.base.Not(xs[0])
    if len(xs) == 2 and rng.random() < 0.4:
        return {"And": lambda x, y: x & y, "Or": lambda x, y: x | y}.get(k, B.CLS[k])(*xs)
    return B.CLS[k](*xs)


def case_pool(ctx, fs, seed):
    """Each formula is as written; two of them display alike exactly when they are alike."""
    rng = random.Random(seed)
    objs = [call(f, rng) if rng.random() < 0.7 else fol.mk(f, {} if rng.random() < 0.3 else None) for f in fs]
    texts = []
    for f, o in zip(fs, objs):
        ctx.check(fol.read(o) == f, "not as written", lambda: "%s was built, it reads %s" % (fol.show(f), fol.show(fol.read(o))))
        if rng.random() < 0.15:
            for how, fn in (("copy", copy.copy), ("deep copy", copy.deepcopy), ("pickle", lambda x: pickle.loads(pickle.dumps(x, rng.randint(0, pickle.HIGHEST_PROTOCOL))))):
                c = fn(o)
                ctx.check(type(c) is type(o) and fol.read(c) == f and str(c) == str(o) and c.logic is o.logic, how + " differs", lambda: "%s of %s reads %s" % (how, fol.show(f), fol.show(fol.read(c))))
                ctx.ev("copies of first-order formulas")
        if isinstance(f, tuple) and f[0] in ("P", "Forall", "Exists"):
            ctx.check(o.logic is B.base.Logic.FOL, "wrong logic", lambda: fol.show(f))
        texts.append(str(o))
        ctx.ev("formulas read back")
    for i, f in enumerate(fs):
        for j in range(i, len(fs)):
            ctx.check((texts[i] == texts[j]) is (f == fs[j]), "display form wrong", lambda: "%s and %s display as %r and %r" % (fol.show(f), fol.show(fs[j]), texts[i], texts[j]))
            ctx.ev("display forms alike" if f == fs[j] else "display forms different")
        ctx.check(str(objs[i]) == texts[i] and fol.read(objs[i]) == f, "changed by use", lambda: fol.show(f))
        if len(list(fol.subs(f))) > 1:
            ctx.distinct(f)


LETTERS = ("a", "b", "ab", "ba", "aa", "aba")


def short(rng, f):
    """The formula under names that are made of few letters."""
    m = {}

    def name(x):
        return m.setdefault(x, rng.choice(rng.choice((LETTERS, LETTERS, [y.translate({97: v, 98: w}) for y in LETTERS for v, w in ("uv", "fg", "aj")]))))

    def walk(t):
        if t[0] in ("C", "V"):
            return (t[0], name(t[1]))
        if t[0] in ("F", "P"):
            return (t[0], name(t[1])) + tuple(walk(u) for u in t[2:])
        if t[0] in ("Forall", "Exists"):
            return (t[0], name(t[1]), walk(t[2]))
        return t[:1] + tuple(walk(u) for u in t[1:])
    return walk(f)


def sorts_apart(fs):
    """Variables, constants and functions have different names."""
    sort = {}

    def walk(t):
        if t[0] in ("Forall", "Exists"):
            return sort.setdefault(t[1], "V") == "V" and walk(t[2])
        if t[0] in ("C", "V", "F") and sort.setdefault(t[1], t[0]) != t[0]:
            return False
        return all(walk(u) for u in t[1:] if isinstance(u, tuple))
    return all(walk(f) for f in fs)


def reglue(rng, f):
    """The same letters in the same order, distributed otherwise over names and places; f itself if there is no way."""
    spots = []

    def put(path, new):
        def go(t, p):
            return new if not p else t[:p[0]] + (go(t[p[0]], p[1:]),) + t[p[0] + 1:]
        return go(f, path)

    def walk(t, path):
        if t[0] in ("F", "P"):
            args = t[2:]
            for i in range(len(args)):
                x, y = args[i], args[i + 1] if i + 1 < len(args) else None
                if y is not None and x[0] in "CV" and y[0] in "CV":
                    spots.append((path, t[:2 + i] + ((x[0], x[1] + y[1]),) + t[4 + i:]))
                    if len(x[1]) > 1:
                        spots.append((path, t[:2 + i] + ((x[0], x[1][:-1]), (y[0], x[1][-1] + y[1])) + t[4 + i:]))
                if x[0] == "F":   # its arguments beside it, or in it what stands beside it
                    spots.append((path, t[:2 + i] + (("C", x[1]),) + x[2:] + t[3 + i:]))
                    if y is not None:
                        spots.append((path, t[:2 + i] + (x + (y,),) + t[4 + i:]))
                    if len(x) > 3:
                        spots.append((path, t[:2 + i] + (x[:-1], x[-1]) + t[3 + i:]))
                if x[0] in "CV" and len(x[1]) > 1:
                    spots.append((path, t[:2 + i] + (("C", x[1][0]), ("C", x[1][1:])) + t[3 + i:]))
                    spots.append((path, t[:2 + i] + (("F", x[1][0], ("C", x[1][1:])),) + t[3 + i:]))
            if args and args[0][0] in "CV" and len(args[0][1]) > 1:
                spots.append((path, (t[0], t[1] + args[0][1][0], (args[0][0], args[0][1][1:])) + args[1:]))
            for i, u in enumerate(args):
                walk(u, path + (2 + i,))
        elif t[0] in ("Forall", "Exists"):
            if t[2][0] == "P" and len(t[2][1]) > 1:
                spots.append((path, (t[0], t[1] + t[2][1][0], ("P", t[2][1][1:]) + t[2][2:])))
            walk(t[2], path + (2,))
        else:
            for i, u in enumerate(t[1:]):
                walk(u, path + (1 + i,))
    walk(f, ())
    return put(*rng.choice(spots)) if spots else f


def attempt(fn):
    try:
        return "ok", fn()
    except Exception as e:  # noqa: B902
        return "raised", e


def case_apply(ctx, sort, arity, args, bad):
    """Applying a predicate or function to args (terms) with stranger number bad[1] at place bad[0], if any."""
    make = B.fol.Predicate if sort == "P" else B.fol.Function
    orig = [B.fol.Variable("v%d" % i) for i in range(arity)]
    p = make("s", list(orig))
    xs = [fol.mk_term(t) for t in args]
    if bad is not None:
        xs[bad[0]] = (NOT_TERMS + [B.fol.Predicate("p"), B.pl.Atomic("a"), B.fol.Function, B.base.TrueFormula()])[bad[1]]
    status, r = attempt(lambda: p(*xs))
    want = len(xs) == arity and bad is None
    ctx.ev("application %s" % ("expected" if want else "to be refused"))
    ctx.check((status == "ok") is want, "application wrongly %s" % ("refused" if want else "accepted"), lambda: "%s of %d operands applied to %r: %s %r" % (make.__name__, arity, xs, status, r))
    if status == "ok" and want:
        ctx.check(type(r) is make and r.name == "s" and len(r.operands) == arity and all(x is y for x, y in zip(r.operands, xs)), "application gives something else", lambda: repr(r))
        ctx.check(r is not p or arity == 0, "application changed the original", lambda: repr(p))
    ctx.check(p.name == "s" and len(p.operands) == arity and all(x is y for x, y in zip(p.operands, orig)), "application changed the original", lambda: repr(p))


def case_quantifier(ctx, body, var):
    """Quantifiers over formulas of other logics or non-formulas, or with something else than a variable, are refused."""
    bodies = [B.fol.Predicate("p"), B.fol.Predicate("p", [B.fol.Variable("x")]), B.fol.ForAll(B.fol.Variable("y"), B.fol.Predicate("q")), B.base.And(B.fol.Predicate("p"), B.fol.Predicate("q")), B.base.Not(B.fol.Predicate("p")),
              B.pl.Atomic("a"), B.ltl.Atomic("a"), B.ltl.Next(B.ltl.Atomic("a")), B.pltl.Atomic("a"), B.ldl.Prop(B.pl.Atomic("a")), object(), None, 3, "p"]
    variables = [B.fol.Variable("x"), B.fol.Constant("x"), B.fol.Function("f", [B.fol.Variable("x")]), "x", None, B.fol.Predicate("p"), B.pl.Atomic("x")]
    for Q in (B.fol.ForAll, B.fol.Exists):
        status, r = attempt(lambda: Q(variables[var], bodies[body]))
        want = var == 0 and body < 5
        ctx.ev("quantifier %s" % ("expected" if want else "to be refused"))
        ctx.check((status == "ok") is want, "quantifier wrongly %s" % ("refused" if want else "accepted"), lambda: "%s(%r, %r): %s %r" % (Q.__name__, variables[var], bodies[body], status, r))
        if want and status == "ok":
            ctx.check(r.variable is variables[var] and r.formula is bodies[body] and len(r.operands) == 2 and r.operands[0] is variables[var] and r.operands[1] is bodies[body], "quantifier reports something else", lambda: repr(r))


NQ = (14, 7)


def run_shard(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(6000, 80000)):
        F = ndgen.Formulas(rng, "fol")
        F.free = rng.random() < 0.6
        fs = [F(rng.choice((0, 1, 2, 3, 4))) for _ in range(4)]
        ts = [t for f in fs for t in fol.terms(f)] or [("C", "k")]
        fs += [ndsound.transform(rng, "fol", f, fs, ts) for f in fs[:2]] + [ndsound.near(rng, F, fs[0]), ndsound.swap_term(rng, fs[1], rng.choice(ts), rng.choice(ts))]
        p = ndquant.Pattern(rng)
        fs += [p.fill(("V", "x")), p.fill(("V", "y")), p.fill(*[rng.choice((("V", "x"), ("V", "y"))) for _ in range(p.slots)])]
        fs += [fs[0], fs[-1]]
        for f in rng.sample(fs, 2) if rng.random() < 0.5 else ():
            f = short(rng, f)
            g = reglue(rng, f)
            for h in (f, g, reglue(rng, g)):
                if sorts_apart(fs + [h]):
                    fs.append(h)
            ctx.ev("names distributed otherwise", f != g and f in fs and g in fs)
        fs = [f for f in fs if ndgen.binary(f) and not any(g[0] in ("Bot", "Top", "A") for g in fol.subs(f)) and len(list(fol.subs(f))) < 60]
        ctx.sample("; ".join(fol.show(f) for f in fs[:3]))
        ctx.run("pool", fs=fs, seed=rng.getrandbits(32))
    i = 0
    for sort in "PF":
        for arity in list(range(0, 7)) + [12]:
            for n in list(range(0, 8)) + [12]:
                for bad in [None] + [(a, b) for a in {0, n // 2, n - 1} if 0 <= a < n for b in range(len(NOT_TERMS) + 4)]:
                    i += 1
                    for _ in range((24 if n == arity and bad is None else 1) if ctx.mine(i) else 0):
                        F = ndgen.Formulas(rng, "fol")
                        ctx.run("apply", sort=sort, arity=arity, args=[F.term(("x", "y"), 3) for _ in range(n)], bad=bad)
    for body in range(NQ[0]):
        for var in range(NQ[1]):
            i += 1
            if ctx.mine(i):
                ctx.run("quantifier", body=body, var=var)
