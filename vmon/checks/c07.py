"""C07: the formula cache mirrors what was built since the last reset."""
import random

from .. import bridge as B
from .. import gen, ref


class Model:
    """What the cache must contain: every formula some operation returned since the last reset."""

    def __init__(self):
        self.built = {}

    def reset(self):
        self.built = {}

    def add(self, f):
        r = B.to_ref(f)
        self.built.setdefault(ref.logic_of(r), {})[ref.key(r)] = f


def build_all(t, model, rng):
    """Build bottom-up; every intermediate formula counts as built."""
    if t[0] in ref.LEAVES:
        f = B.leaf(t)
    else:
        f = B.apply(t[0], [build_all(c, model, rng) for c in t[1:]], rng)
    model.add(f)
    return f


def look(ctx, model, log):
    """Compare the whole cache with the model."""
    cache = B.get_cache_context()
    seen = {}
    ctx.ev("cache inspections")
    for logic, entries in list(cache.items()):
        for f in list(entries):
            ctx.ev("cache entries inspected")
            if not ctx.check(isinstance(f, B.base.Formula), "non-formula in the cache", lambda: repr(f)):
                continue
            ctx.check(f.logic == logic, "formula filed under another logic", lambda: "%r under %s after %s" % (f, logic, log[-6:]))
            ctx.check(f in entries, "cached formula cannot be found", lambda: "%r after %s" % (f, log[-6:]))
            k = ref.key(B.to_ref(f))
            ctx.check(k not in seen.get(logic, ()), "formula twice in the cache", lambda: "%r after %s" % (f, log[-6:]))
            seen.setdefault(logic, set()).add(k)
    for lname, fs in model.built.items():
        logic = B.LOGIC[lname]
        for k, f in fs.items():
            ctx.check(f in cache.get(logic, ()), "built formula not in the cache", lambda: "%r after %s" % (f, log[-6:]))
            ctx.check(k in seen.get(logic, ()), "built formula not enumerated by the cache", lambda: "%r after %s" % (f, log[-6:]))


def case_history(ctx, ops):
    B.reset_cache()
    model, log, pool = Model(), [], []
    look(ctx, model, log)
    for op in ops:
        name, seed = op[0], op[-1]
        rng = random.Random(seed)
        log.append(str(op[0]) + " " + (ref.show(op[2]) if len(op) > 3 and isinstance(op[2], tuple) else str(op[2]) if len(op) > 3 else ""))
        if name == "reset":
            B.reset_cache()
            model.reset()
            n = sum(len(e) for e in B.get_cache_context().values())
            ctx.check(n == 0, "cache not empty after reset", lambda: "%d entries after %s" % (n, log[-6:]))
            ctx.ev("resets")
        elif name == "build":
            pool.append(build_all(op[2], model, rng))
            ctx.ev("builds")
        elif name == "parse":
            f = B.PARSE[op[1]](op[2])
            model.add(f)  # what lies below may be a constant of the library, older than the last reset
            pool.append(f)
            ctx.ev("parses")
        elif name == "combine" and pool:
            # operands may stem from before the last reset
            x = rng.choice(pool)
            same = [y for y in pool if y.logic == x.logic and y is not x]
            if x.logic == B.Logic.RE or not same:
                f = B.ldl.Star(x) if x.logic == B.Logic.RE else B.base.Not(x)
            else:
                f = B.CLS[rng.choice(ref.BOOL_NARY)](x, *rng.sample(same, min(len(same), rng.randint(1, 3))))
                ctx.ev("combinations of old operands")
            if not any(f is y or f is z for y in pool for z in B.subformulas(y)):
                model.add(f)
            pool.append(f)
        elif name == "use" and pool:
            x = rng.choice(pool)
            hash(x), x == rng.choice(pool)
            if x.logic != B.Logic.RE:
                B.to_string(x)
            if x.logic == B.Logic.PL:
                B.evaluate_pl(x, {"a"})
        elif name == "look":
            look(ctx, model, log)
        if pool and name in ("build", "parse"):
            f = pool[-1]
            ctx.check(f in B.get_cache_context().get(f.logic, ()), "formula just built is not in the cache", lambda: "%r after %s" % (f, log[-6:]))
        del pool[:-12]
    look(ctx, model, log)


def many(rng, logic, n):
    """n different formulas of one logic, of a few shapes, all flat."""
    for i in range(n):
        if logic == "ldl":
            a = ("Diamond", ("Prop", ("Atomic", "pl", "n%d" % (i // 4))), ("True", "ldl"))
            yield (a, ("Not", a), ("Box", ("Prop", ("Atomic", "pl", "n%d" % (i // 4))), ("False", "ldl")), ("Or", a, ("Box", ("Prop", ("Atomic", "pl", "m")), ("False", "ldl"))))[i % 4]
        elif logic == "re":
            p = ("Prop", ("Atomic", "pl", "n%d" % (i // 3)))
            yield (p, ("Star", p), ("Seq", p, ("Prop", ("Atomic", "pl", "m"))))[i % 3]
        else:
            a = ("Atomic", logic, "n%d" % (i // 4))
            yield (a, ("Not", a), ("And", a, ("Atomic", logic, "m")), ("Implies", ("Atomic", logic, "m"), a))[i % 4]


def case_many(ctx, plan, seed):
    """A cache that grows large: nothing may be forgotten or doubled, before and after resets."""
    rng = random.Random(seed)
    B.reset_cache()
    model = Model()
    for logic, n, how in plan:
        for t in many(rng, logic, n):
            build_all(t, model, rng)
        ctx.ev("formulas in a large cache", sum(len(v) for v in model.built.values()))
        look(ctx, model, ["%d formulas of %s" % (n, logic)])
        if how == "again":
            for t in many(rng, logic, n // 4):
                build_all(t, model, rng)
            look(ctx, model, ["some of %s built again" % logic])
        elif how == "reset":
            B.reset_cache()
            model.reset()
            n_left = sum(len(e) for e in B.get_cache_context().values())
            ctx.check(n_left == 0, "cache not empty after reset", lambda: "%d entries" % n_left)
    B.reset_cache()


def case_wide(ctx, logic, width, sub, seed):
    """Operators with many operands: the formula, and each operand, must be registered once."""
    rng = random.Random(seed)
    B.reset_cache()
    model = Model()
    k = [("Prop", ("Atomic", "pl", "w%d" % n)) if sub == "re" else ("Diamond", ("Prop", ("Atomic", "pl", "w%d" % n)), ("True", "ldl")) if logic == "ldl" else ("Atomic", logic, "w%d" % n) for n in range(width)]
    ops = list(("Seq", "Union") if sub == "re" else ref.BOOL_NARY + {"ltl": ref.LTL_BIN, "pltl": ref.PLTL_BIN}.get(logic, ()))
    for _ in range(rng.randint(1, 3)):
        op = rng.choice(ops)
        rng.shuffle(k)
        build_all((op,) + tuple(k[:rng.randint(2, width)]) if rng.random() < 0.3 else (op,) + tuple(k), model, rng)
        ctx.ev("wide formulas")
    look(ctx, model, ["%s of %d operands" % (op, width)])
    B.reset_cache()
    model.reset()
    look(ctx, model, ["reset after wide formulas"])


def run_shard(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(60, 600)):
        logic = rng.choice(ref.LOGICS)
        ctx.run("wide", logic=logic, width=rng.choice((5, 9, 17, 17, 33, 65, 130, 260)), sub="re" if logic == "ldl" and rng.random() < 0.5 else None, seed=rng.getrandbits(32))
    for _ in range(ctx.n(900, 12000)):
        g = {x: gen.TreeGen(rng, x, names=gen.name_pool(rng, 1, 3)) for x in ref.LOGICS}
        ops = []
        preset = rng.choice((0.02, 0.1, 0.25))
        logics = rng.sample(ref.LOGICS, rng.randint(1, 4))
        for _ in range(rng.randint(4, 30)):
            k = rng.random()
            logic = rng.choice(logics)
            seed = rng.getrandbits(32)
            if k < preset:
                ops.append(("reset", seed))
            elif k < preset + 0.35:
                sub = "re" if logic == "ldl" and rng.random() < 0.2 else None
                t = g[logic].tree(rng.randint(1, 9), sub)
                ops.append(("build", logic, gen.variant(rng, t) if rng.random() < 0.5 else t, seed))
            elif k < preset + 0.5:
                ops.append(("parse", logic, gen.text_of(rng, logic, g[logic].tree(rng.randint(1, 8))), seed))
            elif k < preset + 0.65:
                ops.append(("combine", seed))
            elif k < preset + 0.7:
                ops.append(("use", seed))
            else:
                ops.append(("look", seed))
        ctx.distinct(ops)
        ctx.sample([o[0] for o in ops])
        ctx.run("history", ops=ops)
    for _ in range(ctx.n(0.8, 8)):
        sizes = [rng.choice((300, 600, 1100, 2200, 4400, 9000, 17000)) for _ in range(3)]
        if rng.random() < 0.5:
            sizes[0] = 34000
        plan = [(rng.choice(("pl", "ltl", "pltl", "ldl", "re")), n, rng.choice(("again", "reset", "on", "on"))) for n in sizes]
        ctx.run("many", plan=plan, seed=rng.getrandbits(32))
