"""C25: nothing is kept that nobody refers to any more."""
import copy
import gc
import pickle
import random
import sys
import weakref

from .. import bridge as B
from .. import fol, gen, ndgen, ndquant, ndsound, ref
from . import c22

KEPT = 150        # formulas, proofs, interpretations that may be remembered
LIMIT = {}        # as many of them were found to be remembered at most
LEAKS = set()     # known to grow without limit
BLOCKS = 0.25     # memory blocks that may be kept per operation


class Interp(dict):
    """An interpretation that can be watched."""


class InterpSet(set):
    """An interpretation that can be watched."""


def rename(t, n):
    if t[0] == "Atomic":
        return t[:2] + (('"%s %d"' % (t[2].strip('"'), n)) if t[2][0] == '"' else "%s_%d" % (t[2], n),)
    return t[:1] + tuple(rename(c, n) if isinstance(c, tuple) else c for c in t[1:])


class Watch:
    def __init__(self):
        self.refs = []

    def add(self, kind, o):
        self.refs.append((kind, weakref.ref(o)))

    def formula(self, f, top=True):
        """The formula and, unless it is a constant of the library, what it is made of."""
        for g in B.subformulas(f):
            self.add("formula", g)

    def alive(self):
        out = {}
        for k, r in self.refs:
            if r() is not None:
                out[k] = out.get(k, 0) + 1
        return out


def do(w, op, n, rng):
    """One operation with names that no other round uses; everything it makes is watched and dropped."""
    k, logic, t, u = op[:4]
    if k == "proof":
        items = renamed_proof(t, n)
        p, env = fol.proof_of(items, {} if logic else None)[:2]
        w.add("proof", p)
        watch_proof(w, p)
        v = fol.ND.check(p)
        return "proof %s" % v
    if k == "first order":
        f = c22.call(renamed_proof([("L", 0, t)], n)[0][2], rng)
        watch_fol(w, f)
        for g in (~f, B.fol.ForAll(B.fol.Variable("x%d" % n), f & B.fol.Predicate("P%d" % n, [B.fol.Variable("x%d" % n)])), copy.deepcopy(f), pickle.loads(pickle.dumps(f))):
            watch_fol(w, g)
        str(f), repr(f), hash(f)
        for bad in (lambda: B.fol.Predicate("P", [B.fol.Variable("x")])("no term"), lambda: B.fol.ForAll(f, f), lambda: B.to_string(f), lambda: B.evaluate_pl(f, {"a"})):
            try:
                bad()
            except Exception:  # noqa: B902
                pass
        return k
    t, u = rename(t, n), rename(u, n)
    if k == "parse":
        f = B.PARSE[logic](gen.text_of(rng, logic, t))
    elif k == "refused text":
        try:
            f = B.PARSE[logic](gen.text_of(rng, logic, t) + " & &")
        except Exception:  # noqa: B902
            return k
    elif k == "refused operands":
        f = B.build(t)
        g = B.ATOM["ltl" if logic != "ltl" else "pltl"]("other%d" % n)
        w.add("formula", g)
        try:
            B.base.And(f, g)
        except Exception:  # noqa: B902
            pass
    else:
        f = B.build(t, rng)
    w.formula(f)
    if k == "combine":
        g = B.build(u)
        w.formula(g)
        for h in (f & g, f | g, ~f, f >> g, B.base.Equivalence(f, g), g == f, hash(g)):
            if isinstance(h, B.base.Formula):
                w.formula(h)
    elif k == "print":
        B.to_string(f), str(f), repr(f)
    elif k == "copy":
        for g in (copy.copy(f), copy.deepcopy(f), pickle.loads(pickle.dumps(f))):
            w.add("formula", g)
    elif k == "evaluate":
        ns = sorted(ref.names(t))
        i, j = Interp((x, True) for x in ns if rng.random() < 0.5), InterpSet(x for x in ns if rng.random() < 0.5)
        w.add("interpretation", i)
        w.add("interpretation", j)
        B.evaluate_pl(f, i), B.evaluate_pl(f, j)
        if rng.random() < 0.3:
            try:
                B.evaluate_pl(f, [n])
            except Exception:  # noqa: B902
                pass
    return k


def watch_fol(w, x):
    w.add("formula" if isinstance(x, B.base.Formula) else "term", x)
    for y in list(getattr(x, "operands", ())) + ([x.argument] if hasattr(x, "argument") else []):
        watch_fol(w, y)


def watch_proof(w, p):
    for _, c, _ in p:
        if isinstance(c, list):
            watch_proof(w, c)
        else:
            w.add("formula" if isinstance(c, B.base.Formula) else "term", c)


def renamed_proof(items, n):
    m = {}

    def name(x):
        return m.setdefault(x, "%s_%d" % (x, n))

    def term(t):
        return (t[0], name(t[1])) + tuple(term(x) for x in t[2:])

    def form(f):
        if f[0] == "A":
            return ("A", name(f[1]))
        if f[0] == "P":
            return ("P", name(f[1])) + tuple(term(t) for t in f[2:])
        if f[0] in ("Forall", "Exists"):
            return (f[0], name(f[1]), form(f[2]))
        return f[:1] + tuple(form(x) for x in f[1:])

    def item(i):
        if i[0] == "L":
            return ("L", i[1], form(i[2])) + tuple(i[3:])
        return ("B", i[1], term(i[2]) if i[2] else None, [item(x) for x in i[3]])
    return [item(i) for i in items]


def round_(ops, n0, rounds, w, rng, seen, every):
    for n in range(n0, n0 + rounds):
        for op in ops:
            seen.append(do(w, op, n, rng))
        if every and n % every == 0:
            B.reset_cache()


def case_rounds(ctx, ops, seed, every):
    """Rounds of the same operations under new names, then a reset: what was made must be gone."""
    B.reset_cache()
    rounds_case(ctx, ops, seed, every)


def rounds_case(ctx, ops, seed, every):
    rng = random.Random(seed)
    describe = lambda: "%d operations: %s" % (len(ops), [(o[0], o[1]) for o in ops])  # noqa: E731
    rounds = 60
    n = [rounds]

    def bounded(kind, after_reset):
        """Whether what is kept stops growing; a memo of limited size fills up in the end."""
        if kind in LEAKS:
            return False
        ctx.ev("limits looked for")
        sizes, k = [], 2
        while k * len(ops) <= 300:
            w = Watch()
            for _ in range(k):
                round_(ops, n[0], rounds, w, rng, [], every)
                n[0] += rounds
                if after_reset or sum(len(e) for e in B.get_cache_context().values()) > 50000:
                    B.reset_cache()
            gc.collect()
            sizes.append(w.alive().get(kind, 0))
            if len(sizes) > 1 and sizes[-1] <= 1.3 * sizes[-2] + 20:
                LIMIT[kind] = max(LIMIT.get(kind, 0), 1.5 * max(sizes))
                return True
            if sizes[-1] > 12000:
                break
            k *= 2
        LEAKS.add(kind)
        return False
    w, seen = Watch(), []
    round_(ops, 0, rounds, w, rng, seen, every)
    for k in set(seen):
        ctx.ev("done: " + k, seen.count(k))
    # proofs and interpretations are nowhere filed: gone even before the reset
    gc.collect()
    left = w.alive()
    for kind in ("proof", "interpretation"):
        made = sum(1 for k, _ in w.refs if k == kind)
        ctx.ev("watched: " + kind, made)
        ctx.check(left.get(kind, 0) <= max(KEPT / 3, LIMIT.get(kind, 0)) or bounded(kind, False), "kept: " + kind, lambda: "%d of %d still alive, %s" % (left[kind], made, describe()))
    B.reset_cache()
    gc.collect()
    left = w.alive()
    for kind in ("formula", "term"):
        made = sum(1 for k, _ in w.refs if k == kind)
        ctx.ev("watched: " + kind, made)
        ctx.check(left.get(kind, 0) <= max(KEPT + made * 0.005, LIMIT.get(kind, 0)) or bounded(kind, True), "kept after a reset: " + kind, lambda: "%d of %d still alive, %s" % (left[kind], made, describe()))
    ctx.peak("largest number of objects alive after a reset", sum(left.values()))


def case_first(ctx, ops, seed):
    """As the first thing in a process: no reset has been before."""
    ctx.ev("runs without an earlier reset")
    rounds_case(ctx, ops, seed, 0)


def settle():
    B.reset_cache()
    gc.collect()
    return sys.getallocatedblocks()


class Nothing:
    """Watches nothing."""

    def add(self, kind, o):
        pass

    formula = add = lambda self, *a, **k: None


def case_blocks(ctx, ops, seed):
    """The number of memory blocks in use does not grow with the number of operations."""
    rng = random.Random(seed)
    sink = type("Sink", (), {"append": lambda self, x: None})()
    w = Nothing()
    rounds = 120
    round_(ops, 0, rounds, w, rng, sink, 7)
    last = settle()
    grown = []
    n = rounds
    for _ in range(3):
        round_(ops, n, rounds, w, rng, sink, 7)
        n += rounds
        now = settle()
        grown.append(now - last)
        last = now
    while min(grown) > BLOCKS * rounds * len(ops) + 50 and rounds * len(ops) < 12000 and "memory" not in LEAKS:    # a memo of limited size fills up in the end
        ctx.ev("limits looked for")
        rounds *= 2
        round_(ops, n, rounds, w, rng, sink, 7)
        n += rounds
        now = settle()
        grown = [now - last]
        last = now
    least = min(grown)
    ctx.ev("operations between measurements", 3 * rounds * len(ops))
    if least > BLOCKS * rounds * len(ops) + 50:
        LEAKS.add("memory")
    ctx.peak("largest growth in blocks per thousand operations", int(1000 * max(0, least) / (rounds * len(ops))))
    ctx.check(least <= BLOCKS * rounds * len(ops) + 50, "memory grows", lambda: "blocks grew by %s in rounds of %d operations: %s" % (grown, rounds * len(ops), [(o[0], o[1]) for o in ops]))


def case_same(ctx, ops, seed):
    """Doing the same again and again, without resets, needs no more memory."""
    rng = random.Random(seed)
    sink = type("Sink", (), {"append": lambda self, x: None})()
    w = Nothing()
    B.reset_cache()

    def again():
        for _ in range(120):
            for op in ops:
                do(w, op, 1, rng)
        gc.collect()
        return sys.getallocatedblocks(), sum(len(e) for e in B.get_cache_context().values())
    again()
    last = again()
    grown = []
    for _ in range(3):
        now = again()
        grown.append((now[0] - last[0], now[1] - last[1]))
        last = now
    least = min(g[0] for g in grown)
    predicates = any(o[0] in ("proof", "first order") for o in ops)    # first-order atoms are compared by identity, so each one is filed
    ctx.ev("operations repeated", 600 * len(ops))
    if not predicates:
        ctx.check(max(g[1] for g in grown) == 0, "cache grows though nothing new is built", lambda: "%s: %s" % (grown, [(o[0], o[1]) for o in ops]))
        ctx.check(least <= BLOCKS * 120 * len(ops) + 50, "memory grows though nothing new is built", lambda: "%s: %s" % (grown, [(o[0], o[1]) for o in ops]))


KINDS = ("parse", "refused text", "refused operands", "build", "combine", "print", "copy", "evaluate", "proof", "first order")


def make_op(rng, kind):
    if kind == "proof":
        lg = rng.choice(("pl", "fol"))
        while True:
            items = ndgen.derivation(rng, lg, steps=rng.randint(1, 5), depth=2)[0] if lg == "pl" or rng.random() < 0.5 else ndquant.pattern(rng, rng.choice(ndquant.SLIPS))
            if not items:
                continue
            if rng.random() < 0.3:
                items = ndsound.mutate(rng, lg, items)
            if ndsound.usable(items):
                try:
                    fol.proof_of(renamed_proof(items, 0), {})
                except Exception:  # noqa: B902
                    continue
                return ("proof", rng.random() < 0.5, items, ())
    if kind == "first order":
        while True:
            f = ndgen.Formulas(rng, "fol")(2)
            try:
                if fol.read(fol.mk(f)) == f:
                    return (kind, "fol", f, ())
            except Exception:  # noqa: B902
                pass
    logic = "pl" if kind == "evaluate" else rng.choice(ref.LOGICS)
    g = gen.TreeGen(rng, logic, names=rng.choice((["a", "b", "c"], ["p", '"q r"'])), const=0.05)
    return (kind, logic, g.tree(rng.randint(2, 9)), g.tree(rng.randint(1, 5)))


def run_shard(ctx):
    rng = ctx.rng
    ctx.max_failures = 4   # what leaks makes everything slower
    ctx.run("first", ops=[make_op(rng, k) for k in KINDS * 2], seed=rng.getrandbits(32))
    for _ in range(ctx.n(100, 1500)):
        ks = KINDS if rng.random() < 0.4 else ["proof"] * 5 if rng.random() < 0.2 else [rng.choice(KINDS) for _ in range(3)]
        ops = [make_op(rng, k) for k in ks]
        ctx.sample([o[:2] for o in ops])
        for o in ops:
            ctx.distinct(o)
        ctx.run("rounds", ops=ops, seed=rng.getrandbits(32), every=rng.choice((0, 0, 9)))
    for _ in range(ctx.n(64, 600)):
        ops = [make_op(rng, k) for k in (["proof"] * 4 if rng.random() < 0.3 else rng.sample(KINDS, 4))]
        ctx.run("blocks", ops=ops, seed=rng.getrandbits(32))
    for _ in range(ctx.n(40, 600)):
        ops = [make_op(rng, k) for k in rng.sample(KINDS, 4)]
        ctx.run("same", ops=ops, seed=rng.getrandbits(32))
