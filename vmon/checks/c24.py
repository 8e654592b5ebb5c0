"""C24: an operation that is broken off leaves everything in order."""
import collections
import json
import random

from .. import bridge as B
from .. import faults, fol, gen, ndgen, ref, sched
from . import c12, c22

ERRORS = {"signal": faults.Interrupt, "ctrl-c": KeyboardInterrupt, "memory": MemoryError, "recursion": RecursionError}
VISITS = collections.Counter()
PLACES = set()


def plain(outcome):
    return json.dumps(outcome[0])


def prepare(spec, shared):
    """Like c12.prepare, with more operations."""
    k = spec[0]
    if k == "write proof":
        flat = fol.render(list(spec[1]), {})

        def run():
            p = fol.ND.Proof(flat)
            return [plain_proof(p), plain_flat(flat)], []
    elif k == "first order":
        def run():
            f = c22.call(spec[1], random.Random(spec[2]))
            return [str(f), str(~f), fol.show(fol.read(f))], [] if fol_constant(f) else [f]
    elif k == "refused call":
        fn = REFUSED[spec[1]]

        def run():
            return [str(fn())], []
    else:
        return c12.prepare(spec, shared)
    return run


def fol_constant(f):
    return isinstance(f, (B.base.TrueFormula, B.base.FalseFormula))


def plain_proof(p):
    return [[str(row), plain_proof(c) if isinstance(c, list) else str(c), str(j)] for row, c, j in p]


def plain_flat(x):
    return [plain_flat(y) if isinstance(y, (list, tuple)) else str(y) for y in x]


A = B.ATOM
REFUSED = {
    "evaluate over a list": lambda: B.evaluate_pl(A["pl"]("a") & A["pl"]("b"), ["a"]),
    "evaluate a temporal formula": lambda: B.evaluate_pl(B.ltl.Next(A["ltl"]("a")), {"a"}),
    "print a first-order formula": lambda: B.to_string(B.fol.Predicate("P", []) & B.fol.Predicate("Q", [])),
    "until over another logic": lambda: B.ltl.Until(A["ltl"]("a"), A["ltl"]("b"), A["pltl"]("a")),
    "implication over another logic": lambda: B.base.Implies(A["pl"]("a"), A["pl"]("b"), A["pltl"]("a")),
    "conjunction over no formula": lambda: B.base.And(A["pl"]("a"), A["pl"]("c"), "b"),
    "wrong name": lambda: A["pl"]("Wrong"),
    "sequence over formulas": lambda: B.ldl.Seq(B.ldl.Prop(A["pl"]("a")), A["pl"]("b")),
    "wrong arity": lambda: B.fol.Predicate("P", [B.fol.Variable("x")])(B.fol.Constant("a"), B.fol.Constant("b")),
    "quantifier over another logic": lambda: B.fol.ForAll(B.fol.Variable("x"), A["pl"]("a")),
    "single operand": lambda: B.ltl.Until(A["ltl"]("a")),
}


class Scene:
    """Operations over shared objects, and what these objects are."""

    def __init__(self, specs, warm, seed):
        B.reset_cache()
        self.shared = c12.Shared()
        self.ops = [prepare(s, self.shared) for s in specs]
        if warm == "empty":
            B.reset_cache()
        elif warm == "filled":
            for s in specs:
                for t in c12.warm_of(s) if s[0] in c12.KINDS else ():
                    B.build(t)
        self.objs = dict(self.shared.objs)
        self.seen = {k: self.face(k, o) for k, o in self.objs.items()}
        if specs[0][0] == "parse":   # so that the cache has something to lose
            B.ATOM[specs[0][1]]("bystander") if specs[0][1] in B.ATOM else None
        self.filed = [f for entries in B.get_cache_context().values() for f in entries]

    @staticmethod
    def face(k, o):
        """Everything that can be seen of an object, as plain data."""
        if k[0] == "proof":
            return shown(o)
        return [B.to_ref(o), hash(o), B.to_string(o) if o.logic != B.Logic.RE else str(o)]


def shown(proof):
    return [[row, shown(c) if isinstance(c, list) else str(c), id(c), str(j)] for row, c, j in proof]


def cache_in_order(built):
    """None or what is wrong with the cache."""
    n = 0
    for logic, entries in list(B.get_cache_context().items()):
        keys = set()
        for f in list(entries):
            n += 1
            if not isinstance(f, B.base.Formula):
                return "not a formula: %r" % (f,), n
            if f.logic != logic:
                return "%r filed under %s" % (f, logic), n
            if f not in entries:
                return "%r cannot be found" % (f,), n
            if logic == B.Logic.FOL:
                continue
            k = ref.key(B.to_ref(f))
            if k in keys:
                return "twice in the cache: %r" % (f,), n
            keys.add(k)
    lost = c12.registered(built)
    if lost:
        return "built but not in the cache: %s" % [B.to_ref(f) for f in lost], n
    return None, n


def judge(specs, warm, seed, how, at, expected):
    """Break off the first operation, then look at everything; (violation or None, observed)."""
    s = Scene(specs, warm, seed)
    obs = {"broken": False, "entries": 0, "where": None}
    if how == "deep":
        kind, got = faults.shallow(s.ops[0], at)
        obs["where"] = "room for %d frames" % at
    else:
        p = faults.Places(at, ERRORS[how])
        kind, got = p.run(s.ops[0])
        obs["where"] = p.where
        if p.where is None:
            return None, obs   # another way this time, for instance because something is remembered
    obs["broken"] = kind == "raised"
    text = lambda: "%s broken off by %s at %s" % (json.dumps(specs)[:800], how, obs["where"])  # noqa: E731
    if kind == "value" and plain(got) != expected[0]:
        return ("wrong result instead of an exception: " + specs[0][0], "%s: gave %s, otherwise %s" % (text(), plain(got)[:400], expected[0][:400])), obs
    if kind == "raised" and not isinstance(got, Exception) and type(got) is not ERRORS.get(how):
        return ("another exception", "%s: %r" % (text(), got)), obs
    del got
    for k, o in s.objs.items():
        try:
            now = s.face(k, o)
        except Exception as e:  # noqa: B902
            now = [type(e).__name__, str(e)[:200]]
        if now != s.seen[k]:
            return ("an object has changed", "%s: %s was %s, now %s" % (text(), k, s.seen[k], now)), obs
    bad, n = cache_in_order([] if specs[0][0] == "reset" else s.filed)
    obs["entries"] += n
    if bad:
        return ("cache not in order", "%s: %s" % (text(), bad)), obs
    reset = any(x[0] == "reset" for x in specs)
    built = []
    for i in random.Random(str((seed, at))).choice(((0, 1, 0), (1, 0, 1))):
        r = sched.outcome(s.ops[i])
        if plain(r) != expected[i]:
            return ("later operation gives another result: " + specs[i][0], "%s: then %s gave %s, otherwise %s" % (text(), json.dumps(specs[i])[:400], plain(r)[:400], expected[i][:400])), obs
        if not reset:
            built += r[1]
    bad, n = cache_in_order(built)
    obs["entries"] += n
    if bad:
        return ("cache not in order", "%s, both operations run again: %s" % (text(), bad)), obs
    B.reset_cache()
    if any(len(e) for e in B.get_cache_context().values()):
        return ("cache not empty after reset", text()), obs
    f = B.base.Or(B.ATOM["ltl"]("after"), B.ltl.Next(B.ATOM["ltl"]("a")))
    if c12.registered([f]):
        return ("built but not in the cache", "%s: a formula built after a reset" % text()), obs
    return None, obs


def alone(specs, warm, seed):
    """Result of each operation, all of them in one process, and the places of the first one."""
    s = Scene(specs, warm, seed)
    p = faults.Places()
    k, r = p.run(lambda: sched.outcome(s.ops[0]))
    if k == "raised":
        raise r
    first = plain(r)
    rest = [plain(sched.outcome(op)) for op in s.ops[1:]]
    return [first] + rest, p.log


def place(rng, kind, log, cap):
    """Places to break off at: the least visited ones first."""
    by = collections.defaultdict(list)
    for i, x in enumerate(log):
        by[x].append(i + 1)
    keys = list(by)
    rng.shuffle(keys)
    keys.sort(key=lambda x: VISITS[kind, x])
    for x in keys[:cap]:
        VISITS[kind, x] += 1
        PLACES.add(x)
        yield rng.choice(by[x])


def case_broken(ctx, specs, warm, seed, cap, child):
    rng = random.Random(seed)
    do = c12.fresh if child else (lambda fn: fn())
    expected, log = do(lambda: alone(specs, warm, seed))
    if specs[0][0] == "reset" or specs[1][0] == "reset":
        expected = expected[:2]
    plan = [(rng.choice(("signal", "ctrl-c", "memory", "recursion")), at) for at in place(rng, specs[0][0], log, cap)]
    plan += [("deep", rng.choice((2, 5, 10, 15, 20, 30, 40, 60, 80))) for _ in range(max(1, cap // 6))]
    for how, at in plan:
        bad, obs = do(lambda: judge(specs, warm, seed, how, at, expected))
        ctx.ev("operations started")
        if obs["broken"]:
            ctx.ev("broken off: " + specs[0][0])
            ctx.ev("by " + how)
            if child:
                ctx.ev("broken off as the first thing in a process")
        ctx.ev("cache entries inspected", obs["entries"])
        ctx.digests.add(repr((specs[0][0], specs[1][0], obs["where"])))
        if bad:
            ctx.fail(*bad)
            return


def make_pair(rng):
    a = more(rng) or c12.make_spec(rng)
    x = rng.random()
    if x < 0.2 and a[0] in c12.KINDS:   # the same kind of operation upon something else
        for _ in range(20):
            b = c12.make_spec(rng, a)
            if b[0] == a[0] and b != a:
                return a, b
    b = a if x > 0.9 else more(rng) or c12.make_spec(rng, a if a[0] in c12.KINDS else None)
    return a, b


def more(rng):
    x = rng.random()
    if x < 0.05:
        return ("refused call", rng.choice(sorted(REFUSED)))
    if x < 0.1:
        while True:
            s = c12.make_spec(rng)
            if s[0] == "proof":
                return ("write proof", s[1])
    if x < 0.15:
        while True:
            f = ndgen.Formulas(rng, "fol")(2)
            try:
                if fol.read(fol.mk(f)) == f:
                    return ("first order", f, rng.getrandbits(32))
            except Exception:  # noqa: B902
                pass
    return None


def run_shard(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(120, 2400)):
        a, b = make_pair(rng)
        if rng.random() < 0.6:
            lg = rng.choice(ref.LOGICS)
            a = ("parse", lg, gen.text_of(rng, lg, c12.small(rng, lg, 5)))
            if rng.random() < 0.5:
                b = ("parse", lg, gen.text_of(rng, lg, c12.small(rng, lg, 5)))
        ctx.run("broken", specs=(a, b), warm=rng.choice(("empty", "shared", "filled")), seed=rng.getrandbits(32), cap=8, child=True)
    for _ in range(ctx.n(1600, 30000)):
        a, b = make_pair(rng)
        ctx.sample(json.dumps((a, b)))
        ctx.run("broken", specs=(a, b), warm=rng.choice(("empty", "empty", "shared", "filled")), seed=rng.getrandbits(32), cap=30, child=False)
    ctx.ev("distinct places of interruption", len(PLACES))
