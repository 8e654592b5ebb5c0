"""C12: concurrent use gives the sequential results."""
import collections
import copy
import json
import os
import pickle
import random
import sys
import threading

from .. import bridge as B
from .. import fol, gen, ndgen, ndsound, ref, sched
from ..core import tup

NAMES = ["a", "b", "c"]


class Shared:
    """Objects that both operations use; equal trees are one object."""

    def __init__(self):
        self.objs = {}

    def get(self, tree):
        if tree not in self.objs:
            self.objs[tree] = B.build(tree)
        return self.objs[tree]

    def proof(self, items):
        k = ("proof", items)
        if k not in self.objs:
            self.objs[k] = fol.proof_of(list(items), {})[0]
        return self.objs[k]


def prepare(spec, shared):
    """A function that runs the operation and gives (plain result, formulas that it built)."""
    k = spec[0]
    if k == "parse":
        parse, text = B.PARSE[spec[1]], spec[2]

        def run():
            f = parse(text)
            return [B.to_ref(f), hash(f)], [f]
    elif k == "atom":
        def run():
            f = B.ATOM[spec[1]](spec[2])
            return [B.to_ref(f), hash(f)], [f]
    elif k == "const":
        def run():
            f = B.leaf(spec[1])
            g = ~f
            return [B.to_ref(f), B.to_ref(g), f == g], [f, g]
    elif k == "build":
        def run():
            f = B.build(spec[1])
            return [B.to_ref(f), hash(f)], [f]
    elif k == "combine":
        xs = [shared.get(t) for t in spec[2]]
        cls = B.CLS[spec[1]]
        given = [y for x in xs for y in B.subformulas(x)]  # older than the last reset, and may come out again

        def run():
            f = cls(*xs)
            return [B.to_ref(f), hash(f)], [] if f in given else [f]
    elif k == "compare":
        f, g = shared.get(spec[1]), shared.get(spec[2])

        def run():
            return [f == g, g == f, len({f, g}), hash(f), hash(g)], []
    elif k == "print":
        f = shared.get(spec[1])

        def run():
            return [B.to_string(f)], []
    elif k == "eval":
        f, i = shared.get(spec[1]), set(spec[2])
        d = {n: n in i for n in NAMES}

        def run():
            return [bool(B.evaluate_pl(f, i)), bool(B.evaluate_pl(f, d))], []
    elif k == "copies":
        f = shared.get(spec[1])

        def run():
            g, h = pickle.loads(pickle.dumps(f, spec[2])), copy.deepcopy(f)
            return [B.to_ref(g), B.to_ref(h), g == f, hash(g) == hash(f), hash(h) == hash(f)], []
    elif k == "proof":
        p = shared.proof(spec[1])

        def run():
            return [fol.ND.check(p)], []
    elif k == "abbreviation":
        fn = {"ltl last": B.ltl.Last, "pltl start": B.pltl.Start, "ldl end": B.ldl.End, "ldl last": B.ldl.Last}[spec[1]]

        def run():
            f = fn()
            return [B.to_ref(f)], [f]
    elif k == "refused":
        f, g = shared.get(spec[1]), shared.get(spec[2])

        def run():
            return [B.to_ref(B.base.And(f, g))], []
    elif k == "reset":
        def run():
            B.reset_cache()
            return ["reset"], []
    else:
        raise RuntimeError(k)
    return run


def warm_of(spec):
    """Trees to build before, so that a cache which is not empty is met as well."""
    return [t for t in spec[1:] if isinstance(t, tuple) and t and isinstance(t[0], str) and (t[0] in ref.LEAVES or t[0] in B.CLS)]


def setup(specs, warm, seed):
    B.reset_cache()
    shared = Shared()
    ops = [prepare(s, shared) for s in specs]
    if warm == "empty":
        B.reset_cache()
    elif warm == "filled":
        for s in specs:
            for t in warm_of(s):
                B.build(t)
    return ops


def registered(objs):
    ctx = B.get_cache_context()
    return [f for f in objs if f not in ctx.get(f.logic, {})]


def judge(specs, warm, seed, plan, expected):
    """Run one schedule; returns (violation or None, what was observed)."""
    ops = setup(specs, warm, seed)
    r = sched.Run(ops, plan)
    if not r.go():
        return ("operations do not end", "%s" % (r.results,)), None
    seen = {"switches": r.switches, "gave_up": r.gave_up, "n": list(r.n)}
    for s, want, got in zip(specs, expected, r.results):
        if json.dumps(got[0]) != want:
            return ("concurrent result differs: " + s[0], "%s gave %s, alone %s; plan %s, switched at %s" % (json.dumps(s)[:400], json.dumps(got[0])[:400], want[:400], plan, r.switches)), seen
    built = [f for got in r.results for f in got[1]]
    if not any(s[0] == "reset" for s in specs):
        lost = registered(built)
        if lost:
            return ("formula missing from the cache", "%s of %s; plan %s, switched at %s" % ([ref.show(B.to_ref(f)) for f in lost], specs, plan, r.switches)), seen
    seen["registered"] = len(built)
    for logic, entries in B.get_cache_context().items():
        if any(f.logic != logic for f in list(entries)):
            return ("entry filed under another logic", "%s after %s" % (logic, specs)), seen
    # quiet again: everything works as on a fresh start
    f = B.ATOM["pl"]("after")
    g = B.base.And(f, B.ATOM["pl"]("a"))
    if registered([f, g]):
        return ("formula missing from the cache", "built after %s" % (specs,)), seen
    return None, seen


def alone(specs, warm, seed):
    out = []
    for i in range(len(specs)):
        ops = setup(specs, warm, seed)
        res, rec = sched.points(ops[i])
        out.append((json.dumps(res[0]), rec))
    return out


def fresh(fn):
    """Run fn in a child process in which nothing was done yet, and return its answer."""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            data = pickle.dumps(fn())
            while data:
                data = data[os.write(w, data):]
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    _, st = os.waitpid(pid, 0)
    if st != 0 or not data:
        raise RuntimeError("child process failed: %s" % st)
    return pickle.loads(data)


VISITS = collections.Counter()


def choose(rng, kinds, rec, cap):
    """Points to switch at: the least visited instructions first, then random ones."""
    by_loc = collections.defaultdict(list)
    for i, loc in enumerate(rec):
        by_loc[loc].append(i + 1)
    locs = list(by_loc)
    rng.shuffle(locs)
    locs.sort(key=lambda x: VISITS[kinds, x])
    out = []
    for loc in locs[:cap]:
        VISITS[kinds, loc] += 1
        out.append(rng.choice(by_loc[loc]))
    return out


def plans(rng, n0, n1, k):
    """Plans that switch first at instruction k of thread 0."""
    x = rng.random()
    if x < 0.6 or n1 == 0:
        return [(0, k), (1, None), (0, None)]
    m = rng.randint(1, n1)
    if x < 0.85:
        return [(0, k), (1, m), (0, None), (1, None)]
    return [(0, k), (1, m), (0, rng.randint(1, max(1, n0 - k))), (1, rng.randint(1, max(1, n1 - m))), (0, rng.randint(1, 30)), (1, None), (0, None)]


def case_pair(ctx, specs, warm, seed, cap, child, plan=None):
    rng = random.Random(seed)
    do = fresh if child else (lambda fn: fn())
    base = do(lambda: alone(specs, warm, seed))
    expected = [b[0] for b in base]
    if child:
        # a second sequential answer: alone in one and the same fresh process
        expected2 = [b[0] for b in do(lambda: [(json.dumps(sched.outcome(setup(specs, warm, seed)[i])[0]),) for i in range(len(specs))])]
        if strip(expected) != strip(expected2):
            ctx.fail("sequential results differ", "%s: %s and %s" % (specs, expected, expected2))
            return
    for order in ((0, 1), (1, 0)):
        ss = [specs[i] for i in order]
        ex = [expected[i] for i in order]
        recs = [base[i][1] for i in order]
        ks = choose(rng, tuple(s[:2] if s[0] == "parse" else s[:1] for s in ss), recs[0], cap) if plan is None else [None]
        for k in ks:
            pl = plan or plans(rng, len(recs[0]), len(recs[1]), k)
            bad, seen = do(lambda: judge(ss, warm, seed, pl, ex))
            ctx.ev("schedules")
            if child:
                ctx.ev("schedules in a fresh process")
            if seen:
                ctx.ev("switches", len(seen["switches"]))
                ctx.ev("operations compared", len(ss))
                ctx.ev("instructions under control", sum(seen["n"]))
                if seen["gave_up"]:
                    ctx.ev("schedules with a blocked thread")
                if seen.get("registered"):
                    ctx.ev("formulas looked up in the cache", seen["registered"])
                for s in seen["switches"]:
                    LOCS.add(s[1:])
                ctx.digests.add(repr((ss[0][0], ss[1][0], seen["switches"])) if len(ctx.digests) < 60000 else "more")
            if bad:
                ctx.fail(*bad)
                return
        for s in ss[:1]:
            ctx.ev("preempted: " + s[0])


LOCS = set()


def strip(results):
    return [json.dumps([x for x in json.loads(r) if not (isinstance(x, int) and abs(x) > 1 << 20)]) for r in results]


def small(rng, logic, n=6, sort=None):
    g = gen.TreeGen(rng, logic, names=NAMES)
    return g.tree(rng.randint(1, n), sort) if sort else g.tree(rng.randint(1, n))


KINDS = ("parse", "parse", "atom", "const", "build", "build", "combine", "combine", "combine", "compare", "print", "eval", "copies", "proof", "abbreviation", "reset", "refused")


def can_be_built(items):
    """A quantifier over falsity alone, for instance, cannot."""
    try:
        fol.proof_of(list(items), {})
    except Exception:  # noqa: B902
        return False
    return True


def make_spec(rng, near=None):
    """A random operation; near: one that it should collide with."""
    x = rng.random()
    if near is not None and x < 0.2:
        return near
    logic = rng.choice(ref.LOGICS)
    if near is not None and rng.random() < 0.6:
        ts = warm_of(near)
        if ts:
            logic = ref.logic_of(ts[0])
            logic = "ldl" if logic == "re" else logic
        elif near[0] in ("parse", "atom"):
            logic = near[1]
    k = near[0] if near is not None and x < 0.6 else rng.choice(KINDS)
    old = [t for t in (warm_of(near) if near else []) if ref.logic_of(t) == logic]

    def tree(n=6):
        return rng.choice(old) if old and rng.random() < 0.5 else small(rng, logic, n)
    if k == "parse":
        t = tree(8)
        toks = gen.Render(rng, logic).tokens(t)
        return ("parse", logic, gen.mutate_text(rng, logic, toks) if rng.random() < 0.15 else gen.join(rng, toks))
    if k == "atom":
        lg = rng.choice(("pl", "ltl", "pltl"))
        return ("atom", lg, rng.choice(NAMES + ["new"]))
    if k == "const":
        return ("const", rng.choice([(x, lg) for x in ("True", "False") for lg in ("pl", "ltl", "pltl", "ldl")] + [(x, lg) for x in ("PTrue", "PFalse") for lg in ("ltl", "pltl")]))
    if k == "build":
        return ("build", tree(10))
    if k == "combine":
        return ("combine", rng.choice(ref.BOOL_NARY), tuple(tree() for _ in range(rng.randint(2, 4))))
    if k == "compare":
        t = tree()
        return ("compare", t, rng.choice((gen.variant(rng, t), gen.near_miss(rng, t), tree())))
    if k == "print":
        return ("print", tree(10))
    if k == "eval":
        t = rng.choice(old) if old and logic == "pl" else small(rng, "pl", 10)
        return ("eval", t, tuple(n for n in NAMES if rng.random() < 0.5))
    if k == "copies":
        return ("copies", tree(8), rng.randint(0, pickle.HIGHEST_PROTOCOL))
    if k == "proof":
        while True:
            kind = rng.choice(("pl", "fol"))
            items, _ = ndgen.derivation(rng, kind, steps=rng.randint(0, 2))
            if rng.random() < 0.4:
                items = ndsound.mutate(rng, kind, items)
            if ndsound.usable(items) and can_be_built(items):
                return ("proof", tup(items))
    if k == "abbreviation":
        return ("abbreviation", rng.choice(("ltl last", "pltl start", "ldl end", "ldl last")))
    if k == "refused":
        return ("refused", ("Next", ("Atomic", "ltl", "a")), ("Once", ("Atomic", "pltl", rng.choice(NAMES))))
    return ("reset",)


def case_stress(ctx, seed, threads, rounds):
    """Free running threads over a few operations and shared objects."""
    rng = random.Random(seed)
    specs = [make_spec(rng) for _ in range(10)]
    resets = rng.random() < 0.5
    specs = [s for s in specs if s[0] != "reset"]
    for s in list(specs[:4]):
        specs.append(make_spec(rng, s))
    specs = [s for s in specs if s[0] != "reset"]
    B.reset_cache()
    shared = Shared()
    expected = [json.dumps(sched.outcome(prepare(s, shared))[0]) for s in specs]
    old = sys.getswitchinterval()
    try:
        for _ in range(rounds):
            B.reset_cache()
            shared = Shared()
            ops = [prepare(s, shared) for s in specs]
            bad, built = [], []
            gate = threading.Barrier(threads)
            count = [0] * threads

            def main(tid, order):
                mine = []
                gate.wait()
                for i in order:
                    if i is None:
                        B.reset_cache()
                        continue
                    got = sched.outcome(ops[i])
                    count[tid] += 1
                    mine.extend(got[1])
                    if json.dumps(got[0]) != expected[i]:
                        bad.append((specs[i], got[0], expected[i]))
                        break
                built.extend(mine)
            orders = []
            for _ in range(threads):
                o = list(range(len(specs))) * 2
                rng.shuffle(o)
                if resets:
                    for _ in range(3):
                        o.insert(rng.randrange(len(o)), None)
                orders.append(o)
            sys.setswitchinterval(rng.choice((1e-6, 1e-6, 1e-5, 1e-4)))
            ts = [threading.Thread(target=main, args=(i, o), daemon=True) for i, o in enumerate(orders)]
            for t in ts:
                t.start()
            for t in ts:
                t.join(120)
            sys.setswitchinterval(old)
            ctx.ev("free-running operations compared", sum(count))
            if not ctx.check(not any(t.is_alive() for t in ts), "operations do not end", "%s" % (specs,)):
                return
            if bad:
                ctx.fail("concurrent result differs: " + bad[0][0][0], "%s gave %s, alone %s, in free-running threads" % (json.dumps(bad[0][0])[:500], json.dumps(bad[0][1])[:500], bad[0][2][:500]))
                return
            if not resets:
                lost = registered(built)
                ctx.ev("formulas looked up in the cache", len(built))
                if not ctx.check(not lost, "formula missing from the cache", lambda: "%s, free-running threads" % [ref.show(B.to_ref(f)) for f in lost[:3]]):
                    return
    finally:
        sys.setswitchinterval(old)


def make_pair(rng):
    s = make_spec(rng)
    return (s, make_spec(rng, s))


def run_shard(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(160, 4000)):
        specs = make_pair(rng)
        if rng.random() < 0.7:
            lg = rng.choice(ref.LOGICS)
            specs = tuple(("parse", lg, gen.text_of(rng, lg, small(rng, lg, 5))) for _ in "ab")
        ctx.run("pair", specs=specs, warm=rng.choice(("empty", "shared", "filled")), seed=rng.getrandbits(32), cap=10, child=True)
    for n in range(ctx.n(1000, 24000)):
        specs = make_pair(rng)
        ctx.sample(json.dumps(specs))
        ctx.run("pair", specs=specs, warm=rng.choice(("empty", "empty", "shared", "filled")), seed=rng.getrandbits(32), cap=30, child=False)
    for _ in range(ctx.n(80, 2400)):
        ctx.run("stress", seed=rng.getrandbits(32), threads=rng.choice((2, 3, 4, 8)), rounds=6)
    ctx.ev("distinct instructions switched at", len(LOCS))
