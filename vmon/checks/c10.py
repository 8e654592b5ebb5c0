"""C10: formulas are immutable; no operation changes its inputs."""
import copy
import pickle
import random

from .. import bridge as B
from .. import fol, gen, ndgen, ref
from .c16 import snapshot as proof_snapshot

TEXT = ("pl", "ltl", "pltl", "ldl")


def picture(kind, o):
    """Everything an object reports about itself."""
    if kind == "formula":
        return (B.to_ref(o), str(o), hash(o), o.logic, B.to_string(o) if o.logic != B.Logic.RE else None, type(o), tuple(type(s) for s in B.subformulas(o)))
    if kind == "fol":
        return (fol.read(o), str(o), hash(o), o.logic, type(o))
    if kind == "interp":
        return (type(o), list(o.items()) if isinstance(o, dict) else set(o))
    if kind == "proof":
        return proof_snapshot(o)
    if kind == "written":
        return written(o)
    return copy.deepcopy(o)


def written(x):
    """The list from which a proof was made, down to every object in it."""
    return [written(y) if isinstance(y, (list, tuple)) else (id(y), str(y)) for y in x]


class Pool:
    def __init__(self, ctx):
        self.ctx = ctx
        self.items = []
        self.log = []

    def add(self, kind, o, limit=14):
        if kind != "formula" or sum(1 for _ in B.subformulas(o)) <= 60:
            self.items.append((kind, o, picture(kind, o), hash(o) if kind in ("formula", "fol") else None))
        if len(self.items) > limit:
            del self.items[self.ctx.rng.randrange(len(self.items) - 3)]

    def pick(self, rng, kind, test=None):
        c = [o for k, o, _, _ in self.items if k == kind and (test is None or test(o))]
        return rng.choice(c) if c else None

    def look(self):
        for kind, o, before, h in self.items:
            self.ctx.ev("pictures compared")
            if kind in ("formula", "fol") and not self.ctx.check(hash(o) == h, "hash changed", lambda: "%s after %s" % (before[1], self.log[-5:])):
                return
            now = picture(kind, o)
            if not self.ctx.check(now == before, "%s changed" % {"fol": "formula", "interp": "interpretation", "written": "list that a proof was made from"}.get(kind, kind), lambda: "%s became %s after %s" % (before, now, self.log[-5:])):
                return


def tamper(rng, o):
    """Try to change a formula through what it hands out. Whatever happens must leave it as it is."""
    done = []
    for name in ("operands", "argument", "regular_expression", "tail_formula", "variable", "formula"):
        try:
            v = getattr(o, name)
        except AttributeError:
            continue
        if isinstance(v, (list, dict, set)) or name.endswith("operands"):
            for act in (lambda: v.append(o), lambda: v.reverse(), lambda: v.sort(key=str), lambda: v.__setitem__(0, o), lambda: v.insert(0, o), lambda: v.pop(), lambda: v.remove(v[0]), lambda: v.extend([o, o]), lambda: v.clear(), lambda: v.add(o), lambda: v.discard(o), lambda: v.__iadd__([o])):
                if rng.random() < 0.5:
                    continue
                try:
                    act()
                    done.append(name)
                except (AttributeError, TypeError, IndexError, ValueError, KeyError):
                    pass
    for name, value in (("operands", ()), ("argument", o), ("name", "changed"), ("logic", B.Logic.MSO), ("regular_expression", o), ("tail_formula", o), ("formula", o), ("variable", None)):
        if name in dir(type(o)):
            try:
                setattr(o, name, value)
            except (AttributeError, TypeError):
                pass
    return done


def step(ctx, rng, pool, op):
    ev = ctx.ev
    if op == "build":
        logic = rng.choice(TEXT)
        f = B.build(gen.TreeGen(rng, logic, names=["a", "b", "c"]).tree(rng.randint(1, 10)), rng)
        pool.add("formula", f)
    elif op == "parse":
        logic = rng.choice(TEXT)
        pool.add("formula", B.PARSE[logic](gen.text_of(rng, logic, gen.TreeGen(rng, logic, names=["a", "b", "c"]).tree(rng.randint(1, 10)))))
    elif op == "regex":
        pool.add("formula", B.build(gen.TreeGen(rng, "ldl", names=["a", "b"]).tree(rng.randint(1, 8), "re")))
    elif op == "fol":
        pool.add("fol", fol.mk(ndgen.Formulas(rng, "fol")(2), {} if rng.random() < 0.5 else None))
    elif op == "folargs":
        args = [B.fol.Variable("x"), B.fol.Constant("k")][:rng.randint(1, 2)]
        p = B.fol.Predicate("P", args)
        q = p(*args)
        r = B.fol.Predicate("Q") if rng.random() < 0.5 else B.fol.Predicate("Q", [])
        for f in (p, q, r):
            pool.add("fol", f)
        pictures = [picture("fol", f) for f in (p, q, r)]
        rng.choice((args.append, args.remove))(args[0])
        ctx.check([picture("fol", f) for f in (p, q, r)] == pictures, "formula changed with the list it was built from", lambda: "%s became %s" % (pictures, [picture("fol", f) for f in (p, q, r)]))
    elif op == "interp":
        s = {n for n in "abc" if rng.random() < 0.5}
        pool.add("interp", s if rng.random() < 0.5 else {n: n in s for n in "abc" if rng.random() < 0.8})
    elif op == "proof":
        items, _ = ndgen.derivation(rng, rng.choice(("pl", "fol")), steps=rng.randint(0, 6))
        if rng.random() < 0.5:
            pool.add("proof", fol.proof_of(items, {} if rng.random() < 0.5 else None)[0])
        else:
            flat = fol.render(items, {} if rng.random() < 0.5 else None)
            pool.add("written", flat)
            pool.add("proof", fol.ND.Proof(flat))
    elif op == "rewrite":
        flat = pool.pick(rng, "written")
        if flat is not None:
            p, q = fol.ND.Proof(flat), fol.ND.Proof(flat)
            ctx.check(fol.ND.check(p) is fol.ND.check(q) is True, "verdict differs when the proof is written again", lambda: str(p))
            ev("proofs written again")
    elif op == "check":
        p = pool.pick(rng, "proof")
        if p is not None:
            fol.ND.check(p)
            ev("proofs checked")
    elif op == "combine":
        f = pool.pick(rng, "formula")
        if f is None:
            return
        same = [o for k, o, _, _ in pool.items if k == "formula" and o.logic == f.logic]
        xs = [f] + [rng.choice(same) for _ in range(rng.randint(0, 3))]
        rng.shuffle(xs)
        lname = B.LOGIC_NAME[f.logic]
        if lname == "re":
            c = rng.choice(("Seq", "Union", "Star", "Diamond", "Box"))
        else:
            c = rng.choice({"ltl": ref.LTL_UN + ref.LTL_BIN, "pltl": ref.PLTL_UN + ref.PLTL_BIN, "ldl": ("Diamond", "Test"), "pl": ("Prop",)}[lname] + ref.BOOL_NARY * 2 + ("Not", "invert", ">>"))
        if c == "invert":
            g = ~f
        elif c == ">>":
            g = f >> xs[0]
        elif c in ("Diamond", "Box"):
            re = f if lname == "re" else B.ldl.Prop(B.pl.Atomic("a"))
            tail = f if lname == "ldl" else B.ldl.End()
            g = B.CLS[c](re, tail)
        elif c in B.UNARY_TAGS:
            g = B.CLS[c](f)
        else:
            if len(xs) < 2:
                xs.append(rng.choice(same))
            g = B.CLS[c](*xs)
        pool.add("formula", g)
        ev("combinations")
    elif op == "folcombine":
        f, g = pool.pick(rng, "fol"), pool.pick(rng, "fol")
        if f is not None:
            h = rng.choice((lambda: ~f, lambda: f & g, lambda: f | g, lambda: f >> g, lambda: B.fol.ForAll(B.fol.Variable("x"), f), lambda: B.base.Implies(f, g), lambda: B.base.Equivalence(f, g) if f is not g else f))()
            pool.add("fol", h)
    elif op == "use":
        kind = rng.choice(("formula", "fol"))
        f, g = pool.pick(rng, kind), pool.pick(rng, kind)
        if f is not None:
            f == g, f != g, hash(f), str(f), repr(f), {f: 1}.get(g), f in {g}, f in [g], bool(f == 3), f.logic
            if kind == "formula" and f.logic != B.Logic.RE:
                B.to_string(f)
            ev("uses")
    elif op == "eval":
        f, i = pool.pick(rng, "formula", lambda o: o.logic == B.Logic.PL), pool.pick(rng, "interp")
        if f is not None and i is not None:
            B.evaluate_pl(f, i)
            ev("evaluations")
    elif op == "copy":
        f = pool.pick(rng, "formula")
        if f is not None:
            g = rng.choice((copy.copy, copy.deepcopy, lambda o: pickle.loads(pickle.dumps(o))))(f)
            pool.add("formula", g)
            ev("copies")
    elif op == "bad":
        f, g = pool.pick(rng, "formula"), pool.pick(rng, "formula")
        if f is not None:
            for act in (lambda: B.base.And(f, 3), lambda: B.ltl.Until(f, g), lambda: B.evaluate_pl(f, [1]), lambda: B.base.Or(f, B.fol.Predicate("P")), lambda: B.ldl.Diamond(f, g), lambda: B.parse_pl("a &"), lambda: f & None, lambda: f < g):
                try:
                    act()
                except Exception:  # noqa: B902
                    pass
            ev("refused operations")
    elif op == "reset":
        B.reset_cache()
        ev("resets")
    elif op == "tamper":
        for kind in ("formula", "fol"):
            f = pool.pick(rng, kind)
            if f is not None:
                tamper(rng, f)
                ev("attempts to change a formula")


OPS = ("build", "parse", "regex", "fol", "folargs", "interp", "proof") + ("combine",) * 5 + ("folcombine", "use", "use", "eval", "eval", "copy", "check", "rewrite", "bad", "reset", "tamper", "tamper")


def case_history(ctx, ops):
    pool = Pool(ctx)
    ctx.rng = random.Random(len(ops))
    B.reset_cache()
    for op, seed in ops:
        pool.log.append(op)
        step(ctx, random.Random(seed), pool, op)
        ctx.ev("operation " + op)
        pool.look()


def run_shard(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(2400, 40000)):
        first = ["build", "parse", "interp", "proof", "fol", "regex"]
        rng.shuffle(first)
        ops = [(o, rng.getrandbits(32)) for o in first[:4] + [rng.choice(OPS) for _ in range(rng.randint(5, 30))]]
        ctx.distinct(ops)
        ctx.sample(" ".join(o for o, _ in ops))
        ctx.run("history", ops=ops)
        ctx.rng = rng
