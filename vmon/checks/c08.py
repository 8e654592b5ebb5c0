"""C08: formulas survive pickling and copying, also across interpreters."""
import base64
import copy
import json
import os
import pickle
import random
import subprocess
import sys
import tempfile

from .. import bridge as B
from .. import core, fol, gen, ndgen, ndsound, ref


def same(ctx, f, g, what):
    rf = B.to_ref(f)
    ok = ctx.check(type(g) is type(f) and B.to_ref(g) == rf, "copy differs", lambda: "%s of %s is %s" % (what, ref.show(rf), ref.show(B.to_ref(g))))
    ctx.check(f == g and g == f and not (f != g), "copy is not equal", lambda: "%s of %s" % (what, ref.show(rf)))
    ctx.check(hash(f) == hash(g), "copy hashes differently", lambda: "%s of %s" % (what, ref.show(rf)))
    ctx.check(g in {f} and f in {g: 1}, "copy cannot be found in a set", lambda: "%s of %s" % (what, ref.show(rf)))
    ctx.check(g.logic == f.logic, "copy is of another logic", lambda: "%s of %s" % (what, ref.show(rf)))
    if f.logic != B.Logic.RE:
        ctx.check(B.to_string(g) == B.to_string(f), "copy prints differently", lambda: "%s of %s" % (what, ref.show(rf)))
        a, b = ~f, ~g
        ctx.check(a == b and hash(a) == hash(b), "formulas over the copy differ", lambda: "~%s of %s" % (what, ref.show(rf)))
    if f.logic == B.Logic.PL:
        for s in list(ref.subsets(sorted(ref.names(rf))[:3])):
            ctx.check(B.evaluate_pl(g, set(s)) == B.evaluate_pl(f, set(s)), "copy evaluates differently", lambda: "%s of %s under %s" % (what, ref.show(rf), sorted(s)))
    ctx.ev("copies compared")
    return ok


def case_copies(ctx, tree, seed):
    rng = random.Random(seed)
    prehash = rng.random() < 0.5
    f = B.build(tree, rng)
    if prehash:
        hash(f)
    r = B.to_ref(f)
    other = B.build(tree)
    for p in range(pickle.HIGHEST_PROTOCOL + 1):
        g = pickle.loads(pickle.dumps(f, p))
        same(ctx, f, g, "pickle protocol %d" % p)
        ctx.ev("pickle protocol %d" % p)
        same(ctx, other, g, "pickle protocol %d, original rebuilt" % p)
    same(ctx, f, copy.copy(f), "copy.copy")
    same(ctx, f, copy.deepcopy(f), "copy.deepcopy")
    same(ctx, f, copy.copy(pickle.loads(pickle.dumps(copy.deepcopy(f)))), "a chain of copies")
    # inside containers, sharing preserved
    l, d, s = pickle.loads(pickle.dumps(([f, f], {f: 1}, {f})))
    ctx.check(l[0] is l[1] and f in d and f in s and l[0] in d and l[1] in s, "copy inside containers is lost", lambda: ref.show(r))
    l, d, s = copy.deepcopy(([f, f], {f: 1}, {f}))
    ctx.check(f in d and f in s and l[0] in d and l[1] in s, "deep copy inside containers is lost", lambda: ref.show(r))
    ctx.check(B.to_ref(f) == r and f == other and hash(f) == hash(other), "copying changed the original", lambda: ref.show(r))
    B.reset_cache()
    same(ctx, f, pickle.loads(pickle.dumps(f)), "pickle after a reset")
    if ref.size(r) > 1:
        ctx.distinct(r)


def same_fol(ctx, o, c, f, what):
    """A copy of a first-order formula: equality is by identity of its predicates, so what counts is how it is made up."""
    try:
        ok = type(c) is type(o) and fol.read(c) == f
    except Exception as e:  # noqa: B902
        ctx.fail("copy of a first-order formula is broken", "%s of %s: %s: %s" % (what, fol.show(f), type(e).__name__, str(e)[:200]))
        return
    ctx.check(ok, "copy of a first-order formula differs", lambda: "%s of %s is %s" % (what, fol.show(f), fol.show(fol.read(c))))
    ctx.check(str(c) == str(o) and c.logic is o.logic, "copy of a first-order formula displays differently", lambda: "%s of %s: %s" % (what, fol.show(f), str(c)))
    ctx.check(hash(c) == hash(c) and c == c and c in {c}, "copy of a first-order formula is not itself", lambda: "%s of %s" % (what, fol.show(f)))
    R = fol.R
    ctx.check(fol.ND.check(fol.ND.Proof([1, o, [R.premise], 2, c, [R.copy, 1]])) is True, "copy of a first-order formula is another one to a proof", lambda: "%s of %s" % (what, fol.show(f)))
    ctx.ev("copies of first-order formulas compared")


def ways(rng):
    for p in range(pickle.HIGHEST_PROTOCOL + 1):
        yield "pickle protocol %d" % p, lambda x, p=p: pickle.loads(pickle.dumps(x, p))
    yield "copy.copy", copy.copy
    yield "copy.deepcopy", copy.deepcopy
    yield "a chain of copies", lambda x: copy.copy(pickle.loads(pickle.dumps(copy.deepcopy(x))))


def case_firstorder(ctx, f, seed):
    rng = random.Random(seed)
    o = fol.mk(f, {} if rng.random() < 0.4 else None)
    if rng.random() < 0.5:
        hash(o)
    for what, fn in ways(rng):
        same_fol(ctx, o, fn(o), f, what)
    if len(list(fol.subs(f))) > 1:
        ctx.distinct(f)


def rows(proof):
    return [(r, rows(c) if isinstance(c, list) else str(c), j if not isinstance(j, (list, tuple)) else list(j)) for r, c, j in proof]


def case_proofs(ctx, items, right):
    try:
        proof, _ = fol.proof_of(list(items))
    except Exception:  # noqa: B902
        ctx.ev("proofs that cannot be built")
        return
    want = rows(proof)
    v = fol.ND.check(proof)
    for what, fn in ways(None):
        c = fn(proof)
        ctx.check(type(c) is type(proof) and rows(c) == want, "copy of a proof differs", lambda: "%s of\n%s" % (what, fol.show_items(list(items))))
        ctx.check(fol.ND.check(c) is v, "copy of a proof has another verdict", lambda: "%s of\n%s" % (what, fol.show_items(list(items))))
        ctx.ev("copies of proofs compared: verdict %s" % v)
    ctx.check(rows(proof) == want, "copying changed the proof", lambda: fol.show_items(list(items)))


def built(t, rng=None):
    return fol.mk(t[1]) if t[0] == "fol" else B.build(t, rng)


def case_across(ctx, trees, seed, hashseeds):
    """Pickle here, load in another interpreter with another hash seed, compare there; and back."""
    rng = random.Random(seed)
    items = []
    for t in trees:
        f = built(t, rng)
        mode = rng.choice(("hashed", "fresh", "in a set"))
        if mode == "hashed":
            hash(f)
        payload = {f, } if mode == "in a set" else f
        items.append((t, mode, base64.b64encode(pickle.dumps(payload, rng.randint(0, pickle.HIGHEST_PROTOCOL))).decode()))
    for hs in hashseeds:
        with tempfile.NamedTemporaryFile("w", suffix=".json", delete=False) as tf:
            json.dump(items, tf)
        try:
            p = subprocess.run([sys.executable, "-B", "-m", "vmon.checks.c08", tf.name], cwd=core.VERIF, env=core.child_env(hs), capture_output=True, text=True, timeout=300)
        finally:
            os.unlink(tf.name)
        if p.returncode != 0:
            raise RuntimeError("loading in another interpreter failed: " + p.stderr[-800:])
        out = json.loads(p.stdout)
        ctx.check(out["probe"] != hash("vmon probe"), "not another hash seed", str(hs)) if str(hs) != os.environ.get("PYTHONHASHSEED") else None
        for msg in out["failures"]:
            ctx.fail("formula does not survive another interpreter: " + msg[0], msg[1])
        ctx.ev("formulas loaded in another interpreter", len(items))
        ctx.ev("child interpreters")
        for (t, mode, _), back in zip(items, out["back"]):
            g = pickle.loads(base64.b64decode(back))
            if t[0] == "fol":
                same_fol(ctx, built(t), g, t[1], "pickle that came back from another interpreter (%s)" % mode)
                continue
            same(ctx, B.build(t), g, "pickle that came back from another interpreter (%s)" % mode)
            ctx.ev("formulas that came back")


def child(path):
    """Runs in the other interpreter."""
    with open(path) as f:
        items = core.tup(json.load(f))
    failures, back = [], []
    for t, mode, data in items:
        local = None
        try:
            if t[0] == "fol":
                local = fol.mk(t[1])
                obj = pickle.loads(base64.b64decode(data))
                g = next(iter(obj)) if mode == "in a set" else obj
                for cond, what in (
                    (type(g) is type(local) and fol.read(g) == fol.read(local), "structure (first-order)"),
                    (str(g) == str(local), "display form (first-order)"),
                    (g in {g} and (mode != "in a set" or g in obj), "membership (first-order)"),
                    (fol.ND.check(fol.ND.Proof([1, g, [fol.R.premise], 2, local, [fol.R.copy, 1]])), "use in a proof"),
                ):
                    if not cond:
                        failures.append((what, "%s (%s)" % (fol.show(t[1]), mode)))
                back.append(base64.b64encode(pickle.dumps(g)).decode())
                continue
            early = random.Random(len(data)).random() < 0.5
            if early:
                local = B.build(t)
                hash(local)
            obj = pickle.loads(base64.b64decode(data))
            g = next(iter(obj)) if mode == "in a set" else obj
            local = local or B.build(t)
            name = ref.show(t)
            for cond, what in (
                (B.to_ref(g) == B.to_ref(local), "structure"),
                (g == local and local == g, "equality"),
                (hash(g) == hash(local), "hash"),
                (local in {g} and g in {local: 1}, "membership"),
                (mode != "in a set" or local in obj, "membership in the unpickled set"),
                (all(hash(x) == hash(y) and x in {y} for x, y in zip(B.subformulas(g), B.subformulas(local))), "hash of a subformula"),
                (g.logic == B.Logic.RE or B.to_string(g) == B.to_string(local), "text"),
                (g.logic == B.Logic.RE or (~g == ~local and hash(~g) == hash(~local)), "larger formula"),
                (g.logic == B.Logic.RE or (g & local) == local or B.to_ref(local)[0] in ref.LEAVES, "conjunction with its equal"),
            ):
                if not cond:
                    failures.append((what, "%s (%s)" % (name, mode)))
            if random.Random(len(data) + 1).random() < 0.5:
                hash(g)
            back.append(base64.b64encode(pickle.dumps(g)).decode())
        except Exception as e:  # noqa: B902
            failures.append(("unexpected " + type(e).__name__, "%s: %s" % (t if t[0] == "fol" else ref.show(t), str(e)[:200])))
            back.append(base64.b64encode(pickle.dumps(local)).decode())
    print(json.dumps({"failures": failures[:20], "back": back, "probe": hash("vmon probe")}))


def firstorder(rng, F):
    while True:
        f = F(rng.choice((0, 1, 2, 3, 4)))
        if ndgen.binary(f) and not any(g[0] in ("Bot", "Top", "A") for g in fol.subs(f)):
            break
    if rng.random() < 0.2:
        f = ("P", rng.choice(("p", "Q", "rain")))
        if rng.random() < 0.5:
            f = (rng.choice(("Forall", "Exists")), "x", ("Not", f))
    return f


def run_shard(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(2400, 30000)):
        logic = rng.choice(ref.LOGICS)
        t = gen.TreeGen(rng, "ldl").tree(rng.randint(1, 15), "re") if rng.random() < 0.1 else gen.any_tree(rng, logic, top=25)
        ctx.sample(ref.show(t))
        ctx.run("copies", tree=t, seed=rng.getrandbits(32))
    for _ in range(ctx.n(1200, 15000)):
        F = ndgen.Formulas(rng, "fol")
        F.free = rng.random() < 0.6
        ctx.run("firstorder", f=firstorder(rng, F), seed=rng.getrandbits(32))
    for _ in range(ctx.n(250, 3000)):
        items, _ = ndgen.derivation(rng, rng.choice(("pl", "fol")), steps=rng.choice((0, 2, 5)))
        right = rng.random() < 0.7
        if not right:
            items = ndsound.mutate(rng, "fol", items)
        if ndsound.usable(items):
            ctx.run("proofs", items=items, right=right)
    for _ in range(ctx.n(16, 96)):
        trees = []
        for _ in range(60):
            logic = rng.choice(ref.LOGICS)
            trees.append(gen.TreeGen(rng, "ldl").tree(rng.randint(1, 15), "re") if rng.random() < 0.1 else gen.any_tree(rng, logic, top=20))
        for _ in range(12):
            trees.append(("fol", firstorder(rng, ndgen.Formulas(rng, "fol"))))
        ctx.run("across", trees=trees, seed=rng.getrandbits(32), hashseeds=[rng.randint(1, 4000000000), 0])


if __name__ == "__main__":
    sys.setrecursionlimit(core.RECURSION_LIMIT)
    child(sys.argv[1])
