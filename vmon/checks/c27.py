"""C27: a proof is recorded as it was written."""
import copy
import pickle
import random

from .. import fol, ndgen
from ..fol import ND, R
from ..bridge import fol as real

Term = real.Term

RULES = sorted(R, key=lambda r: r.name)


def label(rng):
    k = rng.random()
    if k < 0.5:
        return rng.randint(0, 60)
    if k < 0.7:
        return rng.choice(("", "a", "ab", "1", "1.1", "premise", "row", "x" * rng.randint(1, 40)))
    return rng.choice((0, -1, 1.5, None, True, False, (1, 2), (), 10 ** 9, frozenset((1,)), b"1"))


def justification(rng):
    j = [rng.choice(RULES)] + [label(rng) for _ in range(rng.choice((0, 0, 1, 1, 2, 3, 6)))]
    k = rng.random()
    return j if k < 0.5 else tuple(j) if k < 0.95 else j[0]


def random_proof(rng, F, lines, deep):
    """(flat list, what it says): lines and boxes in any arrangement, without regard to any rule."""
    flat, said = [], []
    past = []
    for _ in range(lines):
        k = rng.random()
        if k < 0.25 and deep > 0:
            body, inner = random_proof(rng, F, rng.choice((1, 1, 2, 3)), deep - 1)
            if not body:
                continue
            row = label(rng)
            how = rng.random()
            if how < 0.35:             # a term with a formula after it: the formula opens the box
                t = fol.mk_term(F.term(("x", "y"), 2))
                f, j = fol.mk(F(1)), justification(rng)
                box = [t, f, j] + body
                inner = [(row, t), (row, f, j)] + inner
            elif how < 0.55:           # a term with its own justification
                t, j = fol.mk_term(F.term(("x", "y"), 2)), justification(rng)
                while not isinstance(j, (list, tuple)):
                    j = justification(rng)
                box = [t, j] + body
                inner = [(row, t)] + inner
            else:                      # a formula
                f, j = fol.mk(F(1)), justification(rng)
                box = [f, j] + body
                inner = [(row, f, j)] + inner
            flat += [row, box]
            said.append((row, inner))
            past.append((box, inner))
        elif k < 0.3 and past:         # the same list again; the first line carries the label of the box
            box, inner = rng.choice(past)
            row = label(rng)
            flat += [row, box]
            head = [(row,) + inner[0][1:]]
            if len(inner[0]) == 2 and len(inner) > 1 and len(inner[1]) == 3 and len(box) > 2 and box[1] is inner[1][1]:
                head.append((row,) + inner[1][1:])
            said.append((row, head + inner[len(head):]))
        else:
            row, f, j = label(rng), fol.mk(F(rng.choice((0, 1, 2)))), justification(rng)
            flat += [row, f, j]
            said.append((row, f, j))
    return flat, said


def said_by(items, objects):
    """What a proof in the notation of the generators says, with the real objects of its lines."""
    it = iter(objects)

    def go(items):
        out = []
        for i in items:
            if i[0] == "L":
                item, o = next(it)
                assert item is i
                out.append((i[1], o, (R[i[3]],) + tuple(i[4])))
            else:
                out.append((i[1], ([(i[1], i[2])] if i[2] else []) + go(i[3])))
        return out
    return go(items)


def differs(proof, said, same, path="proof"):
    """Where the record differs from what was said; None if nowhere."""
    if not isinstance(proof, list):
        return "%s is no list but %r" % (path, type(proof))
    if len(proof) != len(said):
        return "%s has %d entries, written were %d" % (path, len(proof), len(said))
    for n, (entry, want) in enumerate(zip(proof, said)):
        where = "%s[%d]" % (path, n)
        row, content, just = entry
        if type(row) is not type(want[0]) or row != want[0]:
            return "%s has label %r, written was %r" % (where, row, want[0])
        if isinstance(want[1], list):
            if not isinstance(content, type(proof)):
                return "%s is no box but %r" % (where, content)
            d = differs(content, want[1], same, where)
            if d:
                return d
            continue
        if not same(content, want[1]):
            return "%s is %s, written was %s" % (where, content, want[1])
        if len(want) > 2 and (type(just) is not type(want[2]) or just != want[2]):
            return "%s has justification %r, written was %r" % (where, just, want[2])
    return None


def identical(content, want):
    return fol.read_term(content) == want if isinstance(want, tuple) else content is want


def alike(content, want):
    if isinstance(want, tuple):
        return fol.read_term(content) == want
    return type(content) is type(want) and (fol.read_term if isinstance(want, Term) else fol.read)(content) == (fol.read_term if isinstance(want, Term) else fol.read)(want)


def judge(ctx, flat, said, rng, what):
    ways = [ND.Proof, ND.Proof, lambda l: ND().proof(l)]
    rng.shuffle(ways)
    for n, way in enumerate(ways[:2]):
        proof = way(flat)
        d = differs(proof, said, identical)
        ctx.check(d is None, "not recorded as written", lambda: "%s: %s\n%r" % (what, d, flat))
        ctx.ev("proofs recorded" if n == 0 else "the same list recorded again")
        if n == 0:
            first = proof
    for name, fn in (("copied", copy.copy), ("deeply copied", copy.deepcopy), ("pickled", lambda p: pickle.loads(pickle.dumps(p)))):
        if rng.random() < 0.25:
            c = fn(first)
            d = differs(c, said, identical if name == "copied" else alike)
            ctx.check(type(c) is type(first) and d is None, "recorded otherwise in a copy", lambda: "%s %s: %s" % (what, name, d))
            ctx.ev("proofs " + name)
    try:
        ND.check(first)
    except Exception:  # noqa: B902 - justifications may be of any form here
        ctx.ev("proofs that cannot be checked")
    d = differs(first, said, identical)
    ctx.check(d is None, "changed by checking", lambda: "%s: %s" % (what, d))
    ctx.ev("entries compared", count(said))


def count(said):
    return sum(1 + (count(s[1]) if isinstance(s[1], list) else 0) for s in said)


def case_random(ctx, kind, seed, lines, deep):
    rng = random.Random(seed)
    flat, said = random_proof(rng, ndgen.Formulas(rng, kind), lines, deep)
    ctx.distinct((kind, seed, lines, deep))
    judge(ctx, flat, said, rng, "random arrangement")


def case_derivation(ctx, kind, items, seed):
    rng = random.Random(seed)
    objects = []
    flat = fol.render(items, {} if rng.random() < 0.5 else None, objects)
    ctx.distinct(fol.show_items(items))
    judge(ctx, flat, said_by(items, objects), rng, "derivation")


def case_large(ctx, kind, n, m, seed):
    """n boxes inside each other, m lines in each of them."""
    rng = random.Random(seed)
    F = ndgen.Formulas(rng, kind)
    flat, said = [], []
    for d in range(n + 1):
        body, inner = [], []
        for i in range(m):
            row, f, j = label(rng), fol.mk(F(0)), justification(rng)
            body += [row, f, j]
            inner.append((row, f, j))
        if not flat:
            flat, said = body, inner
            continue
        row, f, j = label(rng), fol.mk(F(0)), justification(rng)
        at = rng.choice((0, m, m // 2))
        flat, said = body[:3 * at] + [row, [f, j] + flat] + body[3 * at:], inner[:at] + [(row, [(row, f, j)] + said)] + inner[at:]
    ctx.distinct((kind, n, m))
    judge(ctx, flat, said, rng, "%d boxes inside each other, %d lines in each" % (n, m))
    ctx.ev("large proofs")


def run_shard(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(6000, 80000)):
        ctx.run("random", kind=rng.choice(("pl", "fol")), seed=rng.getrandbits(32), lines=rng.choice((0, 1, 2, 3, 5, 9, 20)), deep=rng.choice((0, 1, 2, 3, 5)))
    for _ in range(ctx.n(1200, 16000)):
        kind = rng.choice(("pl", "fol"))
        items, _ = ndgen.derivation(rng, kind)
        ctx.sample(fol.show_items(items).replace("\n", " ; "))
        ctx.run("derivation", kind=kind, items=items, seed=rng.getrandbits(32))
        ctx.ev("derivations")
    for _ in range(ctx.n(48, 320)):
        n, m = rng.choice(((0, 400), (0, 1200), (1, 300), (2, 100), (8, 20), (20, 6), (40, 1), (60, 0), (60, 1), (rng.randint(0, 12), rng.randint(1, 60))))
        ctx.run("large", kind=rng.choice(("pl", "fol")), n=n, m=m, seed=rng.getrandbits(32))
