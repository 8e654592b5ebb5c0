"""C21: the verdict on a proof depends on its shape only."""
import copy
import pickle
import random

from .. import fol, ndgen, ndquant, ndsound
from ..fol import ND

POOLS = (
    tuple("abcdefghijklmnopqrstuvwxyz"),
    ("p", "pp", "ppp", "p1", "p11", "p_1", "q", "qq", "p_", "_p", "p1_", "pq", "qp", "p10", "p2", "pqp", "qpq"),
    ("x1", "x2", "x10", "x11", "x", "xx", "x_", "xx1", "x1x", "x12", "x21", "x3", "y1", "y", "yx", "xy", "yy"),
    tuple("ABCDEFGHIJKLMNOPQRSTU"),
    ("alpha", "beta", "gamma", "delta", "forall", "exists", "in", "self", "none", "name", "operands", "argument", "variable", "formula", "premise", "copy", "x0", "k0"),
    ("a_long_name_%d" % 1,) + tuple("a_long_name_with_%d" % i for i in range(20)),
)
TERM_POOLS = POOLS + (("a", "b", "c", "x", "y", "z", "t", "u", "v", "w", "f", "g", "h", "P", "Q", "fa", "f_a", "af"),)


def atoms_of(items):
    return sorted({(g[0], g[1]) for i in fol.lines_of(items) for g in fol.subs(i[2]) if g[0] in ("A", "P")})


def terms_of(items):
    out = set()
    for i in fol.lines_of(items):
        out |= {t[1] for t in fol.terms(i[2])} | {g[1] for g in fol.subs(i[2]) if g[0] in ("Forall", "Exists")}
    for j in all_boxes(items):
        if j[2]:
            out |= {t[1] for t in fol.t_subs(j[2])}
    return sorted(out)


def all_boxes(items):
    for i in items:
        if i[0] == "B":
            yield i
            yield from all_boxes(i[3])


def rename(items, atoms, names):
    """Atoms and predicates by one map, names of terms and bound variables by another."""
    def term(t):
        return (t[0], names.get(t[1], t[1])) + tuple(term(u) for u in t[2:])

    def formula(f):
        if f[0] in ("A", "P"):
            return (f[0], atoms.get(f[1], f[1])) + tuple(term(t) for t in f[2:])
        if f[0] in ("Bot", "Top"):
            return f
        if f[0] in ("Forall", "Exists"):
            return (f[0], names.get(f[1], f[1]), formula(f[2]))
        return (f[0],) + tuple(formula(g) for g in f[1:])

    def go(its):
        return [i[:2] + (formula(i[2]),) + i[3:] if i[0] == "L" else (i[0], i[1], term(i[2]) if i[2] else None, go(i[3])) for i in its]
    return go(items)


def mapping(rng, old, pools):
    pool = list(rng.choice(pools))
    if len(pool) < len(old) or rng.random() < 0.25:
        pool = list(old)   # permuted among themselves
    new = rng.sample(pool, len(old))
    if rng.random() < 0.3:   # only one of them
        k = rng.randrange(len(old)) if old else 0
        rest = [n for n in new if n not in old]
        return {old[k]: rest[0]} if rest else {}
    return dict(zip(old, new))


def verdict(items, memo=None, rows=None):
    try:
        proof, _ = fol.proof_of(items, memo, rows)
    except Exception:  # noqa: B902
        return "cannot be built"
    return checked(proof)


def checked(proof):
    try:
        return ND.check(proof)
    except Exception as e:  # noqa: B902
        return type(e).__name__


def case_shape(ctx, items, seed):
    rng = random.Random(seed)
    items = as_proof(items)
    v = verdict(items)
    if v == "cannot be built":
        ctx.ev("proofs that cannot be built")
        return
    ctx.ev("verdict %s" % v)
    ctx.distinct(fol.show_items(items))

    def same(what, other, memo=None, rows=None):
        w = verdict(other, memo, rows)
        ctx.ev("compared: " + what)
        if v is True:
            ctx.ev("compared, accepted: " + what)
        ctx.check(w == v, "verdict changes: " + what, lambda: "%r, then %r\n%s\nthen\n%s\nlabels %s" % (v, w, fol.show_items(items), fol.show_items(other), rows))
    ats = [n for _, n in atoms_of(items)]
    ats = sorted(set(ats))
    ns = terms_of(items)
    kind = "pl" if any(k == "A" for k, _ in atoms_of(items)) else "fol"
    pools = tuple(p for p in POOLS if p[0] != "A") if kind == "pl" else POOLS   # names of atoms begin with a small letter
    same("names of atoms", rename(items, mapping(rng, ats, pools), {}))
    if ns:
        same("names of terms", rename(items, {}, mapping(rng, ns, TERM_POOLS)))
        same("all names", rename(items, mapping(rng, ats, pools), mapping(rng, ns, TERM_POOLS)))
    same("labels", items, None, ndgen.relabel(rng, items))
    if kind == "pl":   # predicates are compared by identity, and equal operands of a connective are dropped
        same("shared objects", items, {})
    if seed % 3 == 0:
        proof = fol.proof_of(items)[0]
        for how, fn in (("copied", copy.copy), ("deeply copied", copy.deepcopy), ("pickled", lambda x: pickle.loads(pickle.dumps(x)))):
            w = checked(fn(proof))
            ctx.ev("proofs " + how)
            ctx.check(w == v, "verdict changes: proof " + how, lambda: "%r, then %r\n%s" % (v, w, fol.show_items(items)))
    # something unrelated in front and at the end
    new = ("A", "unrelated") if kind == "pl" else rng.choice((("P", "Unrelated"), ("P", "Unrelated", ("C", "unrel")), ("Forall", "unrel", ("P", "Unrelated", ("F", "unrelf", ("V", "unrel"))))))
    r = "new row"
    same("premise in front", [("L", r, new, "premise", ())] + items)
    same("box in front", [("B", r, None, [("L", r, new, "assumption", ())])] + items)
    same("premise at the end", items + [("L", r, new, "premise", ())])
    at = rng.randint(0, len(items))
    same("premise between", items[:at] + [("L", r, new, "premise", ())] + items[at:])
    same("box between", items[:at] + [("B", r, None, [("L", r, new, "assumption", ()), ("L", "new row 2", new, "copy", (r,))])] + items[at:])
    many = [("L", "filler %d" % n, new, "premise", ()) for n in range(rng.choice((5, 12, 30)))]
    same("many premises between", items[:at] + many + items[at:])
    same("many boxes between", items[:at] + [("B", "filler %d" % n, None, [("L", "filler %d" % n, new, "assumption", ())]) for n in range(rng.choice((4, 11, 25)))] + items[at:])
    # beginnings
    for n in range(1, len(items)):
        w = verdict(items[:n])
        ctx.ev("beginnings")
        if v is True:
            ctx.check(w is True, "accepted proof with a rejected beginning", lambda: "%r, beginning of %d: %r\n%s" % (v, n, w, fol.show_items(items)))
        elif w is not True:
            ctx.check(v is not True, "rejected proof with an accepted extension", lambda: fol.show_items(items))
    # a line of a correct proof may be used again
    if v is True and items[-1][0] == "L":
        same("last line copied", items + [("L", r, items[-1][2], "copy", (items[-1][1],))])


def as_proof(items):
    return [i if i[0] == "L" else i[:3] + (as_proof(i[3]),) for i in items]


def run_shard(ctx):
    rng = ctx.rng
    todo = ctx.n(9000, 120000)
    while todo > 0:
        kind = rng.choice(("pl", "fol", "fol"))
        k = rng.random()
        if k < 0.3:
            rule = rng.choice(ndgen.BINARY_RULES + (ndgen.QUANT_RULES if kind == "fol" else ()))
            items, _ = ndgen.derivation(rng, kind, steps=rng.randint(0, 6), rule=rule)
            ctx.ev("source: derivation")
        elif k < 0.6:
            rule = rng.choice(ndgen.BINARY_RULES + (ndgen.QUANT_RULES if kind == "fol" else ()))
            items, _ = ndgen.derivation(rng, kind, steps=rng.randint(0, 4), depth=2, rule=rule)
            items = ndsound.mutate(rng, kind, items)
            ctx.ev("source: mutant")
        elif k < 0.85:
            items = ndquant.pattern(rng, rng.choice(ndquant.SLIPS))
            ctx.ev("source: quantifiers")
        else:
            _, items = ndsound.parts(rng, kind)
            ctx.ev("source: parts")
        if items is None or not ndsound.usable(items):
            continue
        todo -= 1
        ctx.sample(fol.show_items(items).replace("\n", " ; "))
        ctx.run("shape", items=items, seed=rng.getrandbits(32))
