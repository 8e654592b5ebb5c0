"""C15: correct derivations are accepted."""
import random

from .. import fol, ndgen, ndquant, ndsound
from ..fol import ND, BOT, imp, neg


def accepted(ctx, items, memo, rows, what):
    proof, objects = fol.proof_of(items, memo, rows)
    try:
        v = ND.check(proof)
    except Exception as e:  # noqa: B902
        v = "%s: %s" % (type(e).__name__, str(e)[:200])
    ctx.ev("derivations checked")
    ctx.ev("derivation lines", len(objects))
    return ctx.check(v is True, "correct derivation not accepted", lambda: "%s: %r\n%s\nlabels %s" % (what, v, fol.show_items(items), rows))


def case_derivation(ctx, kind, items, seed):
    rng = random.Random(seed)
    items = list(items)
    for i in fol.lines_of(items):
        ctx.ev("rule: " + i[3])
    ts = [b[2] for _, b in ndsound.positions(items) if b[0] == "B" and b[2]]
    if len(set(ts)) < len(ts):
        ctx.ev("boxes that share a term")
    # the self-check of the generator: every line follows
    value, full = (MODELS.pl, MODELS.pl_full) if kind == "pl" else (MODELS.fol, MODELS.full)
    _, objects = fol.proof_of(items, {})
    if fol.unsound(items, objects, value, full) is not None:
        raise RuntimeError("the generator of this check made a wrong derivation")
    accepted(ctx, items, None, None, "equal formulas are distinct objects")
    ctx.ev("distinct objects")
    accepted(ctx, items, {}, None, "equal formulas are the same object")
    ctx.ev("shared objects")
    rows = ndgen.relabel(rng, items)
    accepted(ctx, items, {} if rng.random() < 0.5 else None, rows, "other labels")
    if any(isinstance(r, str) for r in rows.values()):
        ctx.ev("labels that are strings")
    if any(not r for r in rows.values()):
        ctx.ev("labels that are false")
    for k in {g[0] if len(g) == 3 else "wide " + g[0] for i in fol.lines_of(items) for g in fol.subs(i[2]) if g[0] in ("And", "Or", "Implies", "Equivalence")}:
        ctx.ev("formulas with " + k)
    depth = nesting(items)
    ctx.ev("depth of boxes: %d" % min(depth, 4))


def nesting(items):
    return max([0] + [1 + nesting(i[3]) for i in items if i[0] == "B"])


MODELS = fol.Models()


def deep_boxes(rng, kind, n):
    """n boxes inside each other, then closed one by one by implication introduction."""
    F = ndgen.Formulas(rng, kind)
    asm = []
    while len(asm) < n:
        f = F(1)
        if f[0] not in ("Bot", "Top"):
            asm.append(f)
    row = [0]

    def nxt():
        row[0] += 1
        return row[0]

    def build(k):
        r = nxt()
        items = [("L", r, asm[k], "assumption", ())]
        if k + 1 < n:
            inner, br, conc = build(k + 1)
            items.append(("B", br, None, inner))
            f = imp(asm[k + 1], conc)
            if not (ndgen.binary(f) and fol.literal(f)):
                f = asm[0]
                items.append(("L", nxt(), f, "copy", (1,)))
            else:
                items.append(("L", nxt(), f, "impl_i", (br,)))
            return items, r, f
        items.append(("L", nxt(), asm[0], "copy", (1,)))
        return items, r, asm[0]
    items, r, conc = build(0)
    return [("B", r, None, items)]


def padded(rng, kind, items):
    """Irrelevant lines before and between the top-level lines."""
    rows = max(i for i, _, _ in fol.rows_of(items)) + 1000
    out = []
    F = ndgen.Formulas(rng, kind)
    visible = []
    for i in items:
        while rng.random() < 0.4:
            rows += 1
            if visible and rng.random() < 0.6:
                r, f = rng.choice(visible)
                out.append(("L", rows, f, "copy", (r,)))
            else:
                f = F(1)
                if fresh_clash(f, items):
                    continue
                out.append(("L", rows, f, "premise", ()))
        out.append(i)
        if i[0] == "L":
            visible.append((i[1], i[2]))
    return out


def fresh_clash(f, items):
    box_terms = {j[2][1] for j in boxes_of(items) if j[2]}
    return bool(box_terms & fol.term_names(f))


def boxes_of(items):
    for i in items:
        if i[0] == "B":
            yield i
            yield from boxes_of(i[3])


def run_shard(ctx):
    rng = ctx.rng
    for k in range(ctx.n(9000, 160000)):
        kind = rng.choice(("pl", "fol"))
        rule = rng.choice(ndgen.BINARY_RULES + (ndgen.QUANT_RULES if kind == "fol" else ()))
        p = rng.random()
        if p < 0.4:   # small, around one rule
            items, _ = ndgen.derivation(rng, kind, steps=rng.randint(0, 3), rule=rule)
        elif p < 0.6 and kind == "fol":   # terms deep inside
            items = ndquant.pattern(rng, "none")
            if not all(ndgen.binary(i[2]) and fol.literal(i[2]) for i in fol.lines_of(items)):
                continue
            ctx.ev("deep terms")
        elif p < 0.9:
            items, _ = ndgen.derivation(rng, kind, rule=rule)
        elif p < 0.95:
            items, _ = ndgen.derivation(rng, kind, steps=rng.choice((20, 20, 30, 40, 40, 60, 60, 150 if rng.random() < 0.5 else 300)), depth=rng.choice((2, 4, 7)))
        else:
            items = deep_boxes(rng, kind, rng.choice((2, 3, 5, 8, 14, 14, 30)))
        if rng.random() < 0.2:
            items = padded(rng, kind, items)
            if rng.random() < 0.5 and not any(fresh_clash(f, items) for f in (("P", "Q"), ("P", "P", ("C", "unrel")))):
                items = ndsound.stretched(rng, kind, items)
                ctx.ev("stretched")
        text = fol.show_items(items)
        ctx.distinct(text)
        ctx.sample(text.replace("\n", " ; "))
        ctx.run("derivation", kind=kind, items=items, seed=rng.getrandbits(32))
