"""C16: citations and assumptions out of place make a proof rejected; checking changes nothing."""
import random

from .. import fol, ndgen, ndsound
from ..fol import ND
from ..ndsound import NEEDS, edit, positions


def snapshot(proof):
    out = []
    for row, content, just in proof:
        if isinstance(content, list):
            out.append((row, "box", id(content), snapshot(content), just))
        else:
            out.append((row, id(content), str(content), hash_of(content), just, tuple(just) if isinstance(just, (list, tuple)) else just))
    return len(proof), tuple(out)


def hash_of(o):
    try:
        return hash(o)
    except TypeError:
        return None


def verdict(ctx, items, memo, rows):
    """The verdict, monitored: a bool, twice the same, and nothing changed."""
    proof, _ = fol.proof_of(items, memo, rows)
    before = snapshot(proof)
    try:
        v = ND.check(proof)
    except Exception as e:  # noqa: B902
        ctx.fail("check raises", "%s: %s\n%s" % (type(e).__name__, str(e)[:300], fol.show_items(items)))
        return None
    ctx.check(type(v) is bool, "verdict is not a boolean", lambda: "%r for\n%s" % (v, fol.show_items(items)))
    ctx.check(snapshot(proof) == before, "check changes the proof", lambda: fol.show_items(items))
    w = ND.check(proof)
    ctx.check(w is v, "another verdict the second time", lambda: "%r then %r\n%s" % (v, w, fol.show_items(items)))
    ctx.check(snapshot(proof) == before, "check changes the proof", lambda: fol.show_items(items))
    nd = ND()
    u = nd.check_proof(nd.proof(fol.render(items, memo, None, rows)))
    ctx.check(u is v, "another verdict for an equal proof", lambda: "%r then %r\n%s" % (v, u, fol.show_items(items)))
    ctx.ev("verdicts observed")
    ctx.ev("verdict %s" % v)
    return v


def case_displaced(ctx, items, how, seed, twin=None):
    rng = random.Random(seed)
    rows = ndgen.relabel(rng, items) if rng.random() < 0.5 else None
    try:
        v = verdict(ctx, list(items), {} if rng.random() < 0.5 else None, rows)
    except (TypeError, IndexError, ValueError):
        ctx.ev("proofs that cannot be built")
        return
    ctx.ev("displaced: " + how)
    ctx.check(v is not True, "accepted although out of place: " + how, lambda: fol.show_items(list(items)))
    if twin and seed % 4 == 0 and fol.ND.check(fol.proof_of(list(twin))[0]):
        ctx.ev("accepted when the citation is in place")


def case_any(ctx, items, shared):
    try:
        fol.proof_of(list(items), None)
    except Exception:  # noqa: B902
        ctx.ev("proofs that cannot be built")
        return
    verdict(ctx, list(items), {} if shared else None, None)


def layout(items, path=(), scope=()):
    """(path, item, rows visible before it, rows of the whole proof that are not visible there).

    A box is visible under its label; its first line may have the same label."""
    seen = list(scope)
    for n, i in enumerate(items):
        yield path + (n,), i, tuple(seen), len(path) > 0, n
        if i[0] == "B":
            yield from layout(i[3], path + (n,), seen)
        seen.append((i[1], i[0]))


def displacements(rng, items):
    """(how, items) for proofs that must be rejected."""
    items = list(items)
    lay = list(layout(items))
    allrows = {r for r, _, _ in fol.rows_of(items)} | {i[1] for i in fol.lines_of(items)}
    lines = [x for x in lay if x[1][0] == "L"]
    citing = [x for x in lines if x[1][4]]
    out = []
    if citing:
        path, i, seen, inside, n = rng.choice(citing)
        visible = dict(seen)
        k = rng.randrange(len(i[4]))

        def cite(r):
            return edit(items, path, [i[:4] + (i[4][:k] + (r,) + i[4][k + 1:],)])
        out.append(("missing line", cite(max(allrows) + rng.randint(1, 5))))
        out.append(("itself", cite(i[1])) if i[1] not in visible else None)
        at = [x[0] for x in lay].index(path)
        later = [x[1][1] for x in lay[at + 1:] if x[1][1] not in visible and x[1][1] != i[1]]
        if later:
            out.append(("later line", cite(rng.choice(later))))
        closed = [x[1][1] for x in lay[:at] if x[1][1] not in visible and not is_prefix(x[0], path)]
        if closed:
            out.append(("line in a closed box", cite(rng.choice(closed))))
        enclosing = [x[1][1] for x in lay[:at] if is_prefix(x[0], path) and x[1][1] not in visible]
        if enclosing:
            out.append(("box that is still open", cite(rng.choice(enclosing))))
        # an additional citation out of place
        out.append(("additional missing line", edit(items, path, [i[:4] + (i[4] + (max(allrows) + 1,),)])))
        need = NEEDS.get(i[3])
        if need and len(i[4]) == len(need):
            want = need[k]
            wrong = [r for r, kd in visible.items() if kd != want]
            if wrong:
                out.append(("formula for a box" if want == "B" else "box for a formula", cite(rng.choice(wrong))))
    # the line that introduces a term is no line to cite
    path, i, seen, inside, n = rng.choice(lay)
    free = max(allrows) + 1
    t = rng.choice((("V", "n1"), ("V", "y"), ("C", "k1")))
    f = ("P", t[1])
    g = ("P", "q")
    rule, h = rng.choice((("copy", f), ("or_i1", ("Or", f, g)), ("or_i2", ("Or", g, f)), ("exists_i", ("Exists", "z", f))))
    first = ("L", free, h, rule, (free,))
    if rng.random() < 0.5:
        first = ("L", free + 1, h, rule, (free,))
    if rng.random() < 0.3:
        first = ("B", free + 2, None, [("L", free + 2, g, "assumption", ()), first[:1] + (free + 1,) + first[2:]])
    if n > 0 or not inside:
        rest = [("L", free + 3, h, "copy", (first[1],))] if first[0] == "L" else []
        out.append(("line of a term", edit(items, path, [("B", free, t, [first] + rest), i])))
    # premises and assumptions
    nocite = [x for x in lines if x[1][3] in ("premise", "assumption")]
    if nocite:
        path, i, seen, inside, n = rng.choice(nocite)
        out.append(("premise or assumption citing a missing line", edit(items, path, [i[:4] + ((max(allrows) + 1,),)])))
    path, i, seen, inside, n = rng.choice(lines)
    free = max(allrows) + 1
    if inside and n > 0:
        out.append(("premise inside a box", edit(items, path, [("L", free, i[2], "premise", ()), i])))
        out.append(("premise inside a box", edit(items, path, [i[:3] + ("premise", ())])))
    if not inside:
        out.append(("assumption outside boxes", edit(items, path, [i[:3] + ("assumption", ())])))
        out.append(("assumption outside boxes", edit(items, path, [("L", free, i[2], "assumption", ()), i])))
    inner = [x for x in lay if x[3] and x[1][0] == "L"]
    if inner:
        path, i, seen, inside, n = rng.choice(inner)
        out.append(("assumption within a box", edit(items, path, [i, ("L", free, i[2], "assumption", ())])))
        if n > 0:
            out.append(("assumption within a box", edit(items, path, [i[:3] + ("assumption", ())])))
        if n == 0 and i[3] == "assumption":
            out.append(("premise opening a box", edit(items, path, [i[:3] + ("premise", ())])))
    return [x for x in out if x is not None]


def bait(rng, items):
    """(how, items) for proofs in which just the place of one citation is wrong: the formula would follow from what is cited."""
    items = list(items)
    lay = list(layout(items))
    free = max({r for r, _, _ in fol.rows_of(items)} | {i[1] for i in fol.lines_of(items)}) + 1
    places = [x + (n,) for n, x in enumerate(lay) if x[4] > 0 or not x[3]]
    out = []

    def add(how, path, new, twin=None):
        out.append(("bait: " + how, edit(items, path, new), twin and edit(items, path, twin)))
    # a copy of a line, or what follows from a box, where the line or box is not visible
    byhow = {}
    for n, (path, i, _, _, _) in enumerate(lay):
        for at in places:
            m = at[5]
            if dict(at[2]).get(i[1]) == i[0]:
                continue
            if i[0] == "L":
                if i[1] in dict(at[2]):
                    continue
                how = "later line" if n >= m else "line in a closed box"
            else:
                ends = [j for j in (i[3][0], i[3][-1]) if j[0] == "L"]
                if i[2] is not None or len(ends) < 2 or ends[0][3] != "assumption":
                    continue
                how = "box that is still open" if is_prefix(path, at[0]) else "later box" if n >= m else "box in a closed box"
            byhow.setdefault(how, []).append((i, at))
    for how in byhow:
        i, at = rng.choice(byhow[how])
        if i[0] == "L":
            new = ("L", free, i[2], "copy", (i[1],))
        else:
            new = ("L", free, ("Implies", i[3][0][2], i[3][-1][2]), "impl_i", (i[1],))
        add(how, at[0], [new, at[1]])
        # an additional citation
        if at[1][0] == "L" and i[1] not in dict(at[2]) and i[1] != at[1][1]:
            add("additional " + how, at[0], [at[1][:4] + (at[1][4] + (i[1],),)])
    # a citation of a copy that is out of place
    citing = [x for x in places if x[1][0] == "L" and x[1][4]]
    if citing:
        path, i, seen, _, _, _ = rng.choice(citing)
        k = rng.randrange(len(i[4]))
        r = i[4][k]
        known = {x[1][1]: x[1] for x in lay if x[1][0] == "L" and dict(seen).get(x[1][1]) == "L"}
        boxes = {x[1][1]: x[1] for x in lay if x[1][0] == "B" and dict(seen).get(x[1][1]) == "B"}

        def cite(row):
            return i[:4] + (i[4][:k] + (row,) + i[4][k + 1:],)
        again = ("L", free + 9, i[2], "copy", (i[1],))

        def some():
            return rng.choice([j[2] for j in known.values()] or [i[2]])

        def box(row, rest):
            return ("B", row, None, [("L", row, some(), "assumption", ())] + rest)
        if r in known:
            f = known[r][2]
            copied = ("L", free + 1, f, "copy", (r,))
            add("copy in a closed box", path, [box(free, [copied]), cite(free + 1)], [box(free, [copied]), i])
            add("copy in a closed box within a closed box", path, [box(free, [box(free + 2, [copied]), ("L", free + 3, f, "copy", (r,))]), cite(free + 1)], [box(free, [box(free + 2, [copied]), ("L", free + 3, f, "copy", (r,))]), i])
            add("copy in a closed box cited within the box around it", path, [box(free, [box(free + 2, [copied]), ("L", free + 3, f, "copy", (free + 1,))]), i], [box(free, [box(free + 2, [copied]), ("L", free + 3, f, "copy", (r,))]), i])
            add("copy below", path, [cite(free + 1), copied, again], [i, copied, again])
            add("box around in place of its line", path, [box(free, [copied]), cite(free)])
        elif r in boxes:
            d = duplicate(boxes[r], free + 20)
            last = ("L", free + 1, some(), "copy", (free,))
            b = box(free, [d])
            b = b[:3] + (b[3] + [last[:2] + (b[3][0][2],) + last[3:]],)
            add("box in a closed box", path, [b, cite(d[1])], [b, i])
            add("box below", path, [cite(d[1]), d, again], [i, d, again])
        if i[1] not in dict(seen):
            add("copy of itself", path, [i[:3] + ("copy", (i[1],))])
    return out


def duplicate(box, start):
    """The box with fresh rows."""
    new = {}
    for r, _, _ in fol.rows_of([box]):
        new.setdefault(r, start + len(new))
    for j in fol.lines_of([box]):
        new.setdefault(j[1], start + len(new))

    def go(i):
        if i[0] == "L":
            return ("L", new[i[1]], i[2], i[3], tuple(new.get(r, r) for r in i[4]))
        return ("B", new[i[1]], i[2], [go(j) for j in i[3]])
    return go(box)


def is_prefix(p, q):
    return len(p) < len(q) and q[:len(p)] == p


def run_shard(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(4500, 160000)):
        kind = rng.choice(("pl", "fol"))
        rule = rng.choice(ndgen.BINARY_RULES + (ndgen.QUANT_RULES if kind == "fol" else ()))
        items, _ = ndgen.derivation(rng, kind, steps=rng.choice((0, 2, 5, 9)), rule=rule if rng.random() < 0.8 else None)
        if rng.random() < 0.3:
            items = items[:rng.randint(1, len(items))]
        if rng.random() < 0.15:
            items = ndsound.stretched(rng, kind, items)
            ctx.ev("stretched")
        for how, m, twin in [x + (None,) for x in displacements(rng, items)] + bait(rng, items):
            if ndsound.usable(m):
                ctx.distinct(fol.show_items(m))
                ctx.run("displaced", items=m, how=how, seed=rng.getrandbits(32), twin=twin)
        ctx.sample(fol.show_items(items).replace("\n", " ; "))
        m = items
        for _ in range(rng.randint(0, 4)):
            m = ndsound.mutate(rng, kind, m)
            if not ndsound.usable(m):
                break
        if ndsound.usable(m):
            ctx.run("any", items=m, shared=rng.random() < 0.5)
