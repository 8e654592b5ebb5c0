"""Soundness monitor of the natural deduction checker: whatever it accepts must follow."""
import random

from . import fol, ndgen, ndquant
from .fol import BOT, ND, abstract, imp, neg, subs, subst, terms
from .ndquant import forced

MODELS = fol.Models()
BOX_TERMS = (("C", "k0"), ("V", "x0"), ("C", "k1"), ("V", "y0"))


def value(kind):
    return (MODELS.pl, MODELS.pl_full) if kind == "pl" else (MODELS.fol, MODELS.full)


def judge(ctx, kind, items, memo, how, finding=None):
    """Check the real proof; when it is accepted judge every line. Returns the verdict, None when it cannot be built."""
    try:
        proof, objects = fol.proof_of(items, memo)
    except Exception:  # noqa: B902 - formulas or proofs that cannot be built are none
        ctx.ev("proofs that cannot be built")
        return None
    verdict = ND.check(proof)
    ctx.ev("proofs checked")
    if verdict:
        v, full = value(kind)
        ctx.ev("lines judged", len(objects))
        ctx.ev("accepted: " + how)
        bad = fol.unsound(items, objects, v, full)
        if bad is not None and finding is not None and finding():
            ctx.known("name-false", "%s: line %s does not follow in the accepted proof\n%s" % (how, bad[1], fol.show_items(items)))
        elif bad is not None:
            ctx.fail("unsound line accepted: " + bad[3], "%s: line %s does not follow in the accepted proof\n%s" % (how, bad[1], fol.show_items(items)))
        if objects:
            last = [i for i in items if i[0] == "L"][-1:]
            if last and v(fol.read(next(o for i, o in objects if i is last[0]))) != full and last[0][3] != "premise":
                ctx.ev("accepted with a contingent conclusion")
                ctx.ev("accepted last rule: " + last[0][3])
                ctx.distinct(fol.show_items(items))
    else:
        ctx.ev("rejected: " + how)
    return verdict


# --- formulas around given ones

def children(f):
    if f[0] in ("Forall", "Exists"):
        return [f[2]]
    return [] if f[0] in ("A", "P", "Bot", "Top") else list(f[1:])


def transform(rng, kind, f, others, ts):
    """A formula related to f in one step."""
    g = rng.choice(others) if others else f
    k = rng.randrange(12 if kind == "pl" else 18)
    if k <= 2:
        c = children(f)
        return rng.choice(c) if c else f
    if k == 3:
        return neg(f)
    if k == 4:
        return (rng.choice(("And", "Or")), f, g)
    if k == 5:
        return (rng.choice(("And", "Or")), g, f)
    if k == 6:
        return imp(f, g)
    if k == 7:
        return imp(g, f)
    if k == 8 and f[0] in ("And", "Or", "Implies", "Equivalence"):
        return f[:1] + tuple(rng.sample(f[1:], len(f) - 1))
    if k == 9 and f[0] in ("And", "Or", "Implies", "Equivalence"):
        return (rng.choice(("And", "Or", "Implies", "Equivalence")),) + f[1:]
    if k == 10:
        return g
    if k == 11:
        c = list(subs(f))
        return rng.choice(c)
    if k <= 14 and f[0] in ("Forall", "Exists"):
        if k == 14:
            return ({"Forall": "Exists", "Exists": "Forall"}[f[0]],) + f[1:]
        t = rng.choice(ts)
        h = subst(f[2], f[1], t)
        return h if h is not None and rng.random() < 0.7 else forced(f[2], f[1], t)
    if kind == "pl":
        return g
    t = rng.choice([t for t in terms(f)] or ts)
    if k <= 16:
        v = rng.choice(ndgen.VARS[:3])
        return (rng.choice(("Forall", "Exists")), v, abstract(rng, f, t, v, rng.choice((1.0, 1.0, 0.5))))
    return swap_term(rng, f, t, rng.choice(ts))


def near(rng, F, f):
    """f with another atom in one place."""
    leaves = [0]

    def count(g):
        if g[0] in ("A", "P"):
            leaves[0] += 1
        elif g[0] in ("Forall", "Exists"):
            count(g[2])
        elif g[0] not in ("Bot", "Top"):
            for h in g[1:]:
                count(h)
    count(f)
    if not leaves[0]:
        return F.atom()
    at = [rng.randrange(leaves[0])]

    def go(g):
        if g[0] in ("A", "P"):
            at[0] -= 1
            return F.atom() if at[0] == -1 else g
        if g[0] in ("Forall", "Exists"):
            return (g[0], g[1], go(g[2]))
        return g if g[0] in ("Bot", "Top") else (g[0],) + tuple(go(h) for h in g[1:])
    return go(f)


def swap_term(rng, f, a, b):
    """f with b for some occurrences of a."""
    p = rng.choice((1.0, 0.5))

    def in_term(t):
        if t == a and rng.random() < p:
            return b
        return t[:2] + tuple(in_term(u) for u in t[2:]) if t[0] == "F" else t

    def go(f):
        if f[0] == "P":
            return f[:2] + tuple(in_term(t) for t in f[2:])
        if f[0] in ("Forall", "Exists"):
            return (f[0], f[1], go(f[2]))
        if f[0] in ("A", "Bot", "Top"):
            return f
        return (f[0],) + tuple(go(g) for g in f[1:])
    return go(f)


def sane(f):
    return sum(1 for _ in subs(f)) <= 30


# --- exploration: grow a proof from lines the checker accepts

def case_explore(ctx, kind, seed, steps):
    rng = random.Random(seed)
    F = ndgen.Formulas(rng, kind)
    ts = [F.term(()) for _ in range(3)] + list(BOX_TERMS[:2]) if kind == "fol" else []
    memo = {} if rng.random() < 0.5 else None
    top = []
    stack = [top]       # the open boxes
    lines, boxes, rows = [], [], []   # formulas of rows; (first, last, term) of box rows
    formulas, boxof = {}, {}
    nrow = [0]

    def row():
        nrow[0] += 1
        return nrow[0]

    def whole():
        return close(top)

    def close(items):
        # boxes are lists while they are open
        return [i if i[0] == "L" else ("B", i[1], i[2], close(i[3])) for i in items if i[0] == "L" or i[3]]

    def accept(how):
        return judge(ctx, kind, whole(), memo, how)

    def add(r, f):
        formulas[r] = f
        rows.append(r)
        if f not in lines:
            lines.append(f)

    for _ in range(rng.randint(1, 3)):
        f = F(rng.choice((1, 2)))
        r = row()
        top.append(("L", r, f, "premise", ()))
        add(r, f)
    for _ in range(steps):
        k = rng.random()
        here = stack[-1]
        if k < 0.06:
            f = F(1) if rng.random() < 0.5 else transform(rng, kind, rng.choice(lines), lines, ts)
            if sane(f):
                r = row()
                here.append(("L", r, f, rng.choice(("premise", "premise", "assumption")), ()))
                if accept("premise"):
                    add(r, f)
                else:
                    here.pop()
            continue
        if k < 0.18 and len(stack) < 4:
            f = rng.choice(lines) if rng.random() < 0.3 else transform(rng, kind, rng.choice(lines), lines, ts)
            if not sane(f):
                continue
            t = None
            if kind == "fol" and rng.random() < 0.7:
                t = rng.choice(BOX_TERMS) if rng.random() < 0.8 else rng.choice(ts)
                q = [g for g in lines if g[0] in ("Exists", "Forall")]
                if q and rng.random() < 0.7:
                    q = rng.choice(q)
                    f = subst(q[2], q[1], t) or f
            r = row()
            box = ("B", r, t, [])
            if t is None or rng.random() < 0.5:
                r1 = r if t is None or rng.random() < 0.5 else row()
                first = ("L", r1, f, "assumption", ())
            else:
                q = [s for s in rows if formulas[s][0] == "Forall"]
                if not q:
                    continue
                s = rng.choice(q)
                f = subst(formulas[s][2], formulas[s][1], t)
                if f is None:
                    continue
                r1 = row()
                first = ("L", r1, f, "forall_e", (s,))
            box[3].append(first)
            here.append(box)
            if accept("box"):
                stack.append(box[3])
                boxof[id(box[3])] = box
                add(r1, f)
            else:
                here.pop()
            continue
        if k < 0.3 and len(stack) > 1:
            inner = stack.pop()
            box = boxof[id(inner)]
            fs = [i[2] for i in inner if i[0] == "L"]
            boxes.append((box[1], fs[0], fs[-1], box[2]))
            if formulas.get(box[1]) is not None and box[1] in rows:
                rows.remove(box[1])   # now the label of the box
            continue
        # a line
        rule, refs, cited = pick_rule(rng, kind, rows, formulas, boxes)
        for _ in range(4):
            f = conclusion(rng, kind, rule, cited, lines, ts, boxes)
            if not sane(f):
                continue
            r = row()
            here.append(("L", r, f, rule, refs))
            if accept("line"):
                add(r, f)
                ctx.ev("explored steps accepted")
                break
            here.pop()


NEEDS = {
    "and_e1": "L", "and_e2": "L", "and_i": "LL", "bot_e": "L", "copy": "L", "dneg_e": "L", "dneg_i": "L", "exists_e": "LB", "exists_i": "L",
    "forall_e": "L", "forall_i": "B", "impl_e": "LL", "impl_i": "B", "MT": "LL", "neg_e": "LL", "neg_i": "B", "or_e": "LBB", "or_i1": "L", "or_i2": "L",
}


def pick_rule(rng, kind, rows, formulas, boxes):
    names = [r for r in NEEDS if kind == "fol" or r not in ndgen.QUANT_RULES]
    rule = rng.choice(names)
    if boxes and rng.random() < 0.5:
        rule = rng.choice([r for r in names if "B" in NEEDS[r]])
    refs, cited = [], []
    for n in NEEDS[rule]:
        if rng.random() < 0.04:
            n = "L" if n == "B" else "B"
        if n == "B" and boxes:
            b = boxes[-1] if rng.random() < 0.6 else rng.choice(boxes)
            refs.append(b[0])
            cited += [b[1], b[2]]
        else:
            r = rng.choice(rows[-5:]) if rng.random() < 0.5 else rng.choice(rows)
            refs.append(r)
            cited.append(formulas[r])
    k = rng.random()
    if k < 0.03 and refs:
        refs.pop()
    elif k < 0.06:
        refs.append(rng.choice(rows))
    elif k < 0.08:
        rng.shuffle(refs)
    return rule, tuple(refs), cited


def conclusion(rng, kind, rule, cited, lines, ts, boxes):
    """What the rule, or a careless reading of it, would conclude."""
    f = rng.choice(cited) if cited else rng.choice(lines)
    g = rng.choice(cited) if cited else rng.choice(lines)
    c = children(f)
    k = rng.random()
    if k < 0.25:
        pass
    elif rule in ("and_e1", "and_e2", "impl_e", "or_e") and c:
        return rng.choice(c)
    elif rule in ("and_i", "or_i1", "or_i2"):
        h = rng.choice(lines)
        return rng.choice((("And", f, g), ("Or", f, h), ("Or", h, f), ("And", f, h), ("Implies", f, h), ("Equivalence", f, g)))
    elif rule in ("impl_i",):
        return rng.choice((imp(f, g), imp(g, f), ("Implies", f, g), imp(cited[0], cited[-1])))
    elif rule in ("neg_i", "MT", "dneg_e", "dneg_i"):
        return rng.choice((neg(f), neg(rng.choice(c)) if c else neg(g), f))
    elif rule == "neg_e":
        return BOT
    elif rule == "copy":
        return f
    elif rule == "bot_e":
        return rng.choice(lines)
    elif rule in ("forall_e", "exists_e", "exists_i", "forall_i"):
        if rule == "forall_e" and f[0] in ("Forall", "Exists"):
            t = rng.choice(ts + [t for t in terms(f)])
            return subst(f[2], f[1], t) or forced(f[2], f[1], t)
        if rule in ("exists_i", "forall_i"):
            tt = [t for t in terms(f)] or ts
            t = rng.choice(tt)
            if rule == "forall_i" and boxes and rng.random() < 0.6:
                t = boxes[-1][3] or t
                f = boxes[-1][2]
            v = rng.choice([v for v in ndgen.VARS if v not in fol.term_names(f)] + ["x"])
            return ("Exists" if rule == "exists_i" else "Forall", v, abstract(rng, f, t, v, rng.choice((1.0, 1.0, 0.5))))
        return f
    f = transform(rng, kind, f, lines, ts)
    return transform(rng, kind, f, lines, ts) if rng.random() < 0.3 else f


# --- mutants of correct derivations

def positions(items, path=()):
    for n, i in enumerate(items):
        yield path + (n,), i
        if i[0] == "B":
            yield from positions(i[3], path + (n,))


def edit(items, path, new):
    """items with the list new in place of the item at path."""
    n = path[0]
    if len(path) == 1:
        return items[:n] + list(new) + items[n + 1:]
    b = items[n]
    return items[:n] + [b[:3] + (edit(list(b[3]), path[1:], new),)] + items[n + 1:]


def mutate(rng, kind, items):
    """One edit of a proof."""
    items = list(items)
    ps = list(positions(items))
    path, i = rng.choice(ps)
    lines = [j[2] for _, j in ps if j[0] == "L"]
    rows = [j[1] for _, j in ps]
    ts = [t for f in lines for t in terms(f)] + list(BOX_TERMS[:1]) if kind == "fol" else []
    if i[0] == "L":
        k = rng.random()
        _, row, f, rule, refs = i
        if k < 0.4:
            new = [("L", row, transform(rng, kind, f, lines, ts), rule, refs)]
        elif k < 0.6 and refs:
            n = rng.randrange(len(refs))
            new = [("L", row, f, rule, refs[:n] + (rng.choice(rows),) + refs[n + 1:])]
        elif k < 0.65 and refs:
            new = [("L", row, f, rule, refs[::-1])]
        elif k < 0.75:
            new = [("L", row, f, rng.choice(fol.RULES), refs)]
        elif k < 0.8:
            new = []
        elif k < 0.9:
            q, j = rng.choice(ps)
            new = [i, j if j[0] == "L" else i]
        else:
            new = [("B", row, rng.choice(BOX_TERMS) if kind == "fol" and rng.random() < 0.5 else None, [i])]
        if not new and len(path) > 1 and len(ps) < 3:
            return items
    else:
        k = rng.random()
        _, row, t, inner = i
        inner = list(inner)
        if k < 0.25:
            new = inner
        elif k < 0.5 and kind == "fol":
            new = [("B", row, rng.choice(ts + [None]), inner)]
        elif k < 0.65 and len(inner) > 1:
            new = [("B", row, t, inner[1:])]
        elif k < 0.75 and len(inner) > 1:
            new = [("B", row, t, inner[:-1])]
        elif k < 0.85:
            new = []
        elif len(inner) > 1:
            new = [("B", row, t, inner[:1])] + inner[1:]
        else:
            new = [i]
    return edit(items, path, new)


def stretched(rng, kind, items):
    """The proof with many more lines, at one or two places, that nothing cites."""
    items = list(items)
    free = [1 + max([r for i in fol.lines_of(items) for r in (i[1],) + i[4] if isinstance(r, int)] + [i[1] for _, i in positions(items) if isinstance(i[1], int)] + [0]) + 500]
    for _ in range(rng.choice((1, 1, 2))):
        path, i = rng.choice(list(positions(items)))
        if rng.random() < 0.6:
            path = path[:1]
            i = items[path[0]]
        n = rng.choice((1, 2, 4, 9, 9, 12, 17, 25, 40))
        if len(path) == 1:
            f, rule, refs = rng.choice((("A", "a"), ("A", "b")) if kind == "pl" else (("P", "Q"), ("P", "P", ("C", "unrel")))), "premise", ()
            before = [j for j in items[:path[0]] if j[0] == "L"]
            if before and rng.random() < 0.4:
                j = rng.choice(before)
                f, rule, refs = j[2], "copy", (j[1],)
        else:
            box = items
            for k in path[:-1]:
                box = box[k] if box is items else box[3][k]
            first = box[3][0]
            if path[-1] == 0 or first[0] != "L":
                continue
            f, rule, refs = first[2], "copy", (first[1],)
        new = []
        for _ in range(n):
            new.append(("L", free[0], f, rule, refs))
            free[0] += 1
        items = edit(items, path, new + [i])
    if rng.random() < 0.5:   # labels 1, 2, 3 ... in the order of the text
        rows = {}
        for _, i in positions(items):
            rows.setdefault(i[1], len(rows) + 1)
        for i in fol.lines_of(items):
            for r in i[4]:
                rows.setdefault(r, len(rows) + 1)

        def go(its):
            return [i[:1] + (rows[i[1]],) + i[2:4] + (tuple(rows[r] for r in i[4]),) if i[0] == "L" else ("B", rows[i[1]], i[2], go(i[3])) for i in its]
        items = go(items)
    return items


def rename(rng, items):
    """Everywhere one term in place of another."""
    ts = sorted({t for f in (i[2] for i in fol.lines_of(items)) for t in terms(f) if t[0] != "F"} | {j[2] for _, j in positions(items) if j[0] == "B" and j[2]})
    if len(ts) < 2:
        return items
    a, b = rng.sample(ts, 2)

    def term(t):
        return b if t == a else t[:2] + tuple(term(u) for u in t[2:]) if t[0] == "F" else t

    def formula(f):
        if f[0] == "P":
            return f[:2] + tuple(term(t) for t in f[2:])
        if f[0] in ("Forall", "Exists"):
            return (f[0], b[1] if a == ("V", f[1]) and b[0] == "V" else f[1], formula(f[2]))
        if f[0] in ("A", "Bot", "Top"):
            return f
        return (f[0],) + tuple(formula(g) for g in f[1:])

    def go(its):
        return [i[:2] + (formula(i[2]),) + i[3:] if i[0] == "L" else ("B", i[1], term(i[2]) if i[2] else None, go(i[3])) for i in its]
    return go(items)


def usable(items):
    return bool(items) and all(usable(i[3]) for i in items if i[0] == "B") and all(i[0] == "L" or i[2] is not None or i[3][0][0] == "L" for i in items)


def case_mutant(ctx, kind, items, shared):
    ctx.ev("mutants")
    judge(ctx, kind, list(items), {} if shared else None, "mutant")


def as_lists(items):
    return [i if i[0] == "L" else i[:3] + (as_lists(i[3]),) for i in items]


def run_mutants(ctx, kind, n):
    rng = ctx.rng
    done = 0
    while done < n:
        rule = rng.choice(fol.RULES) if rng.random() < 0.6 else None
        if kind == "pl" and rule in ndgen.QUANT_RULES:
            rule = None
        items, _ = ndgen.derivation(rng, kind, steps=rng.randint(0, 5), depth=rng.choice((1, 2, 3)), rule=rule)
        for _ in range(10):
            m = items
            for _ in range(rng.choice((1, 1, 1, 2, 3))):
                m = rename(rng, m) if kind == "fol" and rng.random() < 0.15 else mutate(rng, kind, m)
                if not usable(m):
                    break
            if not usable(m) or not all(sane(i[2]) for i in fol.lines_of(m)):
                continue
            if rng.random() < 0.4:
                m = m[:rng.randint(1, len(m))]
                if not usable(m):
                    continue
            done += 1
            if rng.random() < 0.1:
                m = stretched(rng, kind, m)
                ctx.ev("stretched")
            ctx.sample(fol.show_items(m).replace("\n", " ; "))
            ctx.run("mutant", kind=kind, items=m, shared=rng.random() < 0.5)


# --- all small instances of the rules

def small_formulas(kind):
    if kind == "pl":
        a, b, c = (("A", n) for n in "abc")
        return [a, b, neg(a), neg(b), ("And", a, b), ("And", b, a), ("Or", a, b), ("Or", b, a), imp(a, b), imp(b, a), imp(neg(a), b), BOT, ("Top",),
                ("Implies", a, b), ("Equivalence", a, b), neg(("And", a, b)), neg(("Or", a, b)), ("And", a, b, c), ("Or", a, b, c), imp(a, imp(b, c)), ("And", neg(a), b)]
    k, c, x, y = ("C", "k"), ("C", "c"), ("V", "x"), ("V", "y")
    P = lambda t: ("P", "P", t)  # noqa: E731
    Rr = lambda s, t: ("P", "R", s, t)  # noqa: E731
    fk = ("F", "f", k)
    return [P(k), P(c), P(x), P(y), P(fk), ("P", "Q"), Rr(k, c), Rr(c, k), Rr(k, k), Rr(x, k), Rr(x, y), Rr(y, y), Rr(x, x),
            ("Forall", "x", P(x)), ("Forall", "y", P(y)), ("Exists", "x", P(x)), ("Exists", "y", P(y)), ("Forall", "x", Rr(x, k)), ("Forall", "x", Rr(x, x)), ("Exists", "x", Rr(x, x)),
            ("Forall", "x", Rr(x, y)), ("Exists", "x", Rr(x, y)), ("Exists", "y", Rr(x, y)), ("Forall", "x", ("Exists", "y", Rr(x, y))), ("Exists", "y", ("Forall", "x", Rr(x, y))),
            ("Forall", "x", ("Forall", "y", Rr(x, y))), ("Forall", "y", Rr(k, y)), ("Exists", "x", ("Exists", "y", Rr(x, y))), ("Forall", "x", ("P", "Q")), ("Exists", "x", P(k)), ("Forall", "x", P(("F", "f", x))),
            ("Exists", "y", Rr(("F", "f", y), y)), ("Forall", "y", Rr(("F", "f", y), y)), ("Exists", "y", Rr(y, y)), neg(P(k)), neg(("Exists", "x", P(x))), ("Forall", "x", neg(P(x))), ("And", P(k), ("P", "Q")), imp(P(k), ("P", "Q")), BOT]


def small_boxes(kind):
    """(premises, box without its row) with interiors the checker accepts."""
    out = []
    pool = small_formulas(kind)
    if kind == "pl":
        a, b = pool[0], pool[1]
        for f in (a, b, neg(a), ("And", a, b), ("Or", a, b)):
            out.append(([], None, [(f, "assumption", ())]))
            out.append(([], None, [(f, "assumption", ()), (("Or", f, ("A", "c")), "or_i1", (-1,))]))
            out.append(([neg(f)], None, [(f, "assumption", ()), (BOT, "neg_e" if f[0] != "Not" else "neg_e", (-1, 0))]))
            out.append(([b], None, [(f, "assumption", ()), (b, "copy", (0,))]))
        out.append(([], None, [(("And", a, b), "assumption", ()), (a, "and_e1", (-1,))]))
        out.append(([], None, [(("And", a, b), "assumption", ()), (b, "and_e2", (-1,))]))
        return out
    x, y = ("V", "x"), ("V", "y")
    for t in BOX_TERMS[:2] + (("C", "k"), x, ("F", "f", ("C", "k"))):
        P, Rtt = ("P", "P", t), ("P", "R", t, t)
        out.append(([], t, [(P, "assumption", ())]))
        out.append(([("Forall", "x", ("P", "P", x))], t, [(P, "forall_e", (0,))]))
        out.append(([("Forall", "x", ("P", "R", x, x))], t, [(Rtt, "forall_e", (0,))]))
        out.append(([("Forall", "x", ("P", "R", x, ("C", "k")))], t, [(("P", "R", t, ("C", "k")), "forall_e", (0,))]))
        out.append(([("P", "P", ("C", "k"))], t, [(("P", "P", ("C", "k")), "copy", (0,))]))
        out.append(([], t, [(P, "assumption", ()), (("Exists", "y", ("P", "P", y)), "exists_i", (-1,))]))
        out.append(([], t, [(Rtt, "assumption", ()), (("Exists", "y", ("P", "R", t, y)), "exists_i", (-1,))]))
        out.append(([("P", "Q")], t, [(P, "assumption", ()), (("P", "Q"), "copy", (0,))]))
        out.append(([("Forall", "x", ("Exists", "y", ("P", "R", x, y)))], t, [(("Exists", "y", ("P", "R", t, y)), "forall_e", (0,))]))
        out.append(([neg(P)], t, [(P, "assumption", ()), (BOT, "neg_e", (-1, 0))]))
        for f in (("P", "P", x), ("P", "R", x, t)):
            out.append(([], t, [(f, "assumption", ())]))
    out.append(([], None, [(("P", "P", ("C", "k")), "assumption", ())]))
    return out


def instance(kind, args, rule, f):
    """A proof of f by the rule from formulas (premises) and boxes; args are indices into the pools."""
    pool, boxes = small_formulas(kind), small_boxes(kind)
    items, refs, row = [], [], 0
    for sort, n in args:
        if sort == "L":
            row += 1
            items.append(("L", row, pool[n], "premise", ()))
            refs.append(row)
        else:
            premises, t, inner = boxes[n]
            at = []
            for p in premises:
                row += 1
                items.append(("L", row, p, "premise", ()))
                at.append(row)
            row += 1
            brow, its = row, []
            for g, r, rr in inner:
                q = brow if not its else row + 1
                row = max(row, q)
                its.append(("L", q, g, r, tuple(at[k] if k >= 0 else its[k][1] for k in rr)))
            items.append(("B", brow, t, its))
            refs.append(brow)
    items.append(("L", row + 1, f, rule, tuple(refs)))
    return items


def case_instance(ctx, kind, args, rule, f, far=None):
    ctx.ev("rule instances")
    items = instance(kind, args, rule, f)
    if far is not None:
        items = stretched(random.Random(far), kind, items)
        ctx.ev("stretched")
    judge(ctx, kind, items, {} if ctx.evaluations % 2 else None, "instance")


def run_instances(ctx, kind, n):
    """Rules on one or two formulas, and on boxes, with every conclusion of the pool; n of them at random if there are more."""
    rng = ctx.rng
    pool, nb = small_formulas(kind), len(small_boxes(kind))
    rules = [r for r in fol.RULES if kind == "fol" or r not in ndgen.QUANT_RULES]
    L = range(len(pool))
    conclusions = list(pool)
    i = 0
    for rule in rules:
        for a in L:
            for f in conclusions:
                i += 1
                if ctx.mine(i):
                    ctx.run("instance", kind=kind, args=[("L", a)], rule=rule, f=f)
    wider = conclusions + [imp(f, g) for f in pool[:6] for g in pool[:6] if f != g] + [neg(f) for f in pool if f[0] != "Not"]
    if kind == "fol":
        k0, x0 = BOX_TERMS[:2]
        for t in (k0, x0):
            wider += [("P", "P", t), ("Forall", "x", ("P", "R", ("V", "x"), t)), ("Exists", "x", ("P", "R", ("V", "x"), t)), ("P", "R", t, t), ("Exists", "y", ("P", "R", t, ("V", "y")))]
        x, y = ("V", "x"), ("V", "y")
        wider += [("Forall", "y", ("Exists", "y", ("P", "R", y, y))), ("Forall", "y", ("Exists", "x", ("P", "R", y, x)))]
    for rule in rules:
        for b in range(nb):
            for f in wider:
                i += 1
                if ctx.mine(i):
                    ctx.run("instance", kind=kind, args=[("B", b)], rule=rule, f=f)
    for _ in range(n):
        rule = rng.choice(rules)
        args = [("L", rng.choice(L)), ("L", rng.choice(L))]
        k = rng.random()
        if k < 0.4:
            args = [("L", rng.choice(L)), ("B", rng.randrange(nb))]
            rule = rng.choice(("exists_e", "exists_e", rule)) if kind == "fol" else rule
        elif k < 0.6:
            args = [("L", rng.choice(L)), ("B", rng.randrange(nb)), ("B", rng.randrange(nb))]
            rule = rng.choice(("or_e", rule))
        f = rng.choice(wider)
        q = rng.random()
        if q < 0.3:
            g = pool[args[0][1]]
            f = rng.choice(list(subs(g)))
        elif q < 0.6 and args[-1][0] == "B":
            f = small_boxes(kind)[args[-1][1]][2][-1][0]
        ctx.run("instance", kind=kind, args=args, rule=rule, f=f, far=rng.getrandbits(32) if rng.random() < 0.08 else None)


# --- quantifier proofs with one slip

def case_slip(ctx, slip, items, shared):
    ctx.ev("slips")
    if judge(ctx, "fol", list(items), {} if shared else None, "slip"):
        ctx.ev("slips without consequence")


def run_slips(ctx, n):
    rng = ctx.rng
    for _ in range(n):
        slip = rng.choice(ndquant.SLIPS[1:])
        items = ndquant.pattern(rng, slip)
        if items is None:
            continue
        ctx.ev("slip: " + slip)
        if rng.random() < 0.15:
            items = stretched(rng, "fol", items)
            ctx.ev("stretched")
        ctx.run("slip", slip=slip, items=items, shared=rng.random() < 0.5)


# --- one application of a rule with one of its parts replaced by something similar

def part_rules(A, C, D):
    """rule -> (what it cites, conclusion); a pair is a box with its first and last line."""
    return {
        "and_e1": ([("And", A, C)], A), "and_e2": ([("And", A, C)], C), "and_i": ([A, C], ("And", A, C)),
        "or_i1": ([A], ("Or", A, C)), "or_i2": ([C], ("Or", A, C)), "copy": ([A], A), "dneg_i": ([A], neg(neg(A))), "dneg_e": ([neg(neg(A))], A),
        "bot_e": ([BOT], A), "neg_e": ([A, neg(A)], BOT), "impl_e": ([A, imp(A, C)], C), "MT": ([imp(A, C), neg(C)], neg(A)),
        "impl_i": ([[A, C]], imp(A, C)), "neg_i": ([[A, BOT]], neg(A)), "or_e": ([("Or", A, C), [A, D], [C, D]], D),
    }


def binary_imp(f, g):
    return ndgen.binary(imp(f, g)) and imp(f, g)[0] == "Or"


def parts(rng, kind):
    """A proof by one rule in which (mostly) one part is not what the rule asks for."""
    F = ndgen.Formulas(rng, kind)
    rule = rng.choice(("or_e", "or_e", "impl_i", "neg_i", "impl_e", "MT") + tuple(part_rules(BOT, BOT, BOT)))
    A, C, D = F(rng.choice((0, 0, 1, 2))), F(rng.choice((0, 0, 1, 2))), F(rng.choice((0, 1)))
    if rng.random() < 0.25:   # conclusions that the library merges with what is around them
        C = (rng.choice(("Or", "Or", "And")), F(0), F(0))
    pool = [A, C, D, F(1)]
    ts = [t for f in pool for t in terms(f)] or [("C", "k")]
    args, f = part_rules(A, C, D)[rule]
    args = [list(a) if isinstance(a, list) else a for a in args]
    for _ in range(rng.choice((0, 1, 1, 1, 1, 2))):
        n = rng.randint(0, len(args))

        def other(g):
            k = rng.random()
            if k < 0.15 and g[0] in ("And", "Or", "Implies", "Equivalence"):
                return g + (rng.choice(pool),)
            if k < 0.25:
                return rng.choice(pool)
            if k < 0.55:
                return near(rng, F, g)
            return transform(rng, kind, g, pool, ts)
        if n == len(args):
            f = other(f)
        elif isinstance(args[n], list):
            m = rng.randrange(2)
            args[n][m] = other(args[n][m])
        else:
            args[n] = other(args[n])
    if rng.random() < 0.1:
        rng.shuffle(args)
    if rng.random() < 0.1 and len(args) > 1:
        args[rng.randrange(len(args))] = rng.choice(args)
    items, row = [], 0
    todo, outer = [], None
    for a in args:
        for g in (a[1:] if isinstance(a, list) else [a]):
            if isinstance(a, list) and g == BOT:
                g = neg(a[0])
            elif isinstance(a, list) and g != a[0] and binary_imp(a[0], g) and rng.random() < 0.7:
                g = imp(a[0], g)   # what holds at the end of the box holds only within it
            row += 1
            items.append(("L", row, g, "premise", ()))
            todo.append(row)
    inner = items
    if rng.random() < 0.25:   # all of it within a box
        row += 1
        outer = ("B", row, None, [("L", row, F(0), "assumption", ())])
        items.append(outer)
        inner = outer[3]
    refs = []
    for a, r in zip(args, todo):
        if not isinstance(a, list):
            refs.append(r)
            continue
        row += 2
        box = [("L", row - 1, a[0], "assumption", ())]
        if a[1] == BOT:
            box.append(("L", row, BOT, "neg_e", (row - 1, r)))
        elif items[r - 1][2] == imp(*a):
            box.append(("L", row, a[1], "impl_e", (row - 1, r)))
        elif a[0] != a[1] or rng.random() < 0.5:
            box.append(("L", row, a[1], "copy", (r,)))
        if rng.random() < 0.15:   # and something after or before the last line
            row += 1
            box.insert(rng.choice((1, len(box))), ("L", row, a[0], "copy", (box[0][1],)))
        inner.append(("B", box[0][1], None, box))
        refs.append(box[0][1])
    inner.append(("L", row + 1, f, rule, tuple(refs)))
    if outer is not None:
        items.append(("L", row + 2, imp(outer[3][0][2], f), "impl_i", (outer[1],)))
    return rule, items


def case_parts(ctx, kind, rule, items, shared):
    judge(ctx, kind, list(items), {} if shared else None, "parts")


def run_parts(ctx, kind, n):
    rng = ctx.rng
    for _ in range(n):
        rule, items = parts(rng, kind)
        if not all(sane(i[2]) for i in fol.lines_of(items)):
            continue
        ctx.ev("parts: " + rule)
        if rng.random() < 0.1:
            items = stretched(rng, kind, items)
            ctx.ev("stretched")
        ctx.run("parts", kind=kind, rule=rule, items=items, shared=rng.random() < 0.5)


# --- names that read like something else

ODD_NAMES = ("false", "false", "false", "true", "tt", "not", "forall", "and", "bot", "None", "FalseFormula", "TrueFormula", "a_b", "A", "_", "premise")


def renamed(kind, items, old, name):
    """The proof with another name for an atom or predicate, or for the atom that stands for the absurd when old is None."""
    def formula(f):
        if f[0] in ("A", "P"):
            return f[:1] + (name,) + f[2:] if f[1] == old else f
        if f == BOT:
            return (("A",) if kind == "pl" else ("P",)) + (name,) if old is None else f
        if f[0] == "Top":
            return f
        if f[0] in ("Forall", "Exists"):
            return (f[0], f[1], formula(f[2]))
        return (f[0],) + tuple(formula(g) for g in f[1:])

    def go(its):
        return [i[:2] + (formula(i[2]),) + i[3:] if i[0] == "L" else i[:3] + (go(i[3]),) for i in its]
    return go(items)


def rejected(kind, items):
    try:
        return ND.check(fol.proof_of(list(items))[0]) is not True
    except Exception:  # noqa: B902
        return True


def case_odd(ctx, kind, items, name, shared):
    """Finding name-false: an atom called false is taken for the absurd; only if any other name is not."""
    other = "e" if kind == "pl" else "fresh_name"
    judge(ctx, kind, list(items), {} if shared else None, "odd names", None if name != "false" else lambda: rejected(kind, renamed(kind, items, name, other)))


def run_odd(ctx, kind, n):
    rng = ctx.rng
    for k in range(n):
        name = rng.choice(ODD_NAMES) if kind == "fol" else "false"
        if rng.random() < 0.5:
            items = parts(rng, kind)[1]
        else:
            items = ndgen.derivation(rng, kind, steps=rng.randint(0, 4), depth=2, rule=rng.choice(("neg_e", "bot_e", "neg_i", "copy")))[0]
            if rng.random() < 0.5:
                items = mutate(rng, kind, items)
        if not usable(items) or not all(sane(i[2]) for i in fol.lines_of(items)):
            continue
        names = sorted({g[1] for i in fol.lines_of(items) for g in subs(i[2]) if g[0] in ("A", "P")})
        if kind == "pl":
            items = renamed(kind, items, "e", "d")
        items = renamed(kind, items, rng.choice(names + [None]), name) if names else items
        if rng.random() < 0.3:   # both spellings side by side
            items = [("L", 9001, (("A",) if kind == "pl" else ("P",)) + (name,), "premise", ()), ("L", 9002, BOT if rng.random() < 0.5 else (("A",) if kind == "pl" else ("P",)) + (name,), rng.choice(("copy", "copy", "dneg_e", "dneg_i", "bot_e")), (9001,))] + list(items)
        ctx.run("odd", kind=kind, items=items, name=name, shared=rng.random() < 0.5)
        ctx.ev("proofs with odd names")
