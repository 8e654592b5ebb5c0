"""Small quantifier proofs around terms at any depth: correct ones, and ones with a single slip.

A slip does not make a proof wrong by itself; whoever uses them judges what is accepted semantically."""
import random

from .fol import free_vars, imp, neg, subst

FUNS = (("f", 1), ("f", 1), ("g", 2), ("h", 3))
PREDS = (("P", 1), ("P", 1), ("R", 2), ("R", 2), ("S", 3), ("T", 4))
X, Y = ("V", "x"), ("V", "y")
SLIPS = ("none", "escape", "escape partly", "not fresh for all", "not fresh for some", "generalised partly", "two instances", "two witnesses", "capture", "witness captured", "wrong assumption",
         "wrong term generalised", "fresh in the assumption around", "bound name", "assumption generalised", "compound box term", "variable kept", "box of another formula", "too many witnesses", "swapped quantifiers")


def bury(rng, t, depth, side):
    """A term with t at the given depth."""
    for _ in range(depth):
        f, n = rng.choice(FUNS)
        args = [rng.choice(side) for _ in range(n)]
        args[rng.randrange(n)] = t
        t = ("F", f) + tuple(args)
    return t


class Pattern:
    """phi with slots; fill(t, ...) gives phi with a term in each of them."""

    def __init__(self, rng, slots=None, names=("k", "c", "d")):
        self.rng = rng
        self.slots = slots or rng.choice((1, 1, 2, 2, 3))
        side = [("C", n) for n in names]
        if rng.random() < 0.2:
            side.append(("V", "u"))
        self.depths = [rng.choice((0, 0, 1, 1, 2, 2, 3, 4)) for _ in range(self.slots)]
        todo = list(range(self.slots))
        rng.shuffle(todo)
        atoms = []
        while todo:
            n = rng.randint(1, len(todo))
            mine, todo = todo[:n], todo[n:]
            p, arity = rng.choice([q for q in PREDS if q[1] >= n])
            args = [("side", rng.choice(side)) for _ in range(arity)]
            for s, at in zip(mine, rng.sample(range(arity), n)):
                args[at] = ("slot", s, rng.getrandbits(32))
            atoms.append(("atom", p, args))
        f = atoms[0]
        for a in atoms[1:]:
            f = ("op", rng.choice(("And", "Or", "imp")), f, a)
        self.under = []
        for _ in range(rng.choice((0, 0, 1, 1, 2, 3))):
            k = rng.random()
            q = ("P", rng.choice(("Q", "Q2")))
            if k < 0.2:
                f = ("neg", f)
            elif k < 0.4:
                f = ("op", rng.choice(("And", "Or", "imp")), f, ("fixed", q))
            elif k < 0.6:
                f = ("op", rng.choice(("And", "Or", "imp")), ("fixed", q), f)
            else:
                v = rng.choice("yzw")
                self.under.append(v)
                f = ("q", rng.choice(("Forall", "Exists")), v, f)
        self.f = f
        self.side = side

    def fill(self, *ts):
        if len(ts) == 1:
            ts = ts * self.slots

        def go(f):
            if f[0] == "atom":
                args = []
                for a in f[2]:
                    if a[0] == "side":
                        args.append(a[1])
                    else:
                        side = self.side + [("V", v) for v in self.under]
                        args.append(bury(random.Random(a[2]), ts[a[1]], self.depths[a[1]], side))
                return ("P", f[1]) + tuple(args)
            if f[0] == "fixed":
                return f[1]
            if f[0] == "neg":
                return neg(go(f[1]))
            if f[0] == "q":
                return (f[1], f[2], go(f[3]))
            x, y = go(f[2]), go(f[3])
            return imp(x, y) if f[1] == "imp" else (f[1], x, y)
        return go(self.f)


def forced(f, x, t):
    """Substitution that captures variables, and replaces bound occurrences too."""
    def term(u):
        return t if u == ("V", x) else u[:2] + tuple(term(w) for w in u[2:]) if u[0] == "F" else u
    if f[0] == "P":
        return f[:2] + tuple(term(u) for u in f[2:])
    if f[0] in ("Forall", "Exists"):
        return (f[0], f[1], forced(f[2], x, t))
    if f[0] in ("A", "Bot", "Top"):
        return f
    return (f[0],) + tuple(forced(g, x, t) for g in f[1:])


def pattern(rng, slip):
    """(items, description) or None; the slip "none" gives a correct derivation."""
    p = Pattern(rng, slots=2 if slip in ("two instances", "two witnesses", "generalised partly", "swapped quantifiers") and rng.random() < 0.7 else None)
    t = rng.choice((("C", "k0"), ("V", "x0"), ("C", "m"), ("V", "v")))
    other = rng.choice((("C", "k"), ("C", "m2"), ("F", "f", ("C", "k")), ("F", "g", ("C", "k"), ("F", "f", ("C", "c")))))
    some = [t if rng.random() < 0.5 else X for _ in range(p.slots)]
    some[rng.randrange(p.slots)] = t
    mixed = [t if rng.random() < 0.5 else other for _ in range(p.slots)]
    items, row = [], [0]

    def nxt():
        row[0] += 1
        return row[0]

    def line(to, f, rule, *refs):
        r = nxt()
        to.append(("L", r, f, rule, refs))
        return r

    def box(term, f):
        """A box with its assumption; sometimes the term has a row of its own."""
        r = nxt()
        inner = []
        if f is not None:
            a = r if rng.random() < 0.5 else nxt()
            inner.append(("L", a, f, "assumption", ()))
        return ("B", r, term, inner)

    def ex(f):
        return ("Exists", "x", f)

    def fa(f):
        return ("Forall", "x", f)
    while rng.random() < 0.3:
        line(items, p.rng.choice((("P", "Q"), ("P", "P", ("C", "k")), neg(("P", "Q2")))), "premise")
    outer = None
    if rng.random() < 0.3:   # everything inside a box
        outer = ("B", nxt(), None, [])
        outer[3].append(("L", outer[1], ("P", "Q3"), "assumption", ()))
    here = outer[3] if outer else items

    def premise(f):
        if outer is None:
            return line(here, f, "premise")
        r = line(items, f, "premise")
        return r
    phi = p.fill(X)
    if slip == "none":
        slip = rng.choice(("ok exists", "ok forall", "ok both"))
        if slip == "ok exists":
            e = premise(ex(phi))
            b = box(t, p.fill(t))
            y = rng.choice("pqrs")
            g = ("Exists", y, p.fill(("V", y)))
            line(b[3], g, "exists_i", b[3][0][1])
            here.append(b)
            line(here, g, "exists_e", e, b[1])
        elif slip == "ok forall":
            a = premise(fa(phi))
            b = box(t, None)
            line(b[3], p.fill(t), "forall_e", a)
            here.append(b)
            y = rng.choice("pqrs")
            line(here, ("Forall", y, p.fill(("V", y))), "forall_i", b[1])
        else:
            a = premise(fa(phi))
            w = bury(rng, ("C", "k"), rng.choice((0, 1, 2, 3)), p.side[:2])
            i = line(here, p.fill(w), "forall_e", a)
            y = rng.choice("pqrs")
            line(here, ("Exists", y, p.fill(("V", y))), "exists_i", i)
    elif slip in ("escape", "escape partly", "box of another formula"):
        e = premise(ex(phi) if slip != "box of another formula" else ("Exists", "x", ("P", "Q")))
        b = box(t, p.fill(t))
        if slip == "escape" or rng.random() < 0.3:
            g = p.fill(t)
            line(b[3], g, "copy", b[3][0][1])
        else:
            g = ex(p.fill(*some))
            line(b[3], g, "exists_i", b[3][0][1])
        here.append(b)
        line(here, g, "exists_e", e, b[1])
    elif slip == "not fresh for all":
        a = premise(p.fill(t))
        b = box(t, None)
        line(b[3], p.fill(t), "copy", a)
        here.append(b)
        line(here, fa(phi), "forall_i", b[1])
    elif slip == "not fresh for some":
        e = premise(ex(phi))
        q = Pattern(rng)
        m = premise(q.fill(t))
        b = box(t, p.fill(t))
        c = line(b[3], ("And", q.fill(t), p.fill(t)), "and_i", m, b[3][0][1])
        g = ex(("And", q.fill(X), phi))
        line(b[3], g, "exists_i", c)
        here.append(b)
        line(here, g, "exists_e", e, b[1])
    elif slip == "generalised partly":
        a = premise(fa(phi))
        b = box(t, None)
        line(b[3], p.fill(t), "forall_e", a)
        here.append(b)
        line(here, fa(p.fill(*some)), "forall_i", b[1])
    elif slip == "two instances":
        a = premise(fa(phi))
        line(here, p.fill(*mixed), "forall_e", a)
    elif slip == "two witnesses":
        a = premise(p.fill(*mixed))
        line(here, ex(phi), "exists_i", a)
    elif slip in ("capture", "bound name"):
        v = (p.under or ["y"])[0]
        f = phi if p.under else (rng.choice(("Forall", "Exists")), "y", p.fill(X)) if "y" not in free_vars(phi) else phi
        if not p.under:
            q = Pattern(rng, 1)
            f = (rng.choice(("Forall", "Exists")), "y", rng.choice((lambda x, y: ("And", x, y), lambda x, y: ("Or", x, y), imp))(phi, q.fill(Y)))
        a = premise(fa(f))
        w = bury(rng, ("V", v), rng.choice((0, 1, 2)), p.side[:2])
        line(here, forced(f, "x", w), "forall_e", a)
    elif slip == "witness captured":
        v = "y"
        q = Pattern(rng, 1)
        w = bury(rng, Y, rng.choice((0, 1, 2)), p.side[:2])
        f = ("Forall" if rng.random() < 0.7 else "Exists", v, ("And" if rng.random() < 0.5 else "Or", p.fill(X), q.fill(Y)))
        a = premise(forced(f, "x", w))
        line(here, ex(f), "exists_i", a)
    elif slip == "wrong assumption":
        e = premise(ex(phi))
        b = box(t, p.fill(*mixed))
        line(b[3], ("Exists", "x", p.fill(*[X if m == t else m for m in mixed])), "exists_i", b[3][0][1])
        here.append(b)
        line(here, b[3][-1][2], "exists_e", e, b[1])
    elif slip == "wrong term generalised":
        a = premise(fa(phi))
        m = premise(p.fill(other))
        b = box(t, None)
        line(b[3], p.fill(t), "forall_e", a)
        line(b[3], p.fill(other), "copy", m)
        here.append(b)
        line(here, fa(phi), "forall_i", b[1])
    elif slip == "fresh in the assumption around":
        q = Pattern(rng)
        b0 = box(rng.choice((t, None)), p.fill(t))
        b = box(t, None)
        line(b[3], p.fill(t), "copy", b0[3][0][1])
        b0[3].append(b)
        line(b0[3], fa(phi), "forall_i", b[1])
        here.append(b0)
        line(here, imp(p.fill(t), fa(phi)), "impl_i", b0[1])
    elif slip == "assumption generalised":
        b = box(t, p.fill(t))
        if rng.random() < 0.5:
            line(b[3], p.fill(t), "copy", b[3][0][1])
        here.append(b)
        line(here, fa(phi), "forall_i", b[1])
    elif slip == "compound box term":
        c = bury(rng, ("C", "k"), rng.choice((1, 1, 2)), p.side[:2])
        if rng.random() < 0.5:
            e = premise(ex(phi))
            b = box(c, p.fill(c))
            # the assumption weakened to an inner witness
            y = "q"
            inner = c[2] if len(c) > 2 else c
            g = ("Exists", y, p.fill(("F", c[1], ("V", y)) + c[3:])) if inner else None
            line(b[3], g, "exists_i", b[3][0][1])
            here.append(b)
            line(here, g, "exists_e", e, b[1])
        else:
            m = premise(fa(p.fill(("F", "f", X))))
            c = ("F", "f", ("C", "k0"))
            b = box(c, None)
            line(b[3], p.fill(c), "forall_e", m)
            here.append(b)
            line(here, fa(phi), "forall_i", b[1])
    elif slip == "variable kept":
        a = premise(fa(phi))
        kept = [X if rng.random() < 0.5 else t for _ in range(p.slots)]
        line(here, p.fill(*kept), "forall_e", a)
    elif slip == "too many witnesses":
        # some occurrences of the witness belong to another one
        a = premise(ex(p.fill(*some)))
        line(here, ex(phi), rng.choice(("exists_i", "copy")), a)
    elif slip == "swapped quantifiers":
        ys = [X if rng.random() < 0.5 else ("V", "y9") for _ in range(p.slots)]
        g = p.fill(*ys)
        gt = subst(g, "x", t)
        if gt is None:
            return None
        e = premise(fa(("Exists", "y9", g)))
        b1 = box(t, None)
        i = line(b1[3], ("Exists", "y9", gt), "forall_e", e)
        w = ("C", "w0")
        gw = subst(gt, "y9", w)
        b2 = box(w, gw)
        b1[3].append(b2)
        b3 = box(("C", "z0"), None)
        line(b3[3], gw, "copy", b2[3][0][1])
        b2[3].append(b3)
        h = fa(subst(g, "y9", w))
        line(b2[3], h, "forall_i", b3[1])
        line(b2[3], ("Exists", "y9", fa(g)), "exists_i", b2[3][-1][1])
        line(b1[3], ("Exists", "y9", fa(g)), "exists_e", i, b2[1])
        here.append(b1)
        line(here, ("Forall", "q", ("Exists", "y9", fa(g))), "forall_i", b1[1])
    if outer is not None:
        items.append(outer)
        last = outer[3][-1][2]
        f = imp(("P", "Q3"), last)
        line(items, f, "impl_i", outer[1])
    if rng.random() < 0.3:
        last = items[-1]
        line(items, last[2], "copy", last[1])
    return items
