"""Generators of natural deduction proofs: correct derivations, and formulas around them."""
from . import fol
from .fol import BOT, abstract, free_vars, imp, literal, neg, subs, subst, term_names, terms

PL_ATOMS = "abcde"
VARS, CONSTS = "xyzuw", "kcd"
FUNS = (("f", 1), ("g", 2), ("e", 0), ("h", 3))
PREDS = (("P", 1), ("Q", 0), ("R", 2), ("S", 3), ("T", 4))
BINARY_RULES = ("and_e1", "and_e2", "and_i", "bot_e", "copy", "dneg_e", "dneg_i", "impl_e", "impl_i", "MT", "neg_e", "neg_i", "or_e", "or_i1", "or_i2")
QUANT_RULES = ("forall_e", "forall_i", "exists_e", "exists_i")


class Formulas:
    """Random formulas that the library keeps as written."""

    def __init__(self, rng, kind, names=None):
        self.rng, self.kind = rng, kind
        self.atoms = names or PL_ATOMS[:rng.randint(2, 5)]
        self.preds = rng.sample(PREDS, rng.randint(1, 3))
        self.funs = rng.sample(FUNS, rng.choice((0, 0, 1, 1, 2)))
        self.consts = CONSTS[:rng.randint(1, 3)]
        self.vars = VARS[:rng.randint(2, 5)]
        self.free = rng.random() < 0.3  # free variables in open formulas?

    def term(self, bound, d=2):
        rng = self.rng
        k = rng.random()
        if bound and k < 0.6:
            return ("V", rng.choice(bound))
        if d and self.funs and k > 0.8:
            f, n = rng.choice(self.funs)
            return ("F", f) + tuple(self.term(bound, d - 1) for _ in range(n))
        if self.free and k > 0.7:
            return ("V", rng.choice(self.vars))
        return ("C", rng.choice(self.consts))

    def atom(self, bound=()):
        rng = self.rng
        if self.kind == "pl":
            return ("A", rng.choice(self.atoms))
        p, n = rng.choice(self.preds)
        return ("P", p) + tuple(self.term(bound) for _ in range(n))

    def raw(self, d, bound=()):
        rng = self.rng
        k = rng.random()
        if d <= 0 or k < 0.25:
            return self.atom(bound)
        if self.kind == "fol" and k < 0.5:
            v = rng.choice(self.vars)
            return (rng.choice(("Forall", "Exists")), v, self.raw(d - 1, tuple(set(bound) | {v})))
        x = self.raw(d - 1, bound)
        if k < 0.65:
            return neg(x)
        y = self.raw(d - 1, bound)
        if k < 0.8:
            return imp(x, y)
        if k > 0.96:
            return (rng.choice(("Equivalence", "Implies")), x, y)
        if k > 0.92:
            return (rng.choice(("And", "Or")), x, y) + tuple(self.raw(d - 1, bound) for _ in range(rng.choice((1, 1, 2, 4))))
        return ("And" if k < 0.86 else "Or", x, y)

    def __call__(self, d=2):
        for _ in range(40):
            f = self.raw(self.rng.randint(0, d))
            if binary(f) and literal(f):
                return f
        return self.atom()


def binary(f):
    """No connective is directly under itself, none has constant, equal or complementary operands."""
    for g in subs(f):
        if g[0] in ("And", "Or", "Equivalence", "Implies"):
            if len(g) < 3 or any(h[0] in (g[0], "Bot", "Top") for h in g[1:]) or len(set(g[1:])) < len(g) - 1 or any(neg(h) in g[1:] for h in g[1:]):
                return False
        if g[0] == "Not" and g[1][0] in ("Not", "Bot", "Top"):
            return False
    return True


class Derivation:
    """A random correct derivation, grown rule by rule; every line is literally the conclusion of its rule."""

    def __init__(self, rng, kind, depth=3, fdepth=2):
        self.rng, self.kind, self.maxdepth = rng, kind, depth
        self.F = Formulas(rng, kind)
        self.fdepth = fdepth
        self.row = 0
        self.fresh = 0
        self.used = {}
        self.made, self.open = [], []
        self.prefix = rng.choice(("t", "v", "x0", "n_"))

    def next_row(self):
        self.row += 1
        return self.row

    def new_term(self, scope=()):
        """The term of a box: a new one, or that of a closed box if no visible line mentions it."""
        if self.made and self.rng.random() < 0.4:
            taken = {n for k, _, f, *_ in scope if k == "L" for n in term_names(f)} | {t[1] for t in self.open}
            free = [t for t in self.made if t[1] not in taken]
            if free:
                self.used["term of a closed box again"] = self.used.get("term of a closed box again", 0) + 1
                return self.rng.choice(free)
        self.fresh += 1
        t = (self.rng.choice("VC"), "%s%d" % (self.prefix, self.fresh))
        self.made.append(t)
        return t

    def ok(self, f):
        return f is not None and fol_size(f) <= 40 and binary(f) and literal(f)

    # a scope is a list of ('L', row, formula) and ('B', row, term, first formula, last formula)
    def line(self, items, scope, f, rule, refs, row=None):
        row = row or self.next_row()
        items.append(("L", row, f, rule, tuple(refs)))
        scope.append(("L", row, f))
        self.used[rule] = self.used.get(rule, 0) + 1
        return row

    def lines(self, scope, test=None):
        return [(r, f) for k, r, f, *_ in scope if k == "L" and (test is None or test(f))]

    def have(self, scope, f):
        for r, g in self.lines(scope):
            if g == f:
                return r
        return None

    def pick(self, scope, test=None):
        c = self.lines(scope, test)
        # mostly something recent
        return (self.rng.choice(c[-6:]) if self.rng.random() < 0.6 else self.rng.choice(c)) if c else None

    def premises(self, items, scope, n):
        for _ in range(n):
            f = self.F(self.fdepth)
            if self.rng.random() < 0.04:
                f = BOT
            self.line(items, scope, f, "premise", ())
            k = self.rng.random()
            if k < 0.25:  # partners for the rules with two premises
                g = self.F(self.fdepth)
                h = imp(f, g)
                if self.ok(h):
                    self.line(items, scope, h, "premise", ())
                    if self.rng.random() < 0.5 and f[0] != "Not" and g[0] != "Not" and self.ok(neg(g)):
                        self.line(items, scope, neg(g), "premise", ())
            elif k < 0.35 and f[0] != "Not" and self.ok(neg(f)):
                self.line(items, scope, neg(f), "premise", ())

    def grow(self, items, scope, depth, steps):
        for _ in range(steps):
            rules = ["and_e1", "and_e2", "and_i", "copy", "dneg_e", "dneg_i", "impl_e", "MT", "neg_e", "or_i1", "or_i2", "bot_e"]
            if depth < self.maxdepth:
                rules += ["impl_i", "impl_i", "neg_i", "neg_i", "or_e", "or_e"]
            if self.kind == "fol":
                rules += ["forall_e"] * 3 + ["exists_i"] * 3
                if depth < self.maxdepth:
                    rules += ["forall_i"] * 3 + ["exists_e"] * 3
            self.apply(self.rng.choice(rules), items, scope, depth)

    def apply(self, rule, items, scope, depth):
        """Append an application of the rule, if one is found; tells whether it was."""
        return getattr(self, "r_" + rule)(items, scope, depth)

    def box(self, scope, term, assumption, depth, steps, finish=None):
        """A box; finish appends its last line and may fail."""
        self.open.append(term or ("C", ""))
        try:
            return self._box(scope, term, assumption, depth, steps, finish)
        finally:
            self.open.pop()

    def _box(self, scope, term, assumption, depth, steps, finish):
        items, inner = [], list(scope)
        row = self.next_row()
        if assumption is not None:
            arow = row if term is None or self.rng.random() < 0.6 else self.next_row()
            self.line(items, inner, assumption, "assumption", (), arow)
        if steps:
            self.grow(items, inner, depth + 1, steps)
        if finish is not None and finish(items, inner) is False:
            return None
        if not items or items[-1][0] != "L":
            c = self.pick([e for e in inner if e[0] == "L"])
            if c is None:
                return None
            self.line(items, inner, c[1], "copy", (c[0],))
        return ("B", row, term, items)

    def add_box(self, items, scope, box):
        items.append(box)
        first = next((i[2] for i in box[3] if i[0] == "L"), None)
        scope.append(("B", box[1], box[2], first, box[3][-1][2]))
        return box[1], box[3][-1][2]

    def some_steps(self, depth):
        return self.rng.choice((0, 0, 0, 1, 1, 2, 3)) if depth < self.maxdepth else 0

    def filler(self, items, scope):
        """Irrelevant lines between the parts of a rule."""
        while self.rng.random() < 0.25:
            c = self.pick(scope)
            if c is None:
                return
            self.line(items, scope, c[1], "copy", (c[0],))

    def r_and_e1(self, items, scope, depth, rule="and_e1"):
        c = self.pick(scope, lambda f: f[0] == "And" and len(f) == 3)
        if c:
            self.line(items, scope, c[1][1 if rule == "and_e1" else 2], rule, (c[0],))
        return bool(c)

    def r_and_e2(self, items, scope, depth):
        return self.r_and_e1(items, scope, depth, "and_e2")

    def r_and_i(self, items, scope, depth):
        x, y = self.pick(scope), self.pick(scope)
        if x and self.ok(("And", x[1], y[1])):
            self.line(items, scope, ("And", x[1], y[1]), "and_i", (x[0], y[0]))
            return True
        return False

    def r_copy(self, items, scope, depth, rule="copy"):
        c = self.pick(scope)
        if c:
            self.line(items, scope, c[1], rule, (c[0],))
        return bool(c)

    def r_dneg_e(self, items, scope, depth):
        return self.r_copy(items, scope, depth, "dneg_e")

    def r_dneg_i(self, items, scope, depth):
        return self.r_copy(items, scope, depth, "dneg_i")

    def r_bot_e(self, items, scope, depth):
        c = self.pick(scope, lambda f: f == BOT)
        if c:
            self.line(items, scope, self.F(self.fdepth), "bot_e", (c[0],))
        return bool(c)

    def r_or_i1(self, items, scope, depth, left=True):
        c = self.pick(scope)
        g = self.F(self.fdepth)
        if not c:
            return False
        f = ("Or", c[1], g) if left else ("Or", g, c[1])
        if self.ok(f):
            self.line(items, scope, f, "or_i1" if left else "or_i2", (c[0],))
            return True
        return False

    def r_or_i2(self, items, scope, depth):
        return self.r_or_i1(items, scope, depth, False)

    def implications(self, scope):
        """(row, x, y) for the visible lines that are literally x implies y."""
        out = []
        for r, f in self.lines(scope, lambda f: f[0] == "Or" and len(f) == 3):
            x, y = neg(f[1]), f[2]
            if imp(x, y) == f and x[0] not in ("Bot", "Top"):
                out.append((r, x, y))
        return out

    def r_impl_e(self, items, scope, depth):
        c = self.implications(scope)
        self.rng.shuffle(c)
        for r, x, y in c:
            p = self.have(scope, x)
            if p is not None:
                self.line(items, scope, y, "impl_e", (p, r))
                return True
        return False

    def r_MT(self, items, scope, depth):
        c = [(r, x, y) for r, x, y in self.implications(scope) if x[0] not in ("Not", "Bot", "Top") and y[0] not in ("Not", "Bot", "Top")]
        self.rng.shuffle(c)
        for r, x, y in c:
            p = self.have(scope, ("Not", y))
            if p is not None and self.ok(("Not", x)):
                self.line(items, scope, ("Not", x), "MT", (r, p))
                return True
        return False

    def r_neg_e(self, items, scope, depth):
        c = self.lines(scope, lambda f: f[0] == "Not")
        self.rng.shuffle(c)
        for r, f in c:
            p = self.have(scope, f[1])
            if p is not None:
                self.line(items, scope, BOT, "neg_e", (p, r))
                return True
        return False

    def r_impl_i(self, items, scope, depth):
        g = self.F(self.fdepth) if self.rng.random() < 0.6 else None
        if g is None:
            c = self.pick(scope)
            g = c[1] if c else self.F(self.fdepth)
        if g[0] in ("Bot", "Top"):
            return False
        b = self.box(scope, None, g, depth, self.some_steps(depth))
        if b is None or not self.ok(imp(g, b[3][-1][2])):
            return False
        r, last = self.add_box(items, scope, b)
        self.filler(items, scope)
        self.line(items, scope, imp(g, last), "impl_i", (r,))
        return True

    def r_neg_i(self, items, scope, depth):
        # contradictory with the negation of x, which is visible
        c = self.pick(scope, lambda f: f[0] == "Not")
        if c is None:
            return False
        r, x = c[0], c[1][1]
        k = self.rng.random()
        if k < 0.4:
            g = x
            if g[0] in ("Not", "Bot", "Top"):
                return False

            def finish(its, sc):
                self.line(its, sc, BOT, "neg_e", (its[0][1], r))
        elif k < 0.8:
            y = self.F(self.fdepth)
            left = self.rng.random() < 0.5
            g = ("And", x, y) if left else ("And", y, x)

            def finish(its, sc):
                p = self.line(its, sc, x, "and_e1" if left else "and_e2", (its[0][1],))
                self.filler(its, sc)
                self.line(its, sc, BOT, "neg_e", (p, r))
        else:
            c = [(q, a) for q, a, b in self.implications(scope) if b == x and a[0] not in ("Not", "Bot", "Top")]
            if not c:
                return False
            q, g = self.rng.choice(c)

            def finish(its, sc):
                p = self.line(its, sc, x, "impl_e", (its[0][1], q))
                self.line(its, sc, BOT, "neg_e", (p, r))
        if not self.ok(g) or not self.ok(("Not", g)):
            return False
        b = self.box(scope, None, g, depth, self.some_steps(depth), finish)
        if b is None:
            return False
        q, _ = self.add_box(items, scope, b)
        self.filler(items, scope)
        self.line(items, scope, ("Not", g), "neg_i", (q,))
        return True

    def r_or_e(self, items, scope, depth):
        c = self.pick(scope, lambda f: f[0] == "Or" and len(f) == 3)
        if c is None:
            return False
        r, (_, x, y) = c
        k = self.rng.random()
        other = self.pick(scope)
        if k < 0.4:
            chi = ("Or", y, x)
            fin1 = lambda its, sc: self.line(its, sc, chi, "or_i2", (its[0][1],))  # noqa: E731
            fin2 = lambda its, sc: self.line(its, sc, chi, "or_i1", (its[0][1],))  # noqa: E731
        elif k < 0.6:
            chi = ("Or", x, y)
            fin1 = lambda its, sc: self.line(its, sc, chi, "or_i1", (its[0][1],))  # noqa: E731
            fin2 = lambda its, sc: self.line(its, sc, chi, "or_i2", (its[0][1],))  # noqa: E731
        elif k < 0.8 and other:
            chi = other[1]
            fin1 = fin2 = lambda its, sc: self.line(its, sc, chi, "copy", (other[0],))  # noqa: E731
        else:  # from the refuted side anything follows
            p = self.have(scope, neg(x)) if x[0] != "Not" else None
            if p is None:
                return False
            chi = y

            def fin1(its, sc):
                q = self.line(its, sc, BOT, "neg_e", (its[0][1], p))
                self.line(its, sc, y, "bot_e", (q,))
            fin2 = lambda its, sc: self.line(its, sc, y, "copy", (its[0][1],)) if its[-1][2:3] != (y,) or its[-1][0] != "L" else None  # noqa: E731
        if not self.ok(chi):
            return False
        b1 = self.box(scope, None, x, depth, self.some_steps(depth), lambda i, s: fin1(i, s) and None)
        if b1 is None:
            return False
        q1, _ = self.add_box(items, scope, b1)
        self.filler(items, scope)
        b2 = self.box(scope, None, y, depth, self.some_steps(depth), lambda i, s: fin2(i, s) and None)
        if b2 is None:
            return False
        q2, _ = self.add_box(items, scope, b2)
        self.filler(items, scope)
        self.line(items, scope, chi, "or_e", (r, q1, q2))
        return True

    # quantifiers
    def instance_term(self, f):
        rng = self.rng
        if rng.random() < 0.4:
            c = [t for t in terms(f)]
            if c:
                return rng.choice(c)
        return self.F.term(tuple(self.F.vars) if rng.random() < 0.3 else ())

    def instantiate(self, q, t):
        g = subst(q[2], q[1], t)
        return g if self.ok(g) else None

    def r_forall_e(self, items, scope, depth):
        c = self.pick(scope, lambda f: f[0] == "Forall")
        if c is None:
            return False
        g = self.instantiate(c[1], self.instance_term(c[1]))
        if g is None:
            return False
        self.line(items, scope, g, "forall_e", (c[0],))
        return True

    def generalize(self, q, f, t, p=1.0):
        """A formula q x.phi of which f is the instance for t, or None."""
        v = self.rng.choice([v for v in VARS + "pqrs" if v not in term_names(f)] or ["v99"])
        phi = abstract(self.rng, f, t, v, p)
        g = (q, v, phi)
        return g if self.ok(g) and subst(phi, v, t) == f else None

    def r_exists_i(self, items, scope, depth):
        c = self.pick(scope, lambda f: f != BOT)
        if c is None:
            return False
        ts = [t for t in terms(c[1])]
        t = self.rng.choice(ts) if ts else ("C", "k")
        g = self.generalize("Exists", c[1], t, self.rng.choice((1.0, 1.0, 0.5)))
        if g is None:
            return False
        self.line(items, scope, g, "exists_i", (c[0],))
        return True

    def r_forall_i(self, items, scope, depth):
        c = self.pick(scope, lambda f: f[0] == "Forall")
        t = self.new_term(scope)
        if c is not None and self.rng.random() < 0.85:
            g = self.instantiate(c[1], t)
            if g is None:
                return False

            def finish(its, sc):
                self.line(its, sc, g, "forall_e", (c[0],))
                if self.rng.random() < 0.3:
                    self.grow(its, sc, depth + 1, 2)
        else:
            c = self.pick(scope)
            if c is None:
                return False

            def finish(its, sc):
                self.line(its, sc, c[1], "copy", (c[0],))
        b = self.box(scope, t, None, depth, self.some_steps(depth), finish)
        if b is None:
            return False
        last = b[3][-1][2]
        if t[0] == "V" and self.rng.random() < 0.2:
            g = ("Forall", t[1], last)
            if not self.ok(g):
                return False
        else:
            g = self.generalize("Forall", last, t)
            if g is None:
                return False
        r, _ = self.add_box(items, scope, b)
        self.filler(items, scope)
        self.line(items, scope, g, "forall_i", (r,))
        return True

    def r_exists_e(self, items, scope, depth):
        c = self.pick(scope, lambda f: f[0] == "Exists")
        if c is None:
            return False
        t = self.new_term(scope)
        g = self.instantiate(c[1], t)
        if g is None:
            return False
        other = self.pick(scope)

        def finish(its, sc):
            k = self.rng.random()
            if k < 0.6:
                f = self.rng.choice(self.lines(sc[len(scope):]))
                h = self.generalize("Exists", f[1], t)
                if h is None or t[1] in term_names(h):
                    return False
                self.line(its, sc, h, "exists_i", (f[0],))
            else:
                self.line(its, sc, other[1], "copy", (other[0],))
        b = self.box(scope, t, g, depth, self.some_steps(depth), finish)
        if b is None or t[1] in term_names(b[3][-1][2]):
            return False
        r, last = self.add_box(items, scope, b)
        self.filler(items, scope)
        self.line(items, scope, last, "exists_e", (c[0], r))
        return True


def fol_size(f):
    return sum(1 for _ in subs(f))


def derivation(rng, kind, steps=None, depth=None, rule=None):
    """(items, rules used); with a rule, one that uses it if it can be arranged."""
    for _ in range(30):
        d = Derivation(rng, kind, depth if depth is not None else rng.choice((0, 1, 2, 2, 3, 4)), rng.choice((0, 1, 1, 2)))
        items, scope = [], []
        d.premises(items, scope, rng.randint(1, 5))
        d.grow(items, scope, 0, steps if steps is not None else rng.randint(1, 14))
        if rule is None or d.used.get(rule):
            return items, d.used
        if hasattr(d, "r_" + rule):
            d.apply(rule, items, scope, 0)
        if d.used.get(rule):
            return items, d.used
    return items, d.used


def relabel(rng, items):
    """A map from the rows of a derivation to other labels."""
    rows = {r for r, _, _ in fol.rows_of(items)} | {r for i in fol.lines_of(items) for r in (i[1],) + i[4]}
    n = len(rows)
    k = rng.random()
    if k < 0.3:
        new = list(range(1, n + 1))
    elif k < 0.5:
        new = rng.sample(range(-50, 500 + n), n)
    elif k < 0.6:
        new = list(range(n, 0, -1))
    elif k < 0.7:
        new = ["r%d" % i for i in rng.sample(range(1000 + n), n)]
    elif k < 0.75:
        new = ([0, "", None, (), "0", -1, 0.5, (1, 2), frozenset(), b"", (1, (2,))] + ["r%d" % i for i in range(n)])[:n]
    elif k < 0.85:
        new = [("%d" if i % 2 else "%d.1") % i for i in range(n)]
    else:
        new = [i if rng.random() < 0.5 else "l%d" % i for i in range(n)]
    if k >= 0.3:
        rng.shuffle(new)
    return dict(zip(sorted(rows), new))
