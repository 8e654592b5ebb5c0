"""Formulas, structures and proofs for natural deduction.

Formulas and terms are tuples; the real objects are built from them (mk) and read back through their
public attributes (read), and what is judged semantically is always what was read back.

  term     ('V', name) | ('C', name) | ('F', name, term, ...)
  formula  ('A', name) | ('P', name, term, ...) | ('Bot',) | ('Top',) | ('Not', f) | ('And', f, ...) | ('Or', f, ...)
           | ('Implies', f, ...) | ('Equivalence', f, ...) | ('Forall', variable name, f) | ('Exists', variable name, f)
  proof    list of ('L', row, formula, rule, refs) | ('B', row, term or None, items)
"""
import random

from . import bridge as B
from pylogics_modalities.deduction.fol import NaturalDeduction

ND = NaturalDeduction
R = ND.rule
RULES = sorted(r.name for r in R)
BOT, TOP = ("Bot",), ("Top",)


def atom(n):
    return ("A", n)


def neg(f):
    """Negation as the library builds it."""
    if f[0] == "Not":
        return f[1]
    if f == BOT:
        return TOP
    if f == TOP:
        return BOT
    return ("Not", f)


def imp(f, g):
    return ("Or", neg(f), g)


# --- real objects

def mk_term(t, memo=None):
    if memo is not None and ("t", t) in memo:
        return memo[("t", t)]
    if t[0] == "V":
        o = B.fol.Variable(t[1])
    elif t[0] == "C":
        o = B.fol.Constant(t[1])
    else:
        o = B.fol.Function(t[1], [mk_term(x, memo) for x in t[2:]])
    if memo is not None:
        memo[("t", t)] = o
    return o


def mk(f, memo=None):
    """The real formula; with a memo equal parts are the same object."""
    if memo is not None and f in memo:
        return memo[f]
    k = f[0]
    if k == "A":
        o = B.pl.Atomic(f[1])
    elif k == "P":
        o = B.fol.Predicate(f[1], [mk_term(t, memo) for t in f[2:]])
    elif k == "Bot":
        o = B.base.FalseFormula()
    elif k == "Top":
        o = B.base.TrueFormula()
    elif k in ("Forall", "Exists"):
        o = (B.fol.ForAll if k == "Forall" else B.fol.Exists)(mk_term(("V", f[1]), memo), mk(f[2], memo))
    else:
        o = B.CLS[k](*[mk(g, memo) for g in f[1:]])
    if memo is not None:
        memo[f] = o
    return o


def read_term(o):
    if isinstance(o, B.fol.Variable):
        return ("V", o.name)
    if isinstance(o, B.fol.Constant):
        return ("C", o.name)
    return ("F", o.name) + tuple(read_term(x) for x in o.operands)


_BOOL = {B.base.And: "And", B.base.Or: "Or", B.base.Implies: "Implies", B.base.Equivalence: "Equivalence"}


def read(o):
    c = type(o)
    if c in _BOOL:
        return (_BOOL[c],) + tuple(read(x) for x in o.operands)
    if c is B.base.Not:
        return ("Not", read(o.argument))
    if c is B.base.FalseFormula:
        return BOT
    if c is B.base.TrueFormula:
        return TOP
    if c is B.pl.Atomic:
        return ("A", o.name)
    if c is B.fol.Predicate:
        return ("P", o.name) + tuple(read_term(x) for x in o.operands)
    if c is B.fol.ForAll:
        return ("Forall", o.variable.name, read(o.formula))
    if c is B.fol.Exists:
        return ("Exists", o.variable.name, read(o.formula))
    raise B.Shape("no formula of a proof: %r" % (o,))


# --- syntax

def subs(f):
    """Subformulas, from the outside in."""
    yield f
    if f[0] in ("Forall", "Exists"):
        yield from subs(f[2])
    elif f[0] not in ("A", "P", "Bot", "Top"):
        for g in f[1:]:
            yield from subs(g)


def t_vars(t):
    if t[0] == "V":
        return {t[1]}
    return set().union(*[t_vars(x) for x in t[2:]]) if t[0] == "F" and len(t) > 2 else set()


def t_subs(t):
    yield t
    if t[0] == "F":
        for x in t[2:]:
            yield from t_subs(x)


def terms(f):
    """All terms occurring in f, free or not."""
    for g in subs(f):
        if g[0] == "P":
            for t in g[2:]:
                yield from t_subs(t)


def term_names(f):
    """Names of all variables, constants and functions in f, bound ones included."""
    out = {t[1] for t in terms(f)}
    return out | {g[1] for g in subs(f) if g[0] in ("Forall", "Exists")}


def free_vars(f):
    if f[0] == "P":
        return set().union(*[t_vars(t) for t in f[2:]]) if len(f) > 2 else set()
    if f[0] in ("Forall", "Exists"):
        return free_vars(f[2]) - {f[1]}
    if f[0] in ("A", "Bot", "Top"):
        return set()
    return set().union(*[free_vars(g) for g in f[1:]])


def t_subst(t, x, a):
    if t == ("V", x):
        return a
    return t[:2] + tuple(t_subst(u, x, a) for u in t[2:]) if t[0] == "F" else t


def subst(f, x, a):
    """f with a for the free occurrences of x; None when a is not free for x."""
    if f[0] == "P":
        return f[:2] + tuple(t_subst(t, x, a) for t in f[2:])
    if f[0] in ("Forall", "Exists"):
        if f[1] == x or x not in free_vars(f[2]):
            return f
        if f[1] in t_vars(a):
            return None
        g = subst(f[2], x, a)
        return None if g is None else (f[0], f[1], g)
    if f[0] in ("A", "Bot", "Top"):
        return f
    out = [subst(g, x, a) for g in f[1:]]
    return None if None in out else (f[0],) + tuple(out)


def t_abstract(rng, t, a, x, p):
    if t == a and rng.random() < p:
        return ("V", x)
    return t[:2] + tuple(t_abstract(rng, u, a, x, p) for u in t[2:]) if t[0] == "F" else t


def abstract(rng, f, a, x, p=1.0):
    """f with x for some occurrences of the term a (no attention to bound variables)."""
    if f[0] == "P":
        return f[:2] + tuple(t_abstract(rng, t, a, x, p) for t in f[2:])
    if f[0] in ("Forall", "Exists"):
        return (f[0], f[1], abstract(rng, f[2], a, x, p))
    if f[0] in ("A", "Bot", "Top"):
        return f
    return (f[0],) + tuple(abstract(rng, g, a, x, p) for g in f[1:])


def literal(f):
    """Does the library keep f as written?"""
    try:
        return read(mk(f)) == f and read(mk(f, {})) == f
    except Exception:  # noqa: B902
        return False


def show_t(t):
    return t[1] if t[0] != "F" else "%s(%s)" % (t[1], ",".join(map(show_t, t[2:])))


def show(f):
    k = f[0]
    if k == "A":
        return f[1]
    if k == "P":
        return f[1] + ("(%s)" % ",".join(map(show_t, f[2:])) if len(f) > 2 else "")
    if k in ("Bot", "Top"):
        return k.lower()
    if k == "Not":
        return "~" + show(f[1])
    if k in ("Forall", "Exists"):
        return "%s %s.%s" % (k.lower(), f[1], show(f[2]))
    return "(" + {"And": " & ", "Or": " | ", "Implies": " => ", "Equivalence": " <=> "}[k].join(map(show, f[1:])) + ")"


def show_items(items, ind=0):
    out = []
    for i in items:
        if i[0] == "L":
            out.append("%s%s. %s   %s %s" % ("  " * ind, i[1], show(i[2]), i[3], ",".join(map(str, i[4]))))
        else:
            out.append("%s%s. [%s" % ("  " * ind, i[1], show_t(i[2]) if i[2] else ""))
            out.extend(show_items(i[3], ind + 1))
    return out if ind else "\n".join(out)


# --- meaning, on many structures at once: a formula is a bit set of structures

class Models:
    """Truth tables over all valuations of a fixed set of atoms, and random structures with domains of 1 to 3."""

    ATOMS = tuple("abcde") + ("false",)

    def __init__(self, seed=0):
        self.seed = seed
        self.blocks = ((1, 64), (2, 640), (3, 640))
        self.cache = {}
        self.sym = {}
        self.npl = 1 << len(self.ATOMS)
        self.pl_full = (1 << self.npl) - 1
        self.pl_atom = {a: sum(1 << v for v in range(self.npl) if v >> i & 1) for i, a in enumerate(self.ATOMS)}

    # propositional
    def pl(self, f):
        k = f[0]
        if k == "A":
            return self.pl_atom[f[1]]
        return _boolean(k, [self.pl(g) for g in f[1:]], self.pl_full)

    # first order
    def fol(self, f):
        m = self.cache.get(f)
        if m is None:
            m, shift = 0, 0
            for b, (n, count) in enumerate(self.blocks):
                m |= self._eval(f, {}, b, n, (1 << count) - 1) << shift
                shift += count
            if len(self.cache) > 60000:
                self.cache.clear()
            self.cache[f] = m
        return m

    @property
    def full(self):
        return (1 << sum(c for _, c in self.blocks)) - 1

    def _bits(self, key, count):
        rng = random.Random("%s/%s" % (self.seed, key))
        x, y = rng.getrandbits(count), rng.getrandbits(count)
        third = count // 3
        low = (1 << third) - 1
        return (x & low) | ((x & y) & (low << third)) | ((x | y) & ~(low | low << third) & ((1 << count) - 1))

    def _onehot(self, key, n, count):
        """For each domain element the structures in which the symbol denotes it."""
        out = self.sym.get((key, n))
        if out is None:
            rng = random.Random("%s/%s" % (self.seed, key))
            out = [0] * n
            for i in range(count):
                out[rng.randrange(n)] |= 1 << i
            self.sym[(key, n)] = out
        return out

    def _term(self, t, env, b, n, full):
        if t[0] == "V" and t[1] in env:
            return env[t[1]]
        count = self.blocks[b][1]
        if t[0] in ("V", "C"):
            return self._onehot("%s %s %d" % (t[0], t[1], b), n, count)
        out = [0] * n
        for ds, m in self._args(t[2:], env, b, n, full):
            table = self._onehot("F %s %d %s %d" % (t[1], len(ds), ds, b), n, count)
            for d in range(n):
                out[d] |= m & table[d]
        return out

    def _args(self, ts, env, b, n, full):
        combos = [((), full)]
        for t in ts:
            v = self._term(t, env, b, n, full)
            combos = [(ds + (d,), m & v[d]) for ds, m in combos for d in range(n) if m & v[d]]
        return combos

    def _eval(self, f, env, b, n, full):
        k = f[0]
        if k == "P" or k == "A":
            ts = f[2:] if k == "P" else ()
            out = 0
            for ds, m in self._args(ts, env, b, n, full):
                key = ("%s %s %d %s %d" % (k, f[1], len(ds), ds, b), 0)
                bits = self.sym.get(key)
                if bits is None:
                    bits = self.sym[key] = self._bits(key[0], self.blocks[b][1])
                out |= m & bits
            return out
        if k in ("Forall", "Exists"):
            out = full if k == "Forall" else 0
            for d in range(n):
                v = self._eval(f[2], dict(env, **{f[1]: [full if e == d else 0 for e in range(n)]}), b, n, full)
                out = out & v if k == "Forall" else out | v
            return out
        return _boolean(k, [self._eval(g, env, b, n, full) for g in f[1:]], full)


def _boolean(k, vs, full):
    if k == "Not":
        return full & ~vs[0]
    if k == "Bot":
        return 0
    if k == "Top":
        return full
    if k == "And":
        out = full
        for v in vs:
            out &= v
        return out
    if k == "Or":
        out = 0
        for v in vs:
            out |= v
        return out
    if k == "Implies":
        out = vs[-1]
        for v in reversed(vs[:-1]):
            out |= full & ~v
        return out
    if k == "Equivalence":
        out = vs[0]
        for v in vs[1:]:
            out = full & ~(out ^ v)
        return out
    raise ValueError(k)


# --- proofs

def render(items, memo=None, formulas=None, rows=None):
    """The flat list from which the library makes a proof.

    memo shares equal objects; formulas collects the real object of every line; rows renames the labels.
    """
    name = (lambda r: r) if rows is None else (lambda r: rows.get(r, r))
    out = []
    for i in items:
        if i[0] == "L":
            o = mk(i[2], memo)
            if formulas is not None:
                formulas.append((i, o))
            out += [name(i[1]), o, (R[i[3]],) + tuple(name(r) for r in i[4])]
        else:
            inner = render(i[3], memo, formulas, rows)
            if i[2] is None:
                out += [name(i[1]), inner[1:]]  # the first line carries the label of the box
            elif i[3] and i[3][0][0] == "L" and i[3][0][1] == i[1]:
                out += [name(i[1]), [mk_term(i[2], memo)] + inner[1:]]
            else:
                out += [name(i[1]), [mk_term(i[2], memo), (R.assumption,)] + inner]
    return out


def rows_of(items, inside=False):
    """(row, kind, inside a box) of everything, in order."""
    for i in items:
        if i[0] == "L":
            yield i[1], "L", inside
        else:
            yield i[1], "B", inside
            yield from ((r, k, True) for r, k, _ in rows_of(i[3], True) if r != i[1])


def lines_of(items):
    for i in items:
        if i[0] == "L":
            yield i
        else:
            yield from lines_of(i[3])


def proof_of(items, memo=None, rows=None):
    """(the real proof, the real object of every line)."""
    formulas = []
    flat = render(items, memo, formulas, rows)
    return ND.Proof(flat), formulas


def unsound(items, objects, value, full):
    """The first line that does not follow from the premises above it and the open assumptions, or None."""
    real = {id(i): o for i, o in objects}
    premises, found = [full], []

    def walk(items, assumed, box):
        first = True
        for i in items:
            if found:
                return
            if i[0] == "L":
                m = value(read(real[id(i)]))
                if i[3] == "premise":
                    premises[0] &= m
                elif i[3] == "assumption" and box and first:
                    assumed &= m
                elif premises[0] & assumed & ~m & full:
                    found.append(i)
                    return
            else:
                walk(i[3], assumed, True)
            first = False
    walk(items, full, False)
    return found[0] if found else None
