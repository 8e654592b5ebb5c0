"""Reference model: formulas as plain tuples, simplification model, keys and semantics.

A formula is a tuple whose first element is the operator:
  ('Atomic', logic, name) ('True', logic) ('False', logic) ('PTrue', logic) ('PFalse', logic)
  ('Not', x) ('And', x, y, ...) ('Or', ...) ('Implies', ...) ('Equivalence', ...)
  ('Next', x) ... ('Until', x, y, ...) ... ('Diamond', regex, x) ('Box', regex, x)
  ('Prop', pl) ('Test', ldl) ('Star', r) ('Seq', r, s, ...) ('Union', r, s, ...)
Nothing in this file imports the code under test.
"""

LTL_UN = ("Next", "WeakNext", "Eventually", "Always")
LTL_BIN = ("Until", "Release", "WeakUntil", "StrongRelease")
PLTL_UN = ("Before", "WeakBefore", "Once", "Historically")
PLTL_BIN = ("Since", "Triggers")
BOOL_NARY = ("And", "Or", "Implies", "Equivalence")
COMMUTATIVE = frozenset(("And", "Or", "Equivalence", "Union"))
LEAVES = frozenset(("Atomic", "True", "False", "PTrue", "PFalse"))
DUAL = {"True": "False", "False": "True", "PTrue": "PFalse", "PFalse": "PTrue"}
LOGICS = ("pl", "ltl", "pltl", "ldl")


def children(t):
    return () if t[0] in LEAVES else t[1:]


def size(t):
    return 1 + sum(size(c) for c in children(t))


def depth(t):
    return 1 + max((depth(c) for c in children(t)), default=0)


def logic_of(t):
    op = t[0]
    if op in LEAVES:
        return t[1]
    if op in ("Diamond", "Box"):
        return "ldl"
    if op in ("Prop", "Test", "Star", "Seq", "Union"):
        return "re"
    if op in LTL_UN or op in LTL_BIN:
        return "ltl"
    if op in PLTL_UN or op in PLTL_BIN:
        return "pltl"
    return logic_of(t[1])


def names(t, acc=None):
    acc = set() if acc is None else acc
    if t[0] == "Atomic":
        acc.add(t[2])
    for c in children(t):
        names(c, acc)
    return acc


def ops(t, acc=None):
    acc = set() if acc is None else acc
    acc.add(t[0])
    for c in children(t):
        ops(c, acc)
    return acc


def subterms(t):
    yield t
    for c in children(t):
        yield from subterms(c)


def key(t):
    """Canonical structural key: commutative operands as a set, others as a sequence."""
    op = t[0]
    if op in LEAVES:
        return t
    if op in COMMUTATIVE:
        return (op, frozenset(key(c) for c in t[1:]))
    return (op,) + tuple(key(c) for c in t[1:])


def okey(t):
    """Order-canonical printable form of key()."""
    op = t[0]
    if op in LEAVES:
        return "%s(%s)" % (op, ",".join(t[1:]))
    cs = [okey(c) for c in t[1:]]
    if op in COMMUTATIVE:
        cs = sorted(set(cs))
    return "%s(%s)" % (op, ",".join(cs))


# ---------------------------------------------------------------- simplification model

def neg(t):
    """The documented negation: no stacked negations, constants exchanged with their duals."""
    if t[0] == "Not":
        return t[1]
    if t[0] in DUAL:
        return (DUAL[t[0]], t[1])
    return ("Not", t)


def mono(op, xs):
    """The documented simplification of a conjunction or disjunction of normal operands."""
    logic = logic_of(xs[0])
    absorbing = ("False", logic) if op == "And" else ("True", logic)
    identity = neg(absorbing)
    out, seen = [], {}
    xs = dedup(xs)
    xs = [x for x in xs if x != identity]
    if not xs:
        return identity
    if len(xs) == 1:
        return xs[0]
    if absorbing in xs:
        return absorbing
    flat = []
    for x in xs:
        flat.extend(x[1:] if x[0] == op else (x,))
    for x in flat:
        k = key(x)
        if key(neg(x)) in seen:
            return absorbing
        if k not in seen:
            seen[k] = True
            out.append(x)
    return out[0] if len(out) == 1 else (op,) + tuple(out)


def dedup(xs):
    out, seen = [], set()
    for x in xs:
        k = key(x)
        if k not in seen:
            seen.add(k)
            out.append(x)
    return out


def norm1(op, xs):
    """Normal form of `op` applied to operands that are already normal."""
    if op == "Not":
        return neg(xs[0])
    if op in ("And", "Or"):
        return mono(op, list(xs))
    if op == "Implies":
        if len(xs) == 1:
            return xs[0]
        false = ("False", logic_of(xs[0]))
        for i, x in enumerate(xs[:-1]):
            if x == false:  # everything from a false antecedent on holds
                return ("True", false[1]) if i == 0 else (op,) + tuple(xs[:i]) + (("True", false[1]),)
        return (op,) + tuple(xs)
    if op == "Equivalence":
        ys = dedup(xs)
        return ys[0] if len(ys) == 1 else (op,) + tuple(ys)
    return (op,) + tuple(xs)


def norm(t):
    """What the library documents to build for the tree t."""
    if t[0] in LEAVES:
        return t
    return norm1(t[0], [norm(c) for c in t[1:]])


def collapse_equiv(t):
    """t with repeated operands of equivalences dropped (known finding), nothing else changed."""
    if t[0] in LEAVES:
        return t
    if t[0] == "Equivalence":
        kept, seen = [], set()
        for c in t[1:]:
            k = key(norm(c))
            if k not in seen:
                seen.add(k)
                kept.append(collapse_equiv(c))
        return kept[0] if len(kept) == 1 else ("Equivalence",) + tuple(kept)
    return (t[0],) + tuple(collapse_equiv(c) for c in t[1:])


def has_repeated_equiv(t):
    return any(s[0] == "Equivalence" and len(set(key(norm(c)) for c in s[1:])) < len(s) - 1 for s in subterms(t))


# ---------------------------------------------------------------- semantics: PL

class PLTable:
    """Bit-parallel evaluation over a list of interpretations (sets of true names)."""

    def __init__(self, interps):
        self.interps = list(interps)
        self.full = (1 << len(self.interps)) - 1
        self._mask = {}

    def mask(self, name):
        m = self._mask.get(name)
        if m is None:
            m = sum(1 << i for i, s in enumerate(self.interps) if name in s)
            self._mask[name] = m
        return m

    def eval(self, t):
        op = t[0]
        if op == "Atomic":
            return self.mask(t[2])
        if op in ("True", "PTrue"):
            return self.full
        if op in ("False", "PFalse"):
            return 0
        return boolean(op, [self.eval(c) for c in t[1:]], self.full)


def boolean(op, vs, full):
    if op == "Not":
        return full & ~vs[0]
    if op == "And":
        r = full
        for v in vs:
            r &= v
        return r
    if op == "Or":
        r = 0
        for v in vs:
            r |= v
        return r
    if op == "Implies":
        r = vs[-1]
        for v in reversed(vs[:-1]):
            r = (full & ~v) | r
        return r
    if op == "Equivalence":
        r = vs[0]
        for v in vs[1:]:
            r = full & ~(r ^ v)
        return r
    raise ValueError(op)


def subsets(ns):
    ns = sorted(ns)
    for m in range(1 << len(ns)):
        yield frozenset(n for i, n in enumerate(ns) if m >> i & 1)


# ---------------------------------------------------------------- semantics: traces

class TraceEval:
    """Truth of LTLf / PLTLf / LDLf formulas at every position of one finite trace.

    eval(t) returns a bit mask over positions. LTL and PLTL: positions 0..n-1.
    LDL: positions 0..n (n is the end of the trace).
    """

    def __init__(self, trace, logic):
        self.trace = [frozenset(s) for s in trace]
        self.logic = logic
        self.n = len(self.trace)
        self.positions = self.n + (1 if logic == "ldl" else 0)
        self.full = (1 << self.positions) - 1

    def eval(self, t):
        op = t[0]
        full, n = self.full, self.n
        if op == "Atomic":
            return sum(1 << i for i, s in enumerate(self.trace) if t[2] in s)
        if op in ("True", "PTrue"):
            return full
        if op in ("False", "PFalse"):
            return 0
        if op in ("Diamond", "Box"):
            tail = self.eval(t[2])
            rel = self.rel(t[1])
            if op == "Box":
                tail = full & ~tail
            r = 0
            for i in range(self.positions):
                if rel[i] & tail:
                    r |= 1 << i
            return r if op == "Diamond" else full & ~r
        vs = [self.eval(c) for c in t[1:]]
        if op in ("Not",) or op in BOOL_NARY:
            return boolean(op, vs, full)
        if op in LTL_UN or op in PLTL_UN:
            return self._unary(op, vs[0])
        r = vs[-1]  # chains are read with the operator associating to the right
        for v in reversed(vs[:-1]):
            r = self._binary(op, v, r)
        return r

    def _unary(self, op, v):
        n, full = self.n, self.full
        last = 1 << (n - 1) if n else 0
        if op == "Next":
            return v >> 1
        if op == "WeakNext":
            return (v >> 1) | last
        if op == "Before":
            return (v << 1) & full
        if op == "WeakBefore":
            return ((v << 1) | 1) & full
        out, acc = 0, op in ("Always", "Historically")
        order = range(n - 1, -1, -1) if op in ("Eventually", "Always") else range(n)
        for i in order:
            b = bool(v >> i & 1)
            acc = (acc and b) if op in ("Always", "Historically") else (acc or b)
            if acc:
                out |= 1 << i
        return out

    def _binary(self, op, a, b):
        n = self.n
        out = 0
        if op in ("Until", "WeakUntil", "StrongRelease", "Release"):
            acc = op in ("WeakUntil", "Release")
            order = range(n - 1, -1, -1)
        else:
            acc = op == "Triggers"
            order = range(n)
        for i in order:
            x, y = bool(a >> i & 1), bool(b >> i & 1)
            if op in ("Until", "WeakUntil", "Since"):
                acc = y or (x and acc)
            else:  # Release, StrongRelease, Triggers
                acc = y and (x or acc)
            if acc:
                out |= 1 << i
        return out

    def rel(self, r):
        """Relation of a regular expression: list of masks of positions reachable from i."""
        op = r[0]
        N = self.positions
        if op == "Prop":
            out = [0] * N
            for i in range(self.n):
                if PLTable([self.trace[i]]).eval(r[1]):
                    out[i] = 1 << (i + 1)
            return out
        if op == "Test":
            v = self.eval(r[1])
            return [(1 << i) if v >> i & 1 else 0 for i in range(N)]
        if op == "Union":
            rels = [self.rel(c) for c in r[1:]]
            return [_or(x[i] for x in rels) for i in range(N)]
        if op == "Seq":
            cur = self.rel(r[1])
            for c in r[2:]:
                nxt = self.rel(c)
                cur = [self._step(m, nxt) for m in cur]
            return cur
        if op == "Star":
            base = self.rel(r[1])
            out = []
            for i in range(N):
                m = 1 << i
                while True:
                    m2 = m | self._step(m, base)
                    if m2 == m:
                        break
                    m = m2
                out.append(m)
            return out
        raise ValueError(op)

    @staticmethod
    def _step(m, rel):
        out, i = 0, 0
        while m:
            if m & 1:
                out |= rel[i]
            m >>= 1
            i += 1
        return out


def _or(it):
    r = 0
    for x in it:
        r |= x
    return r


def random_traces(rng, ns, count, min_len=1, max_len=5):
    ns = sorted(ns)
    out = []
    for _ in range(count):
        n = rng.randint(min_len, max_len)
        p = rng.choice((0.2, 0.5, 0.8))
        out.append(tuple(frozenset(x for x in ns if rng.random() < p) for _ in range(n)))
    return out


def show(t):
    """Compact text of a tuple, for messages."""
    if t[0] == "Atomic":
        return t[2]
    if t[0] in LEAVES:
        return {"True": "tt", "False": "ff", "PTrue": "true", "PFalse": "false"}[t[0]]
    return "%s(%s)" % (t[0], ", ".join(show(c) for c in t[1:]))
