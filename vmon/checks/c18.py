"""C18: exactly the documented symbol names are accepted, and kept verbatim."""
import itertools

from .. import bridge as B
from .. import gen, ref, refparse
from ..refparse import ALL_RESERVED, is_symbol

CORE = list('abzAZ019_-" ~!#(')
MORE = CORE + list("\n\t\x00\x1f\x7f\x80\xe9\u0131\u212a\uff41.'\\/")


def case_names(ctx, names):
    for logic, cls in B.ATOM.items():
        atoms = {}
        for s in names:
            want = is_symbol(s)
            ctx.ev("names tried")
            try:
                a = cls(s)
                got = True
            except Exception:  # noqa: B902
                got = False
            if not ctx.check(got == want, "name accepted" if got else "symbol refused", lambda: "%s %r" % (cls.__module__, s)):
                continue
            if not want:
                ctx.ev("names refused")
                continue
            ctx.ev("names accepted: " + logic)
            ctx.distinct(s)
            ctx.check(type(a.name) is str and a.name == s, "name not kept", lambda: "%s %r has the name %r" % (logic, s, a.name))
            ctx.check(str(a) == s and a.logic == B.LOGIC[logic], "atom reports something else", lambda: "%s %r: %r" % (logic, s, str(a)))
            ctx.check(B.to_string(a) == s, "atom prints something else", lambda: "%s %r: %r" % (logic, s, B.to_string(a)))
            if s in atoms:
                ctx.check(atoms[s] == a, "equal names, different atoms", lambda: s)
            else:
                ctx.check(a not in set(atoms.values()) if len(atoms) < 400 else a not in atoms_set(atoms), "distinct names, equal atoms", lambda: "%s %r" % (logic, s))
            atoms[s] = a
            if s not in ALL_RESERVED:
                st, f = B.try_parse(logic, s)
                ctx.ev("names parsed")
                if ctx.check(st == "ok", "parser refuses a symbol", lambda: "%s %r: %s" % (logic, s, str(f)[:150])):
                    ctx.check(type(f) is cls and f.name == s and f == a and hash(f) == hash(a), "parser reads another atom", lambda: "%s %r: %r" % (logic, s, f))
        xs = list(atoms.values())
        ctx.check(len(set(xs)) == len(atoms), "distinct names, equal atoms", lambda: "%s: %d names, %d atoms" % (logic, len(atoms), len(set(xs))))


def atoms_set(atoms):
    return frozenset(atoms.values())


def case_texts(ctx, names):
    """Strings that are no symbols: what the parser makes of them is settled by the documented grammar."""
    for logic in B.ATOM:
        for s in names:
            try:
                t = ref.norm(refparse.parse(logic, s))
            except refparse.Reject:
                t = None
            except refparse.Unspecified:
                continue
            st, f = B.try_parse(logic, s)
            ctx.ev("texts parsed")
            if t is None or t[0] != "Atomic":
                ctx.check(st == "err" or type(f) not in B.ATOM_TAG, "parser accepts something else as a symbol", lambda: "%s %r: %r" % (logic, s, f))
            else:
                ctx.check(st == "ok" and B.to_ref(f) == t, "parser reads another atom", lambda: "%s %r: %r" % (logic, s, f))


def case_other(ctx, n):
    """Things that are no strings, and atoms made from names of other atoms."""
    for logic, cls in B.ATOM.items():
        for x in (None, 3, 1.5, True, b"a", ["a"], ("a",), {"a"}, object(), B.Logic.PL, B.base.TrueFormula(), cls):
            try:
                a = cls(x)
            except Exception:  # noqa: B902
                ctx.ev("non-strings refused")
                continue
            ctx.fail("name accepted", "%s %r gave %r" % (logic, x, a))
        name = B.base.AtomName("a-b")
        ctx.check(cls(name) == cls("a-b") and cls(name).name == "a-b", "name not kept", logic)
        for other, cls2 in B.ATOM.items():
            if other != logic:
                ctx.check(cls("a") != cls2("a") and not (cls("a") == cls2("a")), "atoms of different logics are equal", "%s %s" % (logic, other))


class Str(str):
    """A string that is no plain string."""


Constrained = B.base.AtomName.__mro__[1]  # what the names of symbols are made of: a string limited in another way


class Other(Constrained):
    """A constrained string of another kind."""


def case_kinds_refused(ctx, name):
    """What is no symbol is refused as any kind of string."""
    if is_symbol(name):
        return
    for logic, cls in B.ATOM.items():
        for kind in (Str, Constrained, Other):
            try:
                a = cls(kind(name))
            except ValueError:
                ctx.ev("other kinds of strings refused")
                continue
            ctx.fail("name accepted", "%s %r as %s gave %r" % (logic, name, kind.__name__, a))


def case_kinds(ctx, name):
    """Names given as other kinds of strings denote the same atom."""
    for logic, cls in B.ATOM.items():
        plain = cls(name)
        for kind in (Str, B.base.AtomName, Constrained, Other):
            a = cls(kind(name))
            ctx.check(a == plain and hash(a) == hash(plain) and type(a.name) is str and a.name == name, "another atom for another kind of string", lambda: "%s %r as %s" % (logic, name, kind.__name__))
            ctx.ev("other kinds of strings")
    a = B.pl.Atomic(name)
    for kind in (str, Str, B.base.AtomName):
        ctx.check(B.evaluate_pl(a, {kind(name)}) is True and B.evaluate_pl(a, {kind(name): True}) is True and not B.evaluate_pl(a, {kind(name): False}), "symbol not found in the interpretation", lambda: "%r as %s" % (name, kind.__name__))


def run_shard(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(400, 4000)):
        s = gen.random_name(rng)
        ctx.run("kinds", name=s)
        n = rng.randint(0, len(s))
        c = rng.choice(MORE + gen.LETTERS)
        ctx.run("kinds_refused", name=rng.choice((s[:n] + c + s[n:], s.upper(), s + c, c + s, "" if n else c)))
    batch = []
    i = 0

    def flush():
        if batch:
            ctx.run("names", names=list(batch))
            ctx.run("texts", names=[s for s in batch if not is_symbol(s)][::7])
            batch.clear()

    def put(s):
        batch.append(s)
        if len(batch) >= 300:
            flush()
    sizes = ((MORE, 2), (CORE, 3)) if ctx.tier == "quick" else ((MORE, 3), (CORE, 4))
    for alphabet, n in sizes:
        for k in range(n + 1):
            for cs in itertools.product(alphabet, repeat=k):
                i += 1
                if ctx.mine(i):
                    put("".join(cs))
                    ctx.ev("enumerated strings")
    top = 0x500 if ctx.tier == "quick" else 0x3000
    for c in itertools.chain(range(top), (0x2028, 0x2029, 0x2060, 0x3000, 0xfeff, 0xff10, 0xff3f, 0x1d41a, 0x10ffff)):
        i += 1
        if ctx.mine(i):
            for w in ("%s", "a%s", "%sa", "a%sb", '"%s"', '"a%s"', '"%sb"', '"a%sb"', "a-%s", "_%s", "a%s-b"):
                put(w.replace("%s", chr(c)))
            ctx.ev("code points")
    for _ in range(ctx.n(12000, 200000)):
        k = rng.random()
        s = gen.random_name(rng)
        if k < 0.5:
            n = rng.randint(0, len(s))
            c = rng.choice(MORE + gen.LETTERS)
            s = rng.choice((s[:n] + c + s[n:], s[:n] + s[n + 1:], s + c, c + s, s[:n] + c + s[n + 1:], s + s, s * rng.randint(2, 40)))
        elif k < 0.6:
            s = "".join(rng.choice(MORE) for _ in range(rng.randint(1, 12)))
        elif k < 0.65:
            s = rng.choice(sorted(ALL_RESERVED)) + rng.choice(("", "_", "x", "-a", "A", "0", "-", " ", '"'))
        elif k < 0.7:
            s = rng.choice(gen.LETTERS) + "".join(rng.choice("abcXYZ019_-") for _ in range(rng.choice((50, 200, 1000)))) + rng.choice("az_-0")
        put(s)
        ctx.sample(repr(s[:60]))
    flush()
    ctx.run("other", n=0)
