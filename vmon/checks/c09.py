"""C09: operators accept only operands of the right formalism."""
import itertools
import random

from .. import bridge as B
from .. import gen, ref

X = B.fol.Variable("x")
K = B.fol.Constant("k")


def operands():
    """name -> (formalism, object); formalism None for what is not a formula."""
    P = lambda *a: B.fol.Predicate("P", list(a))  # noqa: E731
    out = {
        "pl atom": ("pl", B.pl.Atomic("a")), "pl compound": ("pl", B.pl.Atomic("a") & B.pl.Atomic("b")), "pl not": ("pl", ~B.pl.Atomic("c")), "pl implies": ("pl", B.base.Implies(B.pl.Atomic("a"), B.pl.Atomic("b"))),
        "ltl atom": ("ltl", B.ltl.Atomic("a")), "ltl next": ("ltl", B.ltl.Next(B.ltl.Atomic("a"))), "ltl until": ("ltl", B.ltl.Until(B.ltl.Atomic("a"), B.ltl.Atomic("b"))), "ltl or": ("ltl", B.ltl.Atomic("a") | B.ltl.Atomic("b")),
        "ltl last": ("ltl", B.ltl.Last()),
        "pltl atom": ("pltl", B.pltl.Atomic("a")), "pltl once": ("pltl", B.pltl.Once(B.pltl.Atomic("a"))), "pltl not": ("pltl", ~B.pltl.Atomic("b")), "pltl start": ("pltl", B.pltl.Start()),
        "ldl diamond": ("ldl", B.ldl.Diamond(B.ldl.Prop(B.pl.Atomic("a")), B.base.TrueFormula(logic=B.Logic.LDL))), "ldl end": ("ldl", B.ldl.End()), "ldl not": ("ldl", ~B.ldl.Last()),
        "re prop": ("re", B.ldl.Prop(B.pl.Atomic("a"))), "re star": ("re", B.ldl.Star(B.ldl.Prop(B.pl.Atomic("b")))), "re test": ("re", B.ldl.Test(B.ldl.End())),
        "re seq": ("re", B.ldl.Seq(B.ldl.Prop(B.pl.Atomic("a")), B.ldl.Prop(B.pl.Atomic("b")))), "re union": ("re", B.ldl.Union(B.ldl.Prop(B.pl.Atomic("a")), B.ldl.Prop(B.pl.Atomic("b")))),
        "fol predicate": ("fol", P(K)), "fol forall": ("fol", B.fol.ForAll(X, P(X))), "fol exists": ("fol", B.fol.Exists(X, P(X))),
        "None": (None, None), "string": (None, "a"), "int": (None, 3), "list": (None, [B.pl.Atomic("a")]), "term": (None, K), "class": (None, B.pl.Atomic), "bool": (None, True), "logic": (None, B.Logic.PL),
    }
    for lg in ("pl", "ltl", "pltl", "ldl"):
        out[lg + " tt"] = ("const " + lg, B.base.TrueFormula(logic=B.LOGIC[lg]))
        out[lg + " ff"] = ("const " + lg, B.base.FalseFormula(logic=B.LOGIC[lg]))
    out["ltl true"] = ("const ltl", B.ltl.PropositionalTrue())
    out["pltl false"] = ("const pltl", B.pltl.PropositionalFalse())
    return out


TAKES = {"Not": None, "Prop": "pl", "Test": "ldl", "Star": "re", "Seq": "re", "Union": "re"}
TAKES.update({o: "ltl" for o in ref.LTL_UN + ref.LTL_BIN})
TAKES.update({o: "pltl" for o in ref.PLTL_UN + ref.PLTL_BIN})
NARY = ref.BOOL_NARY + ref.LTL_BIN + ref.PLTL_BIN + ("Seq", "Union")
UNARY = ("Not", "Prop", "Test", "Star") + ref.LTL_UN + ref.PLTL_UN


def expectation(op, kinds):
    """'accept', 'refuse' or None (not settled by the property)."""
    if any(k is None for k in kinds):
        return "refuse"
    plain = {k for k in kinds if not k.startswith("const")}
    takes = TAKES.get(op)
    if op in ref.BOOL_NARY or op == "Not":
        if len(plain) > 1 or "re" in plain:
            return "refuse"
        if any(k.startswith("const") and k[6:] not in plain for k in kinds) and plain:
            return None
        if not plain and len(set(kinds)) > 1:
            return None
        return "accept"
    if plain - {takes}:
        return "refuse"
    consts = {k[6:] for k in kinds if k.startswith("const")}
    return "accept" if consts <= {takes} else None


def attempt(fn):
    try:
        return "accept", fn()
    except Exception as e:  # noqa: B902
        return "refuse", e


def look(ctx, what):
    """Nothing ill-formed stays behind in the cache."""
    for logic, entries in list(B.get_cache_context().items()):
        for f in list(entries):
            ctx.ev("cache entries inspected")
            tag = B.TAG.get(type(f))
            if tag is None:
                continue
            if not ctx.check(f.logic == logic, "ill-formed formula in the cache", lambda: "%r under %s after %s" % (f, logic, what)):
                return
            if tag in ("Diamond", "Box"):
                ok = f.regular_expression.logic == B.Logic.RE and f.tail_formula.logic == B.Logic.LDL
            else:
                kids = (f.argument,) if tag in B.UNARY_TAGS else f.operands
                ok = all(isinstance(k, B.base.Formula) for k in kids) and (tag in B.UNARY_TAGS or len(kids) > 1)
                kinds = {B.LOGIC_NAME[k.logic] for k in kids if not isinstance(k, (B.base.TrueFormula, B.base.FalseFormula))} if ok else ()
                takes = TAKES.get(tag)
                ok = ok and (kinds <= {takes} if takes else len(kinds) <= 1 and "re" not in kinds)
            if not ctx.check(ok, "ill-formed formula in the cache", lambda: "%r after %s" % (f, what)):
                return


def case_apply(ctx, op, names, way):
    pool = operands()
    kinds = [pool[n][0] for n in names]
    objs = [pool[n][1] for n in names]
    want = expectation(op, kinds)
    if want == "refuse":
        B.reset_cache()
    if way == "constructor":
        status, res = attempt(lambda: B.CLS[op](*objs))
    else:
        x, y = objs[0], objs[-1]
        status, res = attempt({"&": lambda: x & y, "|": lambda: x | y, ">>": lambda: x >> y, "~": lambda: ~x}[way])
    if want is None:
        ctx.ev("not settled")
        return
    ctx.ev("expected " + want)
    ctx.distinct((op, names, way))
    what = "%s(%s) by %s" % (op, ", ".join(names), way)
    if want == "refuse":
        ctx.check(status == "refuse", "operands of the wrong formalism accepted", lambda: "%s gave %r" % (what, res))
        look(ctx, what)
    else:
        if ctx.check(status == "accept", "operands of the right formalism refused", lambda: "%s raised %s: %s" % (what, type(res).__name__, str(res)[:200])):
            expected = "re" if op in ("Prop", "Test", "Star", "Seq", "Union") else next(k.replace("const ", "") for k in kinds)
            ctx.check(B.LOGIC_NAME.get(res.logic) == expected, "wrong logic reported", lambda: "%s reports %s" % (what, res.logic))


def case_modality(ctx, op, regex, tail):
    pool = operands()
    want = "accept" if pool[regex][0] == "re" and pool[tail][0] in ("ldl", "const ldl") else "refuse"
    if pool[regex][0] in ("const ldl",) or (str(pool[tail][0]).startswith("const") and pool[tail][0] != "const ldl" and pool[regex][0] == "re"):
        want = "refuse"
    B.reset_cache()
    status, res = attempt(lambda: B.CLS[op](pool[regex][1], pool[tail][1]))
    look(ctx, "%s(%s, %s)" % (op, regex, tail))
    ctx.ev("modalities")
    ctx.distinct((op, regex, tail))
    ctx.check(status == want, "modality over the wrong operands", lambda: "%s(%s, %s): %s %r" % (op, regex, tail, status, res))


def case_few(ctx, op, name):
    """Too few operands."""
    pool = operands()
    B.reset_cache()
    status, res = attempt(lambda: B.CLS[op](*([pool[name][1]] if name else [])))
    look(ctx, "%s(%s)" % (op, name))
    ctx.ev("too few operands")
    ctx.check(status == "refuse", "too few operands accepted", lambda: "%s(%s) gave %r" % (op, name, res))


def check_logics(ctx, f, logic, what):
    """Every subformula reports its logic and sits below an operator that takes it."""
    ctx.ev("formulas whose logics were checked")
    for s in B.subformulas(f):
        tag = B.TAG.get(type(s))
        r = B.to_ref(s)
        ctx.check(B.LOGIC_NAME.get(s.logic) == ref.logic_of(r), "wrong logic reported", lambda: "%r reports %s in %s" % (s, s.logic, what))
        takes = TAKES.get(tag)
        kids = ref.children(r) if tag not in (None, "Diamond", "Box") else ()
        for c in kids:
            ctx.check(ref.logic_of(c) == (takes or ref.logic_of(r)), "operand of another logic inside a formula", lambda: "%s in %s" % (ref.show(r), what))
    ctx.check(B.LOGIC_NAME.get(f.logic) == logic, "formula of another logic", lambda: what)


def case_logic(ctx, logic, tree, text, seed):
    check_logics(ctx, B.build(tree, random.Random(seed)), logic, "built " + ref.show(tree))
    check_logics(ctx, B.PARSE[logic](text), logic, "parsed %r" % text)


def case_inject(ctx, logic, tree, path, name):
    """A well-formed tree in which one operand is exchanged for a foreign one must be refused."""
    pool = operands()
    kind, obj = pool[name]

    def mk(t, p):
        if not p:
            return obj
        return B.CLS[t[0]](*[mk(c, p[1:]) if i + 1 == p[0] else B.build(c) for i, c in enumerate(t[1:])])
    B.reset_cache()
    status, res = attempt(lambda: mk(tree, path))
    look(ctx, "%s with %s at %s" % (ref.show(tree), name, path))
    ctx.ev("foreign operands injected")
    ctx.check(status == "refuse", "foreign operand accepted", lambda: "%s with %s at %s gave %r" % (ref.show(tree), name, path, res))


def case_fol(ctx, seed):
    """First-order building blocks."""
    rng = random.Random(seed)
    n = rng.randint(0, 4)
    F, V = B.fol, B.fol.Variable
    vs = [V("x%d" % i) for i in range(n)]
    P = F.Predicate("P", vs)
    f = F.Function("f", vs)
    m = rng.choice([k for k in range(6) if k != n])
    terms = [rng.choice((F.Constant("k"), V("y"), F.Function("g", [V("z")]))) for _ in range(max(n, m))]
    ctx.check(attempt(lambda: P(*terms[:m]))[0] == "refuse", "wrong number of arguments accepted", "P/%d with %d" % (n, m))
    ctx.check(attempt(lambda: f(*terms[:m]))[0] == "refuse", "wrong number of arguments accepted", "f/%d with %d" % (n, m))
    p = P(*terms[:n])
    ctx.check(p.logic == B.Logic.FOL and p.name == "P" and list(p.operands) == terms[:n], "predicate application", lambda: repr(p))
    t = f(*terms[:n])
    ctx.check(t.name == "f" and list(t.operands) == terms[:n], "function application", lambda: repr(t))
    if n:
        bad = list(terms[:n])
        bad[rng.randrange(n)] = rng.choice(("k", None, 3, P, B.pl.Atomic("a")))
        ctx.check(attempt(lambda: P(*bad))[0] == "refuse", "non-term accepted", lambda: repr(bad))
        ctx.check(attempt(lambda: f(*bad))[0] == "refuse", "non-term accepted", lambda: repr(bad))
    pool = operands()
    for Q in (F.ForAll, F.Exists):
        for name, (kind, obj) in pool.items():
            if kind and not kind.startswith("const"):
                st, res = attempt(lambda: Q(V("x"), obj))
                ctx.check(st == ("accept" if kind == "fol" else "refuse"), "quantified formula of the wrong logic", lambda: "%s over %s: %s" % (Q.__name__, name, st))
                if st == "accept":
                    ctx.check(res.logic == B.Logic.FOL and res.formula is obj, "quantifier", lambda: repr(res))
        for v in (F.Constant("k"), "x", None, F.Function("f", []), p):
            ctx.check(attempt(lambda: Q(v, p))[0] == "refuse", "quantified non-variable", lambda: repr(v))
    ctx.ev("first-order constructions")


def run_shard(ctx):
    rng = ctx.rng
    names = list(operands())
    i = 0
    for op in UNARY:
        for n in names:
            i += 1
            if ctx.mine(i):
                ctx.run("apply", op=op, names=[n], way="constructor")
                if op == "Not" and operands()[n][0]:
                    ctx.run("apply", op=op, names=[n], way="~")
    for op in NARY:
        for x, y in itertools.product(names, repeat=2):
            i += 1
            if ctx.mine(i) and x != y:
                ctx.run("apply", op=op, names=[x, y], way="constructor")
                way = {"And": "&", "Or": "|", "Implies": ">>"}.get(op)
                if way and operands()[x][0] and not (way == ">>" and None in (operands()[y][0],)):
                    ctx.run("apply", op=op, names=[x, y], way=way)
    for op in NARY + UNARY:
        if op not in ref.BOOL_NARY:
            for n in [""] + ([k for k in names] if op in NARY else []):
                i += 1
                if ctx.mine(i):
                    ctx.run("few", op=op, name=n)
    for op in ref.BOOL_NARY:
        ctx.run("few", op=op, name="")
    for op in ("Diamond", "Box"):
        for x, y in itertools.product(names, repeat=2):
            i += 1
            if ctx.mine(i):
                ctx.run("modality", op=op, regex=x, tail=y)
    # longer operand lists with no, one or several strangers, anywhere
    by = {}
    pool = operands()
    for n in names:
        by.setdefault(pool[n][0], []).append(n)
    for _ in range(ctx.n(12000, 150000)):
        op = rng.choice(NARY)
        home = TAKES.get(op) or rng.choice(("pl", "ltl", "pltl", "ldl", "fol", "re"))
        k = rng.randint(3, 6) if rng.random() < 0.5 else gen.some_width(rng)
        cand = by[home] + (by.get("const " + home, []) if rng.random() < 0.4 else [])
        if rng.random() < 0.2:
            cand = rng.sample(cand, min(len(cand), 2))
        ns = [rng.choice(cand) for _ in range(k)]
        how = rng.random()
        if how < 0.3:
            ns[rng.randrange(k)] = rng.choice(names)
        elif how < 0.8:
            # several strangers, often of the same kind, next to each other, spread or symmetric
            kind = rng.choice([x for x in by if x != home])
            few = by[kind] if rng.random() < 0.7 else names
            m = rng.randint(1, max(1, k // 2 + 1))
            i = rng.randrange(k)
            where = rng.choice((range(i, min(k, i + m)), rng.sample(range(k), min(m, k)), (i, k - 1 - i), range(k // 2, k), range(1, k - 1), (0, k - 1)))
            for j in where:
                ns[j] = rng.choice(few)
            ctx.ev("operand lists with several strangers")
        if len(set(ns)) < 2:
            continue
        ctx.run("apply", op=op, names=ns, way="constructor")
    for _ in range(ctx.n(3000, 40000)):
        logic = rng.choice(ref.LOGICS)
        t = gen.any_tree(rng, logic, top=25)
        ctx.sample(ref.show(t))
        ctx.run("logic", logic=logic, tree=t, text=gen.text_of(rng, logic, t), seed=rng.getrandbits(32))
        paths = [(p, s) for p, s in gen.positions(t) if p]
        if paths:
            p, s = rng.choice(paths)
            home = ref.logic_of(s)
            # only plain strangers, and only where nothing constant could absorb them first
            strangers = [n for n in names if pool[n][0] and not pool[n][0].startswith("const") and pool[n][0] != home]
            parent = t
            for step in p[:-1]:
                parent = parent[step]
            sib = [c for j, c in enumerate(parent[1:]) if j + 1 != p[-1]]
            if parent[0] in ref.BOOL_NARY or parent[0] == "Not":
                if not any(ref.norm(c)[0] not in ("True", "False", "PTrue", "PFalse") for c in sib) and parent[0] != "Not":
                    continue
                if parent[0] == "Not" or len(p) > 1:
                    # the stranger must be noticed right at its parent
                    if parent[0] == "Not":
                        strangers = [n for n in strangers if pool[n][0] == "re"]
            if strangers:
                ctx.run("inject", logic=logic, tree=t, path=p, name=rng.choice(strangers))
    for _ in range(ctx.n(160, 1600)):
        ctx.run("fol", seed=rng.getrandbits(32))
