"""C11: results depend on the arguments only, not on history or hash seed."""
import json
import os
import random
import subprocess
import sys
import tempfile

from .. import bridge as B
from .. import core, fol, gen, ndgen, ndsound, ref

INTERPS = [[], ["a"], ["b"], ["a", "b"], ["a", "b", "c"], ["c"]]


def probe(p):
    """Run one probe; the answer is plain data in which every order that the library chose is visible."""
    kind = p[0]
    try:
        if kind == "parse":
            f = B.PARSE[p[1]](p[2])
            return [B.to_ref(f), B.to_string(f)]
        if kind == "build":
            f = B.build(p[2], random.Random(p[3]))
            return [B.to_ref(f), B.to_string(f) if f.logic != B.Logic.RE else ""]
        if kind == "combine":
            f = B.CLS[p[1]](*[B.build(t) for t in p[2]])
            return [B.to_ref(f), B.to_string(f)]
        if kind == "eval":
            f = B.parse_pl(p[1])
            return [bool(B.evaluate_pl(f, set(i))) for i in INTERPS] + [bool(B.evaluate_pl(f, {n: True for n in i})) for i in INTERPS]
        if kind == "eq":
            f, g = B.build(p[1]), B.build(p[2])
            return [f == g, g == f, len({f, g}), f in [g]]
        if kind == "nd":
            return [fol.ND.check(fol.proof_of(list(p[1]), {} if p[2] else None)[0])]
        raise RuntimeError(kind)
    except RuntimeError:
        raise
    except Exception as e:  # noqa: B902
        return ["raises", type(e).__name__]


def plain(x):
    return json.loads(json.dumps(x))


def run_order(probes, mode, seed):
    """Answers of all probes, with a history that depends on mode."""
    rng = random.Random(seed)
    order = list(range(len(probes)))
    if mode == "reversed":
        order.reverse()
    elif mode != "in order":
        rng.shuffle(order)
    out = [None] * len(probes)
    for n, i in enumerate(order):
        if mode == "with resets" and n % 3 == 0:
            B.reset_cache()
        elif mode == "crowded":
            for _ in range(2):
                probe(probes[rng.randrange(len(probes))])
            if rng.random() < 0.05:
                B.reset_cache()
        out[i] = plain(probe(probes[i]))
    if mode == "twice":
        for i in order:
            again = plain(probe(probes[i]))
            if again != out[i]:
                out[i] = ["first and second answer differ", out[i], again]
    return out


MODES = ("in order", "reversed", "shuffled", "with resets", "crowded", "twice")


START = """
import importlib, json, random, runpy, sys
names = json.loads(sys.argv[1])
for n in names:
    importlib.import_module(n)
sys.argv = sys.argv[1:]
runpy.run_module("vmon.checks.c11", run_name="__main__", alter_sys=False)
"""
PLAIN = ("", "", "", 0)
CWDS = ("", "/", "scratch")
FLAGS = ("", "-O", "-OO", "-I", "-Wdefault", "-Xdev")
LOCALES = ("", "C", "C.UTF-8", "de_DE.ISO-8859-1")


def modules():
    """The modules of the package."""
    top = os.path.join(core.REPO, "pylogics_modalities")
    out = []
    for d, _, fs in sorted(os.walk(top)):
        for f in sorted(fs):
            if f.endswith(".py"):
                n = os.path.relpath(os.path.join(d, f), core.REPO)[:-3].replace(os.sep, ".")
                out.append(n[:-9] if n.endswith(".__init__") else n)
    return out


def start(flag, locale, cwd, order, hs, path, scratch):
    """Run a child interpreter that answers the probes."""
    env = core.child_env(hs)
    if locale:
        env.update(LC_ALL=locale, LANG=locale, PYTHONUTF8="0", PYTHONCOERCECLOCALE="0")
    names = []
    if order:
        names = modules()
        random.Random(order).shuffle(names)
        names = names[:1 + order % len(names)]
    code = START
    if flag == "-I":   # no PYTHONPATH
        code = "import sys\nsys.path[:0] = %r\n" % ([core.REPO, core.VERIF],) + code
    cmd = [sys.executable, "-B"] + ([flag] if flag else []) + ["-c", code, json.dumps(names), path]
    p = subprocess.run(cmd, cwd={"": core.VERIF, "scratch": scratch}.get(cwd, cwd), env=env, capture_output=True, text=True, timeout=600)
    if p.returncode != 0:
        raise RuntimeError("child interpreter failed (%s, imports %s): %s" % ((flag, locale, cwd), names[:6], p.stderr[-800:]))
    return json.loads(p.stdout)


def case_batch(ctx, probes, runs):
    """runs: (hash seed, mode, seed, how it is started) of child interpreters; the first is the one the others are compared with."""
    first = None
    for hs, mode, seed, how in runs:
        with tempfile.TemporaryDirectory(prefix="vmon-") as scratch:
            path = os.path.join(scratch, "probes.json")
            with open(path, "w") as f:
                json.dump([probes, mode, seed], f)
            got = start(*how, hs, path, scratch)
        for k, v in zip(("flag", "locale", "directory"), how):
            if v:
                ctx.ev("started with another " + k)
        if how[3]:
            ctx.ev("started with another order of imports")
        ctx.ev("child interpreters")
        ctx.ev("history: " + mode)
        if first is None:
            first = got
            for pr, a in zip(probes, first):
                ctx.ev("probe: " + pr[0])
                ctx.ev("probes that raise" if a[:1] == ["raises"] else "probes that answer")
                if a[:1] == ["first and second answer differ"]:
                    ctx.fail("answer changes within a process", "%s: %s" % (show(pr), a))
            continue
        for pr, a, b in zip(probes, first, got):
            ctx.ev("answers compared")
            ctx.check(a == b, "answer depends on history or hash seed: " + pr[0], lambda: "%s\n%s: %s\n%s: %s" % (show(pr), runs[0], json.dumps(a)[:500], (hs, mode, how), json.dumps(b)[:500]))


def show(p):
    return json.dumps(p)[:500]


def make_probe(rng):
    k = rng.random()
    logic = rng.choice(ref.LOGICS)
    names = rng.choice((["a", "b", "c"], ["a", "b", "c", "d", "e", "f", "g", "h"], None))
    kw = {"names": names} if names else {}
    g = gen.TreeGen(rng, logic, **kw)
    if k < 0.3:
        return ("parse", logic, gen.text_of(rng, logic, g.tree(gen.budget(rng, 30)) if rng.random() < 0.7 else gen.any_tree(rng, logic, 30)))
    if k < 0.5:
        return ("build", logic, g.tree(gen.budget(rng, 30)) if rng.random() < 0.7 else gen.any_tree(rng, logic, 30), rng.getrandbits(32))
    if k < 0.7:
        bi = {"pl": (), "ltl": ref.LTL_BIN, "pltl": ref.PLTL_BIN, "ldl": ()}[logic]
        op = rng.choice(ref.BOOL_NARY * 2 + tuple(bi))
        if rng.random() < 0.5:
            return ("combine", op, [g.tree(rng.randint(1, 6)) for _ in range(rng.randint(2, 8))])
        t = gen.wide_tree(rng, logic, op, gen.some_width(rng))
        return ("combine", op, list(t[1:]))
    if k < 0.8:
        return ("eval", gen.text_of(rng, "pl", gen.TreeGen(rng, "pl", names=["a", "b", "c"]).tree(gen.budget(rng, 30))))
    if k < 0.88:
        t = g.tree(gen.budget(rng, 20))
        return ("eq", t, gen.variant(rng, t) if rng.random() < 0.5 else gen.near_miss(rng, t))
    if k < 0.91:
        return ("parse", logic, gen.mutate_text(rng, logic, gen.Render(rng, logic).tokens(g.tree(8))))
    kind = rng.choice(("pl", "fol", "fol"))
    while True:
        items, _ = ndgen.derivation(rng, kind, steps=rng.randint(0, 6), rule=rng.choice(fol.RULES if kind == "fol" else ndgen.BINARY_RULES))
        for _ in range(rng.choice((0, 0, 1, 1, 2))):
            items = ndsound.mutate(rng, kind, items)
            if not ndsound.usable(items):
                break
        if ndsound.usable(items):
            return ("nd", items, rng.random() < 0.5)


def run_shard(ctx):
    rng = ctx.rng
    for n in range(ctx.n(16, 144)):
        probes = [make_probe(rng) for _ in range(350 if ctx.tier == "quick" else 500)]
        for p in probes:
            ctx.distinct(p)
            ctx.sample(show(p))
        modes = ["in order", "twice"] + rng.sample(("reversed", "shuffled", "with resets", "crowded"), 4)
        runs = [(rng.randint(1, 4000000000) if i else 0, m, rng.getrandbits(32),
                 (rng.choice(FLAGS), rng.choice(LOCALES), rng.choice(CWDS), rng.choice((0, rng.randint(1, 1 << 30)))) if i else PLAIN) for i, m in enumerate(modes)]
        ctx.run("batch", probes=probes, runs=runs)


def child(path):
    with open(path) as f:
        probes, mode, seed = json.load(f)
    print(json.dumps(run_order(core.tup(probes), mode, seed)))


if __name__ == "__main__":
    sys.setrecursionlimit(core.RECURSION_LIMIT)
    child(sys.argv[1])
