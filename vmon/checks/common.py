"""Shared oracles."""
from .. import bridge as B
from .. import gen, ref

KF_EQ = "equiv-repeat"


def interps_of(rng, ns, cap=32):
    ns = sorted(ns)
    if len(ns) <= 5 and (1 << len(ns)) <= cap:
        return list(ref.subsets(ns))
    out = [frozenset(), frozenset(ns)]
    while len(out) < cap:
        p = rng.choice((0.2, 0.5, 0.8))
        out.append(frozenset(n for n in ns if rng.random() < p))
    return out


def sem_points(rng, logic, ns, n_traces=10, max_len=5):
    if logic == "pl":
        return interps_of(rng, ns)
    ns = sorted(ns) or ["a"]
    lo = 0 if logic == "ldl" else 1
    out = [(frozenset(),), (frozenset(ns),)]
    if lo == 0:
        out.append(())
    return out + ref.random_traces(rng, ns, n_traces, lo, max_len)


def meaning(t, logic, points):
    """Truth of t at every interpretation, or at every position of every trace."""
    if logic == "pl":
        return ref.PLTable(points).eval(t)
    return tuple(ref.TraceEval(p, logic).eval(t) for p in points)


def same_meaning(ctx, want, got, logic, points, kind, message):
    """want: the tree asked for; got: the tree obtained."""
    g = meaning(got, logic, points)
    if meaning(want, logic, points) == g:
        return True
    if ref.has_repeated_equiv(want) and meaning(ref.collapse_equiv(want), logic, points) == g:
        ctx.known(KF_EQ, message())
        return True
    ctx.fail(kind, message())
    return False
