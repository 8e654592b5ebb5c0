"""C13: accepted propositional proofs are sound."""
from ..ndsound import case_explore, case_instance, case_mutant, case_odd, case_parts, run_instances, run_mutants, run_odd, run_parts  # noqa: F401

KIND = "pl"


def run_shard(ctx):
    run_instances(ctx, KIND, ctx.n(40000, 400000))
    run_mutants(ctx, KIND, ctx.n(30000, 300000))
    run_odd(ctx, KIND, ctx.n(6000, 60000))
    run_parts(ctx, KIND, ctx.n(40000, 500000))
    for _ in range(ctx.n(3000, 40000)):
        ctx.run("explore", kind=KIND, seed=ctx.rng.getrandbits(32), steps=ctx.rng.randint(10, 40))
