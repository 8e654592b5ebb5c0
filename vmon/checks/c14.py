"""C14: accepted first-order proofs are sound."""
from ..ndsound import case_explore, case_instance, case_mutant, case_odd, case_parts, case_slip, run_instances, run_mutants, run_odd, run_parts, run_slips  # noqa: F401

KIND = "fol"


def run_shard(ctx):
    run_instances(ctx, KIND, ctx.n(40000, 600000))
    run_mutants(ctx, KIND, ctx.n(40000, 500000))
    run_slips(ctx, ctx.n(20000, 300000))
    run_odd(ctx, KIND, ctx.n(6000, 60000))
    run_parts(ctx, KIND, ctx.n(16000, 200000))
    for _ in range(ctx.n(4000, 60000)):
        ctx.run("explore", kind=KIND, seed=ctx.rng.getrandbits(32), steps=ctx.rng.randint(10, 40))
