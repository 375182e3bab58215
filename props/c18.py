"""C18: Tuple components, equality, projections and match."""
import gen_tuple as g


def explore(ctx):
    bins = [ctx.compile_async("tuple.cpp", "tuple-" + s[3:], std=s) for s in ("c++17", "c++11")]
    ctx.assumptions += ["arities 1-5 and 9 over int, char, long, double, a three-word struct and a heap-owning type stand for all"]
    cov = g.transitions(ctx, *ctx.pick(("{1, 2}", "{10}"), ("{1, 2, 3}", "{10}")))
    eqs = g.equalities(ctx, ctx.pick("{1, 2, 3, 4}", "{1, 2, 3, 4, 5}"))
    runs = g.random(ctx, ctx.pick(150, 2500), ctx.pick(60, 120))
    ctx.extra.update(transition_scripts=len(cov), equality_scripts=len(eqs), random_scripts=len(runs))
    ctx.log("%d + %d + %d scripts" % (len(cov), len(eqs), len(runs)))
    sc = cov + eqs + runs
    ctx.conform_many([dict(binary=b, scripts=sc if k == 0 or ctx.thorough else sc[::4], module="TupleTrace",
                           stage="tuple-%d" % k, shards=8 if k == 0 else 3) for k, b in enumerate(bins)])
