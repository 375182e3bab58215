"""C19: append, concat, intercalate, cartesian_map and from_function."""
import gen_long
import gen_prelude as g


def explore(ctx):
    els = ["vf::Int", "vf::Box", "char"]
    bins = [ctx.compile_async("build.cpp", "build-" + e.split(":")[-1], defs=["ELEM=" + e]) for e in els]
    ctx.assumptions += ["up to three arguments (append, cartesian_map) or three inner sequences, of every kind of result, stand for all",
                        "int, char and heap-owning elements stand for all element types"]
    lg = gen_long.start(ctx, "build")
    sc_f = ctx.pool.submit(g.calls, ctx, "build")
    laws_f = ctx.pool.submit(g.laws, ctx)
    sc = sc_f.result()
    laws_f.result()
    ctx.extra["calls"] = len(sc)
    ctx.log("%d calls" % len(sc))
    ctx.conform_many(gen_long.jobs(ctx, lg) + [dict(binary=b, scripts=sc if k == 0 or ctx.thorough else sc[k % 3::3], module="PreludeTrace",
                           stage="build-" + els[k], shards=6 if k == 0 else 4) for k, b in enumerate(bins)])
