"""C06: mapping, folding and iteration."""
import gen_long
import gen_prelude as g


def explore(ctx):
    els = ["vf::Int", "vf::Box", "char"]
    bins = [ctx.compile_async("hof.cpp", "hof-" + e.split(":")[-1], defs=["ELEM=" + e]) for e in els]
    ctx.assumptions += ["up to three argument sequences of 23 kinds and bounds, lengths up to 17, stand for all",
                        "int, char and heap-owning elements stand for all element types"]
    lg = gen_long.start(ctx, "hof")
    sc_f = ctx.pool.submit(g.calls, ctx, "hof")
    laws_f = ctx.pool.submit(g.laws, ctx)
    sc = sc_f.result()
    laws_f.result()
    ctx.extra["calls"] = len(sc)
    ctx.log("%d calls" % len(sc))
    ctx.conform_many(gen_long.jobs(ctx, lg) + [dict(binary=b, scripts=sc if k == 0 or ctx.thorough else sc[k % 3::3], module="PreludeTrace",
                           stage="hof-" + els[k], shards=8 if k == 0 else 4) for k, b in enumerate(bins)])
