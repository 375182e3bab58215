"""C20: filtering and searching."""
import gen_long
import gen_prelude as g


def explore(ctx):
    els = ["vf::Int", "vf::Box", "char"]
    bins = [ctx.compile_async("search.cpp", "search-" + e.split(":")[-1], defs=["ELEM=" + e]) for e in els]
    ctx.assumptions += ["every content pattern up to length 3 and chosen ones up to 17, five predicates, stand for all",
                        "int, char and heap-owning elements stand for all element types"]
    lg = gen_long.start(ctx, "search")
    sc_f = ctx.pool.submit(g.calls, ctx, "search")
    laws_f = ctx.pool.submit(g.laws, ctx)
    sc = sc_f.result()
    laws_f.result()
    ctx.extra["calls"] = len(sc)
    ctx.log("%d calls" % len(sc))
    ctx.conform_many(gen_long.jobs(ctx, lg) + [dict(binary=b, scripts=sc if k == 0 or ctx.thorough else sc[k % 4::4], module="PreludeTrace",
                           stage="search-" + els[k], shards=6 if k == 0 else 3) for k, b in enumerate(bins)])
