"""C09: every sort yields the ordered permutation."""
import gen_long


def gen(ctx, what, maxlen=4, maxkey=3, lens="{0}"):
    return ctx.scripts("SortGen", 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS What = "%s" MaxLen = %d MaxKey = %d Lens = %s\n'
                       % (what, maxlen, maxkey, lens), name=what, count_states=False)


def explore(ctx):
    plain = ctx.compile_async("sort.cpp", "sort")
    own = ctx.compile_async("sort.cpp", "sort-owning", defs=["OWNING"])
    deep = ctx.compile_async("sort.cpp", "sort-deep", san=None)
    ctx.assumptions += ["every vector of up to %d elements over 3 keys; longer ones (to %d elements) by patterns around the run and merge boundaries"
                        % ctx.pick((5, 300), (6, 1100)),
                        "six orders (both directions, two coarser ones, all equal, the type's own) stand for all strict weak orders"]
    lg = gen_long.start(ctx, "sort")
    mc = [ctx.pool.submit(ctx.model_check, "SortAlgs", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
                          "INVARIANTS AlwaysPermutation Done MergeInv PartInv Shallow\n%s"
                          "CONSTANTS MaxLen = %d MaxKey = %d Run = %d\n" % ((live,) + b), None, 2, (), "6g", 800, "algs-%d-%d" % b[::2])
          for live, b in ctx.pick([("PROPERTY Terminates\n", (4, 3, 2)), ("", (7, 2, 2))],
                                  [("PROPERTY Terminates\n", (5, 3, 2)), ("", (9, 2, 2)), ("", (6, 4, 3)), ("", (9, 2, 3))])]
    short = ctx.pool.submit(gen, ctx, "short", ctx.pick(5, 6))
    rng = ctx.pool.submit(gen, ctx, "ranges", 5)
    lens = ctx.pick("{31, 32, 33, 34, 63, 64, 65, 97, 129, 300}",
                    "{30, 31, 32, 33, 34, 48, 62, 63, 64, 65, 66, 95, 96, 97, 98, 127, 128, 129, 160, 161, 193, 257, 300, 513, 1100}")
    lng = ctx.pool.submit(gen, ctx, "long", 1, 1, lens)
    dp = ctx.pool.submit(gen, ctx, "deep", 1, 1, ctx.pick("{4000}", "{4000, 12000}"))
    short, rng, lng, dp = short.result(), rng.result(), lng.result(), dp.result()
    ctx.extra.update(short=len(short), ranges=len(rng), long=len(lng), deep=len(dp))
    ctx.log("%d short, %d ranged, %d long, %d deep" % (len(short), len(rng), len(lng), len(dp)))

    def part(x, m, r):
        return x if ctx.thorough else x[r::m]
    ctx.conform_many(gen_long.jobs(ctx, lg) + [
        dict(binary=plain, scripts=part(short, 2, 0) + part(rng, 2, 0) + part(lng, 2, 0), module="SortTrace", stage="sort-plain", shards=8),
        dict(binary=own, scripts=part(short, 2, 1) + part(rng, 2, 1) + part(lng, 2, 1), module="SortTrace", stage="sort-owning", shards=8),
        dict(binary=deep, scripts=dp, module="SortTrace", stage="sort-deep", shards=4, env={"STACK_KB": "192"})])
    for m in mc:
        m.result()
