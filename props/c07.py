"""C07: slicing returns in-place views that never leave the source."""
import gen_long
import gen_slices as g


def explore(ctx):
    plan = [(5, "Int", []), (4, "Int", []), (1, "Int", []), (2, "Int", []), (3, "Int", []), (0, "Int", [])]
    if ctx.thorough:
        plan += [(k, "Box", []) for k in range(6)] + [(4, "Int", ["MUT2"]), (5, "Int", ["MUT2"])]
    bins = [ctx.compile_async("slices.cpp", "slices-%d-%s" % (k, e), defs=["GROUP=%d" % k, "ELEM=vf::" + e] + d)
            for k, e, d in plan]
    ctx.assumptions += ["23 kinds and bounds of sources with lengths up to 5 and chains of two views stand for all",
                        "a view of no elements may hold any address"]
    lg = gen_long.start(ctx, "slice")
    m = ctx.pool.submit(g.model, ctx)
    sc = {k: g.chains(ctx, k) for k in sorted({p[0] for p in plan})}
    ctx.extra["chains"] = {str(k): len(v) for k, v in sc.items()}
    ctx.log("%s chains" % {k: len(v) for k, v in sc.items()})
    m.result()
    jobs = gen_long.jobs(ctx, lg)
    for (k, e, d), b in zip(plan, bins):
        s = sc[k]
        if k >= 4 and not ctx.thorough:
            s = [x for i, x in enumerate(s) if (i * 2654435761 >> 7) % 4 == ctx.seed % 4]
        jobs.append(dict(binary=b, scripts=s, module="SlicesTrace", stage="slices-%d-%s" % (k, e), shards=3 if k < 4 else 4))
    ctx.conform_many(jobs)
