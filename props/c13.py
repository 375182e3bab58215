"""C13: data races and deadlocks."""
import gen_queues as g


def explore(ctx):
    binary = g.build(ctx)
    ctx.assumptions += g.ASSUME
    jobs = ctx.pick([("b", 1, 2, 2, 1), ("n", 1, 2, 2, 0), ("d", 1, 2, 3, 0)],
                    [("b", 1, 3, 2, 2), ("b", 0, 3, 2, 1), ("n", 1, 3, 2, 0), ("d", 2, 3, 3, 0)])
    fs = [ctx.pool.submit(g.model, ctx, *j) for j in jobs]
    use = []
    for what, caps, keep in (("b", "{0, 1, 2, 3}", 2), ("n", "{0, 1, 2, 3}", 4), ("d", "{1, 2, 3}", 4)):
        use += g.loads(ctx, what, caps, keep if not ctx.thorough else 1)
    ctx.extra["workloads"] = len(use)
    ctx.conform_many([dict(binary=binary, scripts=use, module="RaceTrace", stage="accesses", shards=8,
                           env=g.env(ctx, ctx.pick(1500, 20000), ctx.pick(150, 1500), ctx.pick(10, 80), race=1, preempt=ctx.pick(2, 3)),
                           timeout=ctx.pick(240, 1500))])
    for f in fs:
        f.result()
