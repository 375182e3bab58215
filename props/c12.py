"""C12: DoubleBuffer."""
import gen_long
import gen_queues as g


def explore(ctx):
    binary = g.build(ctx)
    lg = gen_long.start(ctx, "queues")
    sq = g.seq_jobs(ctx, "d")
    ctx.assumptions += g.ASSUME
    jobs = ctx.pick([(1, 2, 3), (2, 3, 2)], [(1, 2, 5), (2, 2, 5), (3, 2, 5), (1, 3, 3), (2, 3, 3)])
    fs = [ctx.pool.submit(g.model, ctx, "d", cap, th, ops, 0) for cap, th, ops in jobs]
    use = g.loads(ctx, "d", "{1, 2, 3}")
    ctx.extra["workloads"] = len(use)
    ctx.conform_many(sq() + gen_long.jobs(ctx, lg, 2, ("db300",)) + [dict(binary=binary, scripts=use, module="QueueTrace", stage="histories", shards=8,
                           env=g.env(ctx, ctx.pick(3000, 60000), ctx.pick(300, 3000), ctx.pick(50, 800), preempt=ctx.pick(2, 3)),
                           timeout=ctx.pick(240, 1500)),
                      g.races(ctx, binary, use[::ctx.pick(7, 2)])])
    if ctx.thorough:
        big = g.loads(ctx, "bigd", "{1, 2, 4}")
        ctx.extra["workloads"] += len(big)
        ctx.conform_many([dict(binary=binary, scripts=big, module="QueueTrace", stage="histories-long", shards=8,
                               env=g.env(ctx, 8000, 1000, 60), timeout=1500)])
    for f in fs:
        f.result()
