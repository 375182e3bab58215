"""C10: BlockingQ."""
import gen_long
import gen_queues as g


def explore(ctx):
    binary = g.build(ctx)
    lg = gen_long.start(ctx, "queues")
    sq = g.seq_jobs(ctx, "b")
    ctx.assumptions += g.ASSUME
    # 1. the way the queue is built refines the linearizable queue, strands nobody and makes progress
    jobs = ctx.pick([(0, 2, 2, 2), (1, 3, 1, 1), (2, 2, 3, 1)], [(0, 2, 3, 2), (1, 2, 3, 2), (2, 2, 3, 2), (0, 3, 2, 1), (1, 3, 2, 2), (2, 3, 2, 1)])
    fs = [ctx.pool.submit(g.model, ctx, "b", cap, th, ops, sp) for cap, th, ops, sp in jobs]
    # 2. workloads on the real queue, every schedule within the bound, each history explained by the specification
    use = g.loads(ctx, "b", "{0, 1, 2, 3}")
    ctx.extra["workloads"] = len(use)
    ctx.conform_many(sq() + gen_long.jobs(ctx, lg, 2, ("bq", "bq300")) + [dict(binary=binary, scripts=use, module="QueueTrace", stage="histories", shards=8,
                           env=g.env(ctx, ctx.pick(4000, 60000), ctx.pick(300, 3000), ctx.pick(120, 1200), preempt=ctx.pick(2, 3), spurious=ctx.pick(1, 2)),
                           timeout=ctx.pick(240, 1500)),
                      g.races(ctx, binary, use[::ctx.pick(3, 2)])])
    if ctx.thorough:
        big = g.loads(ctx, "bigb", "{0, 1, 2}")
        ctx.extra["workloads"] += len(big)
        ctx.conform_many([dict(binary=binary, scripts=big, module="QueueTrace", stage="histories-long", shards=8,
                               env=g.env(ctx, 8000, 1000, 120), timeout=1500)])
    for f in fs:
        f.result()
