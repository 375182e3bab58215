"""C01: Array, ArrVec and Vector as value-semantic sequences."""
import gen_containers as g
import gen_long

ELS = ["int", "box", "wide"]


def explore(ctx):
    bins = {e: ctx.compile_async("containers.cpp", "containers-" + e, defs=["ELEM=vf::" + e.capitalize()]) for e in ELS}
    free = ctx.compile_async("containers.cpp", "containers-free", defs=["ELEM=vf::Box", "FREESTANDING"])
    ctx.assumptions += ["two live containers of one kind at a time (plus conversion sources) stand for any number",
                        "element types int, a three-word struct and a heap-owning type stand for all element types"]
    lg = gen_long.start(ctx, "containers")
    cov_f = ctx.pool.submit(g.transitions, ctx, maxlen=ctx.pick(3, 4), maxcap=ctx.pick(5, 9))
    eqs_f = ctx.pool.submit(g.equalities, ctx)
    near_f = ctx.pool.submit(g.near_bounds, ctx, ctx.pick("{12}", "{5, 12, 33}"))
    runs_f = ctx.pool.submit(g.long_runs, ctx, ctx.pick(120, 2500), ctx.pick(60, 150))
    cov, eqs, runs, near = cov_f.result(), eqs_f.result(), runs_f.result(), near_f.result()
    ctx.extra.update(transition_scripts=len(cov), near_bound_scripts=len(near), equality_scripts=len(eqs), random_scripts=len(runs))
    ctx.log("%d + %d + %d + %d scripts" % (len(cov), len(near), len(eqs), len(runs)))
    use = {e: [] for e in ELS}
    first_eq = len(cov) + len(near)
    for k, s in enumerate(cov + near + eqs):
        head, ops = s.split("|", 1)
        for j, e in enumerate(ELS):
            if ctx.thorough or (j < 2 and (k + j) % 2 == 0) or (j == 2 and k >= first_eq):
                use[e].append("%s %s|%s" % (head, e, ops))
    for k, s in enumerate(runs):
        head, ops = s.split("|", 1)
        e = ELS[k % 3]
        use[e].append("%s %s|%s" % (head, e, ops))
    ctx.conform_many(gen_long.jobs(ctx, lg) + [dict(binary=bins[e], scripts=use[e], module="ContainersTrace", stage="histories-" + e, shards=6)
                      for e in ELS]
                     + [dict(binary=free, scripts=["%s box|%s" % tuple(s.split("|", 1)) for s in cov[ctx.seed % 12::ctx.pick(12, 3)] + runs[::ctx.pick(6, 3)]],
                             module="ContainersTrace", stage="freestanding", shards=ctx.pick(2, 6))])
