"""C21: statistics."""
TYPES = [("int", "double"), ("double", "double"), ("float", "float"), ("signed char", "double"), ("double", "float"), ("short", "float")]


def gen(ctx, what, lo=0, hi=0, top=0):
    return sorted(set(ctx.scripts("StatsGen", 'CHECK_DEADLOCK FALSE\nSPECIFICATION Spec\nCONSTANTS What = "%s" MinLen = %d MaxLen = %d Top = %d\n' % (what, lo, hi, top),
                                  name="%s-%d" % (what, hi))))


def explore(ctx):
    types = TYPES
    bins = [ctx.compile_async("stats.cpp", "stats%d" % i, defs=["ELEM=" + e, "REAL=" + r]) for i, (e, r) in enumerate(types)]
    ctx.assumptions += ["results are compared after rounding to 1/1024 (1/64 for long sequences) of the unit",
                        "nothing is claimed where the definition divides by zero"]
    mc = ctx.pool.submit(ctx.model_check, "StatsLaws", "SPECIFICATION Spec\nINVARIANTS Deviations NotNegative CauchySchwarz Symmetric NoLag Normal Residuals\n"
                         "CHECK_DEADLOCK FALSE\nCONSTANTS MaxLen = %d Top = %d\n" % ctx.pick((3, 2), (4, 2)), None, 3, (), "6g", 800, "laws")
    fs = [ctx.pool.submit(gen, ctx, *a) for a in (("one", 1, 3, 2), ("one", 4, 4, 1), ("one", 5, 5, 1), ("two", 1, 2, 2), ("two", 3, 3, 1), ("long",), ("line",))]
    ones, twos, longs = fs[0].result() + fs[1].result() + fs[2].result(), fs[3].result() + fs[4].result(), fs[5].result()
    lines = fs[6].result()
    n = len(types)
    k = 1 if ctx.thorough else 6
    jobs = []
    for i, b in enumerate(bins):
        # each type takes its own share of the calls
        j = (i + ctx.seed) % k
        mine = ones[j::k] + twos[j::k] + (longs if ctx.thorough else longs[(i + ctx.seed) % n::n])
        mine += lines if ctx.thorough or i < 3 else []
        jobs.append(dict(binary=b, scripts=["|" + ";".join(mine[p:p + 8]) for p in range(0, len(mine), 8)], module="StatsTrace", stage="stats-%s" % "-".join(types[i]).replace(" ", ""),
                         shards=ctx.pick(2, 8)))
    ctx.extra.update(single_sequences=len(ones), pairs=len(twos), long_sequences=len(longs))
    ctx.log("%d + %d + %d sequences" % (len(ones), len(twos), len(longs)))
    ctx.conform_many(jobs)
    mc.result()
