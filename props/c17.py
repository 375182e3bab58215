"""C17: reductions and scalar helpers."""


def gen(ctx, what, maxlen, top):
    return sorted(set(ctx.scripts("NumericGen", 'CHECK_DEADLOCK FALSE\nSPECIFICATION Spec\nCONSTANTS What = "%s" MaxLen = %d Top = %d\n' % (what, maxlen, top), name=what)))


def batch(scripts, n):
    """calls of one type and one operation after another, n to a script"""
    by = {}
    for s in scripts:
        t, call = s.split("|", 1)
        by.setdefault(t, []).append(call)
    return ["%s|%s" % (t, ";".join(c[i:i + n])) for t, c in sorted(by.items()) for i in range(0, len(c), n)]


def explore(ctx):
    binary = ctx.compile_async("numeric.cpp", "numeric")
    ctx.assumptions += ["values are counted in a unit exact in the type, or are the extremes of the type; sums and products stay representable",
                        "infinities and NaN are not numbers here"]
    mc = ctx.pool.submit(ctx.model_check, "NumericLaws", "SPECIFICATION Spec\nINVARIANTS AnyOrder Splits Negated Division Clamps\nCHECK_DEADLOCK FALSE\n"
                         "CONSTANTS MaxLen = %d Top = 3\n" % ctx.pick(4, 5), None, 3, (), "6g", 800, "laws")
    fs = [ctx.pool.submit(gen, ctx, "red", 3, ctx.pick(2, 3)), ctx.pool.submit(gen, ctx, "red", 4, 1), ctx.pool.submit(gen, ctx, "sc", 0, 3), ctx.pool.submit(gen, ctx, "long", 0, 0)]
    red, four, sc, lng = [f.result() for f in fs]
    if not ctx.thorough:
        red = red[ctx.seed % 2::2]
        four = four[ctx.seed % 2::2]
    ctx.extra.update(reductions=len(red) + len(four) + len(lng), scalar_calls=len(sc))
    ctx.log("%d + %d reductions, %d long, %d scalar calls" % (len(red), len(four), len(lng), len(sc)))
    ctx.conform(binary, batch(red + four + lng + sc, 20), "NumericTrace", "numeric", shards=8)
    mc.result()
