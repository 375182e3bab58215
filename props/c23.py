"""C23: constants and types computed at compile time; function pointers made from callables."""
import gen_meta as g

CFG = "CHECK_DEADLOCK FALSE\nCONSTANTS Focus = %s Args = %s Depth = %d\n"


def pointers(ctx):
    """Histories of func_ptr: every operation after a shortest history to every (bound, made) state of one class, and
    simulated histories over all classes."""
    res = []
    for k in range(6):
        res += ctx.scripts("FuncPtrGen", "SPECIFICATION GenSpec\nVIEW Control\nINVARIANT BoundWhenMade\nPROPERTY OneClass\n"
                           + CFG % ("{%d}" % k, "{2}", 0), name="class-%d" % k)
    for k in ctx.pick(["{0, 4}"], ["{0, 4}", "{1, 2}", "{3, 5}", "{0, 3}"]):
        res += ctx.scripts("FuncPtrGen", "SPECIFICATION GenSpec\nVIEW Control\nINVARIANT BoundWhenMade\nPROPERTY OneClass\n"
                           + CFG % (k, "{2}", 0), name="classes-%s" % k[1::3])
    n, d = ctx.pick((150, 40), (3000, 120))
    res += sorted(set(ctx.scripts("FuncPtrGen", "SPECIFICATION SimSpec\nINVARIANT SimEmit\n" + CFG % ("{0, 1, 2, 3, 4, 5}", "{0, 1, 5}", d),
                                  simulate=n, depth=d + 1, name="random")))
    return res


def explore(ctx):
    ctx.assumptions += ["the literal lists, constants and type lists enumerated stand for all",
                        "six classes of callables with three objects each stand for all"]
    fp = [ctx.compile_async("funcptr.cpp", "funcptr-" + s[3:], std=s) for s in ("c++17", "c++11")]
    law = ctx.pool.submit(g.laws, ctx)
    hist_f = ctx.pool.submit(pointers, ctx)
    ex = sorted(set(g.expressions(ctx, maxvals=ctx.pick(3, 4))))
    use = ex if ctx.thorough else ex[ctx.seed % 4::4]
    progs = g.programs(ctx, use, ctx.pick(4, 16))
    # the C++11 definitions of the same names
    progs += g.programs(ctx, sorted(set([e for e in ex if e.startswith("calls")] + (ex[::4] if ctx.thorough else ex[(ctx.seed + 1) % 16::16]))), ctx.pick(1, 4), std="c++14")
    hist = hist_f.result()
    ctx.extra.update(expressions=len(ex), histories=len(hist))
    ctx.log("%d expressions, %d used; %d histories" % (len(ex), len(use), len(hist)))
    ctx.conform_many([dict(binary=b, scripts=s, module="MetaTrace", stage="expressions-%d" % k, shards=1)
                      for k, (b, s) in enumerate(progs)]
                     + [dict(binary=b, scripts=hist[::1 if k == 0 or ctx.thorough else 3], module="FuncPtrTrace", stage="func_ptr-%d" % k, shards=3)
                        for k, b in enumerate(fp)])
    law.result()
