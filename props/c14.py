"""C14: strings."""
import gen_long
CHARS = ["c", "w", "u16", "u32", "u8"]


def consts(maxlen, maxcap, maxarg, depth=0, rich=True):
    return "CONSTANTS MaxLen = %d MaxCap = %d MaxArg = %d Depth = %d Rich = %s\n" % (maxlen, maxcap, maxarg, depth, "TRUE" if rich else "FALSE")


def gen(ctx, name, cfg, **kw):
    return sorted(set(ctx.scripts("StrGen", "CHECK_DEADLOCK FALSE\n" + cfg, name=name, **kw)))


def explore(ctx):
    bins = {"17": ctx.compile_async("strings.cpp", "strings17"),
            "20": ctx.compile_async("strings.cpp", "strings20", std="c++20")}
    free = ctx.compile_async("strings.cpp", "strings-free", defs=["FREESTANDING"])
    ctx.assumptions += ["two live strings at a time stand for any number; characters are compared by code",
                        "contents include NUL characters and codes above 127"]
    lg = gen_long.start(ctx, "strings")
    fs = [ctx.pool.submit(gen, ctx, "transitions", "SPECIFICATION GenSpec\nVIEW Shape\nCONSTRAINT Small\nINVARIANTS TermRoom Ordered\n"
                          "PROPERTY ErrorsAreInert\n" + consts(*ctx.pick((3, 5, 3), (4, 9, 3)))),
          ctx.pool.submit(gen, ctx, "comparison", "SPECIFICATION CmpSpec\n" + consts(ctx.pick(2, 3), 9, 3)),
          ctx.pool.submit(gen, ctx, "simulate", "SPECIFICATION Spec\nINVARIANT SimEmit\n" + consts(60, 10 ** 6, 6, ctx.pick(50, 120)),
                          simulate=ctx.pick(150, 2500), depth=ctx.pick(52, 122))]
    cov, cmp_, runs = [f.result() for f in fs]
    ctx.extra.update(transition_scripts=len(cov), comparison_scripts=len(cmp_), random_scripts=len(runs))
    ctx.log("%d + %d + %d scripts" % (len(cov), len(cmp_), len(runs)))
    use = {"17": [], "20": []}
    for k, s in enumerate(cov + cmp_ + runs):
        for j in range(5 if ctx.thorough else 1):
            ch = CHARS[0] if not ctx.thorough and k % 3 == 0 else CHARS[(k + j) % 5]
            use["20" if ch == "u8" or (k // 5) % 3 == 0 else "17"].append("%s|%s" % (ch, s))
    ctx.conform_many(gen_long.jobs(ctx, lg) + [dict(binary=bins[v], scripts=use[v], module="StrTrace", stage="strings-c++" + v, shards=ctx.pick(8, 8)) for v in ("17", "20")]
                     + [dict(binary=free, scripts=["%s|%s" % (CHARS[k % 4], s) for k, s in enumerate(cov[ctx.seed % 12::ctx.pick(12, 3)] + runs[::6])],
                             module="StrTrace", stage="freestanding", shards=ctx.pick(1, 6))])
