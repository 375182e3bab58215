"""C15: files."""
import gen_long


def consts(depth, maxlen, few=False, calm=False):
    return "CONSTANTS Depth = %d MaxLen = %d Few = %s Calm = %s\n" % (depth, maxlen, str(few).upper(), str(calm).upper())


def gen(ctx, name, cfg, **kw):
    return sorted(set(ctx.scripts("FileGen", "CHECK_DEADLOCK FALSE\n" + cfg, name=name, **kw)))


def explore(ctx):
    binary = ctx.compile_async("files.cpp", "files", link=("-Wl,--wrap=fopen,--wrap=fclose",))
    ctx.assumptions += ["two Files and two paths at a time stand for any number; no path is open twice at once",
                        "between a write and a read of one File there is a flush or seek, as the C library requires"]
    mc = ctx.pool.submit(ctx.model_check, "FileGen", "SPECIFICATION Spec\nVIEW fvars\nINVARIANTS OneOwner LinesAreTheFile\nPROPERTY Inert\nCHECK_DEADLOCK FALSE\n"
                         + consts(ctx.pick(3, 5), 4, True), None, 4, (), "6g", 800, "model")
    lg = gen_long.start(ctx, "files")
    fs = [ctx.pool.submit(gen, ctx, "transitions", "SPECIFICATION GenSpec\nVIEW View\n" + consts(ctx.pick(3, 5), 12)),
          ctx.pool.submit(gen, ctx, "read-back", "SPECIFICATION BackSpec\n" + consts(1, 3)),
          ctx.pool.submit(gen, ctx, "long-lines", "SPECIFICATION LongSpec\n" + consts(1, 1)),
          ctx.pool.submit(gen, ctx, "simulate", "SPECIFICATION SimSpec\nINVARIANT SimEmit\n" + consts(ctx.pick(40, 100), 40, calm=True),
                          simulate=ctx.pick(240, 3000), depth=ctx.pick(44, 104))]
    cov, back, lng, runs = [f.result() for f in fs]
    lng = lng if ctx.thorough else lng[ctx.seed % 3::3]
    if not ctx.thorough:
        cov = cov[ctx.seed % 3::3]
    ctx.extra.update(transition_scripts=len(cov), read_back_scripts=len(back), long_line_scripts=len(lng), random_scripts=len(runs))
    ctx.log("%d + %d + %d + %d scripts" % (len(cov), len(back), len(lng), len(runs)))
    ctx.conform_many(gen_long.jobs(ctx, lg, 2) + [dict(binary=binary, scripts=["|" + s for s in back + runs + cov], module="FileTrace", stage="files", shards=8),
                      dict(binary=binary, scripts=["|" + s for s in lng], module="FileTrace", stage="long-lines", shards=8)])
    mc.result()
