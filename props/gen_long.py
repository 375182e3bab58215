"""Long sequences: calls around the sizes at which a narrow counter wraps (LongGen.tla), explained by LongTrace.tla."""
GROUPS = {"hof": 1, "build": 2, "search": 3, "slice": 4, "containers": 5, "rings": 6, "sort": 7, "strings": 8, "queues": 9, "files": 10}
KINDS = {"containers": "{0, 1}", "rings": "{0}", "sort": "{0, 1, 2}", "strings": "{0}", "queues": "{0}", "files": "{0, 1}"}


def start(ctx, what):
    """Begins building and generating; give the result to jobs()."""
    ctx.assumptions.append("long sequences (to 66010 elements, around 256, 32768 and 65536) are arithmetic progressions of int")
    lens = ctx.pick("{0, 255, 256, 257, 32768, 65536, 66010}", "{0, 1, 2, 127, 128, 129, 255, 256, 257, 511, 1024, 32767, 32768, 32769, 65535, 65536, 65537, 66010}")
    if what == "sort":
        lens = ctx.pick("{257, 66010}", lens)
    b = ctx.compile_async("long.cpp", "long-" + what, defs=["GROUP=%d" % GROUPS[what]], opt="-O2" if what == "sort" else "-O1",
                          san=None if what == "sort" else "address")
    s = ctx.pool.submit(ctx.scripts, "LongGen", 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS What = "%s" Lens = %s Kinds = %s\n'
                        % (what, lens, KINDS.get(what, "{0, 1, 2, 3}")), name="long-" + what, count_states=False)
    m = ctx.pool.submit(ctx.model_check, "LongLaws", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Laws\nCONSTANT MaxLen = %d\n" % ctx.pick(5, 9),
                        workers=1, mem="2g")
    return what, b, s, m


def jobs(ctx, started, shards=6, only=None):
    what, b, s, m = started
    s = s.result()
    if only:
        s = [x for x in s if x.split("|")[1].split()[0] in only]
    m.result()
    ctx.extra["long_calls"] = len(s)
    if not ctx.thorough and len(s) > 160:
        s = s[ctx.seed % 2::2] if len(s) < 320 else s[ctx.seed % 3::3]
    return [dict(binary=b, scripts=s, module="LongTrace", stage="long-" + what, shards=shards)]
