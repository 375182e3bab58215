"""C08: result kinds follow static knowledge; nothing bounded allocates."""
import gen_containers as gc
import gen_enum as ge
import gen_kinds as gk
import gen_maybe as gm
import gen_prelude as gp
import gen_slices as gs
import gen_tuple as gt


def explore(ctx):
    def b(src, name, *defs):
        return ctx.compile_async(src, name, defs=list(defs), san=None)
    els = ctx.pick(["Int"], ["Int", "Wide"])
    bins = {}
    for e in els:
        for k in (5, 4, 1, 2, 3, 0):
            bins["slices", k, e] = b("slices.cpp", "slices-%d-%s" % (k, e), "GROUP=%d" % k, "ELEM=vf::" + e)
        for d in ("hof", "build", "search", "containers", "cyclic", "maybe"):
            bins[d, e] = b(d + ".cpp", "%s-%s" % (d, e), "ELEM=vf::" + e)
        if e == "Int":
            bins["tuple"] = b("tuple.cpp", "tuple")
        for n in (3, 9):
            bins["enum", n, e] = b("enum.cpp", "enum-%d-%s" % (n, e), "NALT=%d" % n, "ELEM=vf::" + e)
    ctx.assumptions += ["the calls and histories of the other specifications, over int elements (and a three-word struct in the thorough tier), stand for all",
                        "an allocation is a call of operator new or new[]; what a thrown error allocates is not counted"]
    law = ctx.pool.submit(ctx.model_check, "KindLaws", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Bounds Nest\n"
                          "CONSTANTS MaxBound = %d\n" % ctx.pick(2, 3), None, 2)
    asked = sorted(set(gk.calls(ctx)))
    progs = gk.programs(ctx, asked if ctx.thorough else asked[ctx.seed % 2::2], ctx.pick(2, 12))
    ctx.extra["types_asked"] = len(asked)
    sc = {}
    fs = {d: ctx.pool.submit(gp.calls, ctx, d) for d in ("hof", "build", "search")}
    fs["containers"] = ctx.pool.submit(gc.transitions, ctx, maxlen=ctx.pick(2, 3), maxcap=5)
    ring = ("SPECIFICATION GenSpec\nVIEW Control\nCHECK_DEADLOCK FALSE\n"
            "CONSTANTS Kinds = {\"vcq\", \"vcb\"} Caps = {1, 3} MaxVal = 40 Depth = 0\n")
    fs["cyclic"] = ctx.pool.submit(ctx.scripts, "CyclicRing", ring, name="ring")
    fs["maybe"] = ctx.pool.submit(gm.transitions, ctx, "{6, 13}")
    for n in (3, 9):
        fs["enum", n] = ctx.pool.submit(ge.random, ctx, n, ctx.pick(30, 300), 60)
    fs["tuple"] = ctx.pool.submit(gt.random, ctx, ctx.pick(40, 600), 40)
    for k in range(6):
        fs["slices", k] = ctx.pool.submit(gs.chains, ctx, k)
    sc = {k: f.result() for k, f in fs.items()}
    law.result()

    def part(x, m):
        return x if ctx.thorough else x[ctx.seed % m::m]
    jobs = [dict(binary=b, scripts=s, module="KindTrace", stage="types-%d" % k, shards=1) for k, (b, s) in enumerate(progs)]
    for e in els:
        for d in ("hof", "build", "search"):
            jobs.append(dict(binary=bins[d, e], scripts=part(sc[d], {"hof": 2, "build": 1, "search": 5}[d]), module="KindTrace", stage="kind-" + d, shards=3))
        for d in ("containers", "cyclic"):
            s = ["%s %s|%s" % (x.split("|", 1)[0], e.lower(), x.split("|", 1)[1]) for x in part(sc[d], 12 if d == "containers" else 2)
                 if not x.startswith("vector")]
            jobs.append(dict(binary=bins[d, e], scripts=s, module="AllocTrace", stage="heap-" + d, shards=3))
        jobs.append(dict(binary=bins["maybe", e], scripts=[e + x for x in sc["maybe"]], module="AllocTrace", stage="heap-maybe", shards=2))
        for n in (3, 9):
            s = ["%s %s|%s" % (x.split("|", 1)[0], e, x.split("|", 1)[1]) for x in sc["enum", n]]
            jobs.append(dict(binary=bins["enum", n, e], scripts=s, module="AllocTrace", stage="heap-enum-%d" % n, shards=1))
        for k in range(6):
            jobs.append(dict(binary=bins["slices", k, e], scripts=part(sc["slices", k], 3 if k < 4 else 20), module="SlicesTrace",
                             stage="kind-slices-%d" % k, shards=2, cfg_extra="SPECIFICATION KindSpec\n"))
    jobs.append(dict(binary=bins["tuple"], scripts=[x for x in sc["tuple"] if x[0] in "0345"], module="AllocTrace", stage="heap-tuple", shards=2))
    ctx.conform_many(jobs)
