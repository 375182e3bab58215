"""C02: object lifetimes and heap blocks of every owning type."""
import gen_containers as g
import gen_enum as ge
import gen_maybe as gm
import gen_prelude as gp
import gen_queues as gq
import gen_tuple as gt
import c09


def explore(ctx):
    T = {e: "track::" + e for e in ("T4", "T16", "T64")}

    def build(src, e, **kw):
        return ctx.compile_async(src, "%s-%s" % (src.split(".")[0], e), defs=["TRACK", "ELEM=" + T[e]], **kw)
    els = ctx.pick(["T4", "T64"], ["T4", "T16", "T64"])
    cont = {e: build("containers.cpp", e) for e in els}
    cyc = {e: build("cyclic.cpp", e) for e in els}
    free = ctx.compile_async("containers.cpp", "containers-free", defs=["TRACK", "FREESTANDING", "ELEM=" + T["T64"]])
    other = {}
    for d in ("hof", "build", "search", "maybe"):
        other[d] = build(d + ".cpp", "T16" if ctx.thorough and d == "build" else "T4")
    other["tuple"] = build("tuple.cpp", "T4")
    other["sort"] = build("sort.cpp", "T4")
    other["qseq"] = build("qseq.cpp", "T4")
    for n in (3, 9):
        other["enum", n] = ctx.compile_async("enum.cpp", "enum-%d" % n, defs=["TRACK", "ELEM=" + T["T64" if n == 3 else "T4"], "NALT=%d" % n])
    ctx.assumptions += ["elements of 4, 16 and 64 bytes and alignment stand for all element types",
                        "histories of the container, cyclic and other specifications stand for all histories"]
    mc = ctx.pool.submit(ctx.model_check, "LifetimeModel", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
                         "INVARIANTS EachStepAllowed NothingLeft ObjectsInStorage Disjoint\nCONSTRAINT NamesBounded\n"
                         "CONSTANTS MaxSize = %d RingN = %d\n" % ctx.pick((3, 2), (4, 3)), workers=2)
    ring = ("SPECIFICATION GenSpec\nVIEW Control\nCHECK_DEADLOCK FALSE\n"
            "CONSTANTS Kinds = {\"vcq\", \"vcb\"} Caps = %s MaxVal = 40 Depth = 0\n" % ctx.pick("{1, 2, 3}", "{1, 2, 3, 4, 5}"))
    rcov_f = ctx.pool.submit(ctx.scripts, "CyclicRing", ring, name="ring")
    fs = {d: ctx.pool.submit(gp.calls, ctx, d) for d in ("hof", "build", "search")}
    fs["maybe"] = ctx.pool.submit(gm.transitions, ctx, "{6, 13}")
    fs["tuple"] = ctx.pool.submit(gt.random, ctx, ctx.pick(40, 1000), 40)
    fs["sort"] = ctx.pool.submit(lambda: c09.gen(ctx, "short", 4) + c09.gen(ctx, "long", 1, 1, "{40}"))
    fs["qseq"] = ctx.pool.submit(gq.sequential, ctx, "bnd", "{0, 1, 2, 3}", ctx.pick(2, 4), ctx.pick(0, 300))
    for n in (3, 9):
        fs["enum", n] = ctx.pool.submit(ge.random, ctx, n, ctx.pick(60, 1000), 60)
    near_f = ctx.pool.submit(g.near_bounds, ctx, ctx.pick("{12}", "{5, 12}"))
    cov = g.transitions(ctx, maxlen=ctx.pick(2, 4), maxcap=ctx.pick(5, 9))
    runs = g.long_runs(ctx, ctx.pick(60, 1500), ctx.pick(30, 80), bulk="{1, 5}", maxlen=30)
    rcov, near = rcov_f.result(), near_f.result()
    ctx.log("%d + %d + %d scripts" % (len(cov), len(runs), len(rcov)))

    def use(scripts, k):
        return ["%s %s|%s" % (s.split("|", 1)[0], els[k], s.split("|", 1)[1])
                for i, s in enumerate(scripts) if ctx.thorough or i % (3 * len(els)) == k]
    jobs = []
    for k, e in enumerate(els):
        jobs.append(dict(binary=cont[e], scripts=use(cov, k) + use(near, k) + use(runs, k), module="LifetimeTrace",
                         stage="containers-" + e, shards=4))
        jobs.append(dict(binary=cyc[e], scripts=use(rcov, k), module="LifetimeTrace", stage="cyclic-" + e, shards=4))
    # the library's own allocator
    jobs.append(dict(binary=free, scripts=["%s T64|%s" % tuple(s.split("|", 1)) for s in cov[ctx.seed % 24::ctx.pick(24, 3)] + runs[::4]],
                     module="LifetimeTrace", stage="freestanding", shards=2))
    # the sequence functions, Maybe, Tuple and Enum with the same elements
    thin = {"hof": 6, "build": 4, "search": 40, "maybe": 2, "tuple": 6, "sort": 12}
    for d, b in other.items():
        s = fs[d].result()
        if isinstance(d, tuple):
            s = ["%s T|%s" % tuple(x.split("|", 1)) for x in s]
        elif d == "maybe":
            s = ["T" + x for x in s]
        elif d == "tuple":
            s = [x for x in s if x[0] in "12"]
        if not ctx.thorough and d in thin:
            s = s[ctx.seed % thin[d]::thin[d]]
        ctx.count("calls_tracked", len(s))
        jobs.append(dict(binary=b, scripts=s, module="LifetimeTrace", stage="track-%s" % (d if isinstance(d, str) else "enum-%d" % d[1]),
                         shards=3))
    ctx.conform_many(jobs)
    mc.result()
