"""C22: view objects name a window of their source and nothing else."""


def consts(which, depth, use, n):
    return "CONSTANTS Set = \"%s\" Depth = %d Use = {%s} N = %d\n" % (which, depth, ", ".join(map(str, use)), n)


PAIRS = [(1, 2), (1, 5), (3, 5), (4, 5), (5, 6), (1, 7), (3, 7), (4, 7), (5, 7), (7, 8)]
TRIPLES = [(1, 5, 6), (1, 7, 8), (5, 7, 8)]


def explore(ctx):
    ints = [("Int", "int", "Ints"), ("Box", "vf::Box", "Ints")] + ([("Wide", "vf::Wide", "Ints")] if ctx.thorough else [])
    strs = [("char", "char", "Strs"), ("wchar", "wchar_t", "Strs")] + ([("c16", "char16_t", "Strs"), ("c32", "char32_t", "Strs")] if ctx.thorough else [])
    bins = {n: ctx.compile_async("views.cpp", "views-" + n, defs=["ELEM=" + e, "SET=" + s]) for n, e, s in ints + strs}
    ctx.assumptions += ["the source outlives the views; views of bounded kinds are not given more elements than their bound",
                        "a view of no elements may hold any address"]
    gen = "SPECIFICATION GenSpec\nVIEW NoHist\nCONSTRAINT Fresh\nINVARIANT Inside\nCHECK_DEADLOCK FALSE\n"
    fs = [ctx.pool.submit(ctx.scripts, "ViewsGen", gen + consts("int", 0, p, ctx.pick(3, 5)), name="pair-%d-%d" % p) for p in PAIRS]
    fs += [ctx.pool.submit(ctx.scripts, "ViewsGen", gen + consts("int", 0, p, ctx.pick(2, 3)), name="three-%d-%d-%d" % p) for p in TRIPLES]
    fstr = ctx.pool.submit(ctx.scripts, "ViewsGen", gen + consts("str", 0, (1, 2), ctx.pick(5, 8)), name="pair-str")
    sim = "SPECIFICATION Spec\nINVARIANTS SimEmit Inside\nCHECK_DEADLOCK FALSE\n"
    d, num = ctx.pick((24, 400), (60, 4000))
    s1 = ctx.scripts("ViewsGen", sim + consts("int", d, range(1, 9), 6), simulate=num, depth=d + 2, name="long-int")
    s2 = ctx.scripts("ViewsGen", sim + consts("str", d, range(1, 4), 8), simulate=num, depth=d + 2, name="long-str")
    si = [s for f in fs for s in f.result()] + s1
    ss = fstr.result() + s2
    ctx.extra["histories"] = {"views": len(si), "string_views": len(ss)}

    def part(ss, k):           # one type sees everything, the others every fourth history
        return ss if k == 0 or ctx.thorough else [x for i, x in enumerate(ss) if i % 4 == (k + ctx.seed) % 4]
    jobs = [dict(binary=bins[n], scripts=part(si, k), module="ViewsTrace", stage="views-" + n, shards=3) for k, (n, e, s) in enumerate(ints)]
    jobs += [dict(binary=bins[n], scripts=part(ss, k), module="ViewsTrace", stage="strings-" + n, shards=2) for k, (n, e, s) in enumerate(strs)]
    ctx.conform_many(jobs)
