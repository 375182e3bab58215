"""C04: Enum holds one alternative; match runs exactly its branch."""
import gen_enum as g

LEAN = ["mfull", "mlast", "meven"]


def explore(ctx):
    ctx.assumptions += ["alternative counts 1-5, 8, 9, 16, 17, 33, 64, 65, 129 and 256 stand for 1..256 (both sides of every power of two)",
                        "for more than 64 alternatives, values are put in and read at selected positions (first, last, around 64 and 128)"]
    full = ctx.pick([1, 2, 3, 4, 5, 8, 9, 17, 33], [1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33])
    plan = []   # n, element, standard, definitions, positions, matches
    big = ctx.pick([256, 129], [256, 255, 200, 129, 128, 127])
    for n in big:
        pos = sorted({0, 1, 2, 63, 64, 65, 126, 127, 128, n - 2, n - 1} & set(range(n)))
        plan.append((n, "Box", "c++17", ["LEAN", "POS=" + ",".join(map(str, pos))], pos, ["mlast"], None))
    for n in ctx.pick([65], [64, 65, 100]):
        plan.append((n, "Box", "c++17", ["LEAN"], list(range(n)), LEAN, "address"))
    for n in full:
        plan.append((n, "Box" if n % 2 else "Int", "c++17", [], None, g.SPECIFIC, "address"))
    for n in (3, 8):
        plan.append((n, "Wide", "c++11", [], None, g.SPECIFIC, "address"))
    jobs = []
    bins = []
    for n, el, std, defs, pos, ms, san in plan:
        bins.append(ctx.compile_async("enum.cpp", "enum-%d-%s" % (n, std[3:]), std=std, san=san,
                                      defs=["NALT=%d" % n, "ELEM=vf::" + el] + defs, flags=["-ftemplate-depth=4000"]))

    def gen(p):
        n, el, std, defs, pos, ms, san = p
        big_ = n > 40
        tpos = pos or list(range(n))
        if len(tpos) > 12 and not ctx.thorough:
            tpos = tpos[::max(1, len(tpos) // 9)] + [tpos[-1]]
            tpos = sorted(set(tpos))
        s = g.tours(ctx, n, tpos, ms)
        if ms == g.SPECIFIC:
            s += g.random(ctx, n, ctx.pick(25, 400), ctx.pick(60, 120))
            if n <= 3:
                s += g.transitions(ctx, n)
        else:
            s += g.random(ctx, n, ctx.pick(25, 200), 60, pos, ms)
        return ["%s %s|%s" % (x.split("|")[0], el, x.split("|", 1)[1]) for x in s]
    for (n, el, std, defs, pos, ms, san), b, sc in zip(plan, bins, ctx.pool.map(gen, plan)):
        ctx.count("scripts", len(sc))
        jobs.append(dict(binary=b, scripts=sc, module="EnumTrace", stage="enum-%d-%s" % (n, std), shards=1 if n > 3 else 2))
    ctx.conform_many(jobs)
