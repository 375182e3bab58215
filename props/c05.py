"""C05: Maybe is a lawful optional."""
import gen_maybe as g


def explore(ctx):
    els = ["Int", "Box", "Wide"]
    stds = [("Int", "c++17"), ("Box", "c++17"), ("Wide", "c++17"), ("Box", "c++11")]
    bins = [ctx.compile_async("maybe.cpp", "maybe-%s-%s" % (e, s[3:]), std=s, defs=["ELEM=vf::" + e]) for e, s in stds]
    ctx.assumptions += ["four total and four partial functions over several result types stand for all functions"]
    ctx.model_check("MaybeGen", "SPECIFICATION SimSpec\nVIEW Shape\nINVARIANTS LawsHold AtMostOne\nCHECK_DEADLOCK FALSE\n"
                    "CONSTANTS Vals = {3} Depth = 0\n", name="laws", workers=2)
    cov = g.transitions(ctx, ctx.pick("{6, 13}", "{5, 6, 10, 13, 18}"))
    runs = g.random(ctx, ctx.pick(100, 1500), ctx.pick(60, 120))
    ctx.extra.update(transition_scripts=len(cov), random_scripts=len(runs))
    ctx.log("%d + %d scripts" % (len(cov), len(runs)))
    ctx.conform_many([dict(binary=b, scripts=["%s%s" % (e, s) for k, s in enumerate(cov + runs)
                                              if ctx.thorough or e != "Wide" and st == "c++17" or k % 4 == 0], module="MaybeTrace",
                           stage="maybe-%s-%s" % (e, st), shards=3) for b, (e, st) in zip(bins, stds)])
