"""C03: cyclic containers."""
import gen_long


def explore(ctx):
    bins = {e: ctx.compile_async("cyclic.cpp", "cyclic-" + e, defs=["ELEM=vf::" + e.capitalize()])
            for e in ("int", "box", "wide")}
    ctx.assumptions += ["capacities 1-5, 7, 8, 16 and 33 stand for all capacities",
                        "element types int, a three-word struct and a heap-owning type stand for all element types"]
    lg = gen_long.start(ctx, "rings")
    inv = "INVARIANTS Mirrored OffsetsOk NoHole Bounded\n"
    # 1. the mirrored ring refines the abstract containers
    caps = ctx.pick("{1, 2, 3}", "{1, 2, 3, 4}")
    ctx.model_check("CyclicRing", "SPECIFICATION Spec\n" + inv + "PROPERTY RefinesCyclic\nVIEW MCView\n"
                    "CHECK_DEADLOCK FALSE\nCONSTANTS Kinds = {\"vcq\", \"vcb\"} Caps = %s MaxVal = %d Depth = 0\n"
                    % (caps, 2), name="refinement")
    # 2. one script per transition of the control state (ring offsets and sizes of both containers)
    scripts = []
    gen = ("SPECIFICATION GenSpec\nVIEW Control\nCHECK_DEADLOCK FALSE\n"
           "CONSTANTS Kinds = {\"vcq\", \"vcb\"} Caps = %s MaxVal = 40 Depth = 0\n")
    cov = ctx.scripts("CyclicRing", gen % ctx.pick("{1, 2, 3, 4}", "{1, 2, 3, 4, 5, 7}"), name="transitions")
    # 3. long random histories
    sim = ("SPECIFICATION SimSpec\nINVARIANT SimEmit\nCHECK_DEADLOCK FALSE\n"
           "CONSTANTS Kinds = {\"vcq\", \"vcb\"} Caps = {1, 2, 3, 5, 8, 16, 33} MaxVal = 1000 Depth = %d\n")
    depth = ctx.pick(80, 200)
    long_ = ctx.scripts("CyclicRing", sim % depth, simulate=ctx.pick(250, 3000), depth=depth + 2, name="simulate")
    els = ["int", "box", "wide"]
    use = {e: [] for e in els}
    for s in cov:
        head, ops = s.split("|", 1)
        for e in (els if ctx.thorough else els[:2]):
            use[e].append("%s %s|%s" % (head, e, ops))
    for k, s in enumerate(long_):
        head, ops = s.split("|", 1)
        use[els[k % 3]].append("%s %s|%s" % (head, els[k % 3], ops))
    ctx.extra["transition_scripts"] = len(cov)
    ctx.extra["random_scripts"] = len(long_)
    ctx.log("%d + %d scripts" % (len(cov), len(long_)))
    ctx.conform_many(gen_long.jobs(ctx, lg) + [dict(binary=bins[e], scripts=use[e], module="CyclicTrace", stage="histories-" + e, shards=4)
                      for e in els])
