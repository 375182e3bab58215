"""Shared by C10-C13: workloads for the queues, and the drivers that explore their schedules."""
ELEMS = ("int", "box", "wide")


def build(ctx):
    return ctx.compile_async("queues.cpp", "queues", san="thread", opt="-O1", runtime="sched.cpp")


def loads(ctx, what, caps, keep=1):
    """Workloads generated by TLC, element types in turn."""
    ss = ctx.scripts("QueueGen", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS What = \"%s\" Caps = %s\n" % (what, caps),
                     name="workloads-" + what)
    out = []
    for k, s in enumerate(ss):
        if k % keep:
            continue
        head, progs = s.split("|", 1)
        kind, cap, pe, pd = head.split()
        out.append("%s %s %s %s %s|%s" % (kind, cap, ELEMS[(k // keep) % 3], pe, pd, progs))
    return out


def env(ctx, runs, rnd, traces, race=0, preempt=2, spurious=1):
    return {"RACE": str(race), "PREEMPT": str(preempt), "SPURIOUS": str(spurious), "MAX_RUNS": str(runs),
            "RANDOM_RUNS": str(rnd), "MAX_TRACES": str(traces), "SEED": str(ctx.seed)}


def model(ctx, kind, cap, threads, ops, spurious, live=True, variant="none"):
    props = "PROPERTIES Refines%s\n" % (" Progress" if live else "")
    ctx.model_check("QueueImpl", "SPECIFICATION Spec\nINVARIANTS Mutex NotStranded\n" + props + "CHECK_DEADLOCK FALSE\n"
                    "CONSTANTS Kind = \"%s\" Cap = %d Threads = {%s} Consumer = %d OpsEach = %d Spurious = %d Variant = \"%s\"\n"
                    % (kind, cap, ", ".join(str(i + 1) for i in range(threads)), threads, ops, spurious, variant),
                    name="impl-%s-%d-%d-%d" % (kind, cap, threads, ops))


def races(ctx, binary, use):
    """The same workloads with every memory access recorded: an execution with a data race has no behaviour at all."""
    return dict(binary=binary, scripts=use, module="RaceTrace", stage="accesses", shards=8,
                env=env(ctx, ctx.pick(600, 8000), ctx.pick(60, 600), ctx.pick(5, 40), race=1), timeout=ctx.pick(240, 1500))


ASSUME = ["schedules switch threads at synchronization operations (systematically, within a bound of preemptions) and, in "
          "random runs, also at single memory accesses; between those points execution is sequentially consistent",
          "condition variables may wake spuriously; the scheduler of the real system is fair",
          "element types int, a four-word struct and a heap-owning type stand for all element types"]


def sequential(ctx, kinds, caps="{0, 1, 2, 3}", maxlen=3, num=0, depth=60):
    """Histories of one thread: every step from every combination of lengths and ring positions, and simulated long ones."""
    consts = "CONSTANTS Kinds = {%s} Caps = %s MaxLen = %d Depth = %d\n"
    ks = ", ".join('"%s"' % k for k in kinds)
    ss = ctx.scripts("QueueSeq", "SPECIFICATION GenSpec\nVIEW Control\nCHECK_DEADLOCK FALSE\nINVARIANTS Bounded Ordered Apart\n"
                     + consts % (ks, caps, maxlen, 0), name="sequential")
    if num:
        ss += ctx.scripts("QueueSeq", "SPECIFICATION Spec\nINVARIANT SimEmit\nCHECK_DEADLOCK FALSE\n" + consts % (ks, "{0, 1, 2, 3, 5}", 30, depth),
                          simulate=num, depth=depth + 2, name="sequential-long")
    return ss


def seq_jobs(ctx, kinds):
    """Start them with int and heap-owning elements; call the result to get the jobs."""
    bins = {e: ctx.compile_async("qseq.cpp", "qseq-" + e, defs=["ELEM=vf::" + e]) for e in ("Int", "Box")}
    f = ctx.pool.submit(sequential, ctx, kinds, ctx.pick("{0, 1, 2, 3}", "{0, 1, 2, 3, 5}"), ctx.pick(3, 6), ctx.pick(100, 2000), ctx.pick(80, 200))

    def jobs():
        ss = f.result()
        ctx.extra["sequential_histories"] = len(ss)
        return [dict(binary=b, scripts=ss, module="QueueSeqTrace", stage="sequential-" + e, shards=1) for e, b in bins.items()]
    return jobs
