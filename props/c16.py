"""C16: formatting."""
import re

RANGE = {"i8": (-2**7, 2**7 - 1), "u8": (0, 2**8 - 1), "i16": (-2**15, 2**15 - 1), "u16": (0, 2**16 - 1), "i32": (-2**31, 2**31 - 1), "u32": (0, 2**32 - 1),
         "i64": (-2**63, 2**63 - 1), "u64": (0, 2**64 - 1), "il": (-2**63, 2**63 - 1), "ul": (0, 2**64 - 1), "i128": (-2**127, 2**127 - 1), "u128": (0, 2**128 - 1)}


def fits(script):
    m = re.match(r"([iu]\w+):(-?\d+)\|", script)
    if not m:
        return True
    lo, hi = RANGE[m.group(1)]
    return lo <= int(m.group(2)) <= hi and m.group(2) != "-0"


def gen(ctx, what):
    return [s for s in sorted(set(ctx.scripts("FormatGen", 'CHECK_DEADLOCK FALSE\nSPECIFICATION Spec\nCONSTANTS What = "%s" Parts = %d Part = %d\n' % (what, ctx.pick(9, 1), ctx.pick(ctx.seed % 9, 0)), name=what))) if fits(s)]


def explore(ctx):
    binary = ctx.compile_async("format.cpp", "format", opt="-O0")
    ctx.assumptions += ["format strings are passed at run time; those checked during compilation give the same text or do not compile"]
    mc = ctx.pool.submit(ctx.model_check, "FormatLaws", "SPECIFICATION Spec\nINVARIANT Laws\nCHECK_DEADLOCK FALSE\nCONSTANTS Hexes = %d Widths = {0, 5, 9}\n" % ctx.pick(1, 2),
                         None, 4, (), "6g", 800, "laws")
    names = ["ints", "plain", "combos", "texts", "strings", "seqs", "longs", "floats"]
    sets = dict(zip(names, [f.result() for f in [ctx.pool.submit(gen, ctx, n) for n in names]]))
    for n, k in (("ints", 3), ("combos", 4), ("strings", 2)):
        if not ctx.thorough:
            sets[n] = sets[n][ctx.seed % k::k]
    ctx.log(", ".join("%d %s" % (len(sets[n]), n) for n in names))
    ctx.extra.update({n + "_calls": len(sets[n]) for n in names})
    ctx.conform_many([dict(binary=binary, scripts=sets[n], module="FormatTrace", stage=n, shards=8 if n not in ("seqs", "longs") else 4,
                           args=["print"] if n in ("strings", "seqs", "longs") else []) for n in names])
    mc.result()
