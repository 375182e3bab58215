"""Types of calls that are not made (KindGen.tla): every script becomes an expression whose type the compiler reports."""
import os

KIND = ["efp::Array<%s, %d>", "std::array<%s, %d>", "efp::ArrayView<%s, %d>", "efp::Vcb<%s, %d>", "efp::ArrVec<%s, %d>",
        "efp::ArrVecView<%s, %d>", "efp::Vcq<%s, %d>", "efp::Vector<%s>", "efp::VectorView<%s>", "std::vector<%s>"]


def calls(ctx):
    return ctx.scripts("KindGen", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS Bounds = %s Bounds2 = %s\n" % ctx.pick(
        ("{0, 1, 2, 64, 255, 256, 257, 1000, 65536, 70000}", "{0, 1, 2, 300, 65537}"),
        ("{0, 1, 2, 7, 8, 16, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1024, 4096, 32767, 32768, 65535, 65536, 65537, 70000, 1000000}",
         "{0, 1, 2, 17, 256, 300, 4097, 65537}")), name="types", count_states=False)


def ty(k, n, elem="int"):
    return KIND[k] % ((elem, n) if k < 7 else (elem,))


def expr(fn, a, kd, nb):
    xs = ["c<%s>()" % ty(k, n) for k, n in zip(kd, nb)]
    if fn in ("map", "mapi", "append", "cmap"):
        name = {"mapi": "map_with_index", "cmap": "cartesian_map"}.get(fn, fn)
        return "efp::%s(%s)" % (name, ", ".join(([] if fn == "append" else ["F()"]) + xs))
    if fn == "filter":
        return "efp::filter(P(), %s)" % xs[0]
    if fn == "elemis":
        return "efp::elem_indices(0, %s)" % xs[0]
    if fn == "findis":
        return "efp::find_indices(P(), %s)" % xs[0]
    if fn == "fromfnct":
        return "efp::from_function(Z<%d>(), F())" % a[0]
    if fn in ("concat", "intercalate"):
        o = "c<%s>()" % ty(kd[0], nb[0], ty(kd[1], nb[1]))
        return "efp::concat(%s)" % o if fn == "concat" else "efp::intercalate(%s, %s)" % (xs[2], o)
    if fn in ("tail", "init"):
        return "efp::%s(%s)" % (fn, xs[0])
    if fn in ("takew", "dropw"):
        return "efp::%s_while(P(), %s)" % (fn[:4], xs[0])
    if fn in ("take", "drop"):
        return "efp::%s(%s, %s)" % (fn, "Z<%d>()" % a[0] if a[2] else "rt()", xs[0])
    return "efp::slice(%s, %s, %s)" % ("Z<%d>()" % a[0] if a[2] in (1, 2) else "rt()", "Z<%d>()" % a[1] if a[2] in (1, 3) else "rt()", xs[0])


def programs(ctx, scripts, parts, std="c++17"):
    """[(future of a binary, its scripts)]"""
    d = ctx.fresh("kinds-" + std)
    res = []
    for p in range(parts):
        mine = scripts[p::parts]
        path = os.path.join(d, "kinds%d.cpp" % p)
        with open(path, "w") as out:
            out.write('#include "kinds.hpp"\nconst Ask asks[] = {\n')
            for s in mine:
                h, kd, nb = [x.split() for x in s.split("|")]
                fn, a, kd, nb = h[0], list(map(int, h[1:])), list(map(int, kd)), list(map(int, nb))
                out.write('    {"%s", "%s", %s, %s, %s, TYPE(%s)},\n' % ((s, fn) + tuple("{%s}" % ", ".join(map(str, v)) for v in (a, kd, nb))
                                                                     + (expr(fn, a, kd, nb),)))
            out.write("};\nint main() { return run(asks, sizeof(asks) / sizeof(*asks)); }\n")
        res.append((ctx.compile_async(path, "kinds-%s-%d" % (std, p), std=std, san=None, opt="-O0"), mine))
    return res
