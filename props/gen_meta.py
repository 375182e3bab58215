"""Compile-time expressions of Meta.tla as programs: every script becomes an expression the compiler evaluates, and the
program that contains it reports what the compiler made of it."""
import os

TYPES = {"noref": "efp::ReferenceRemoved<%s>", "noconst": "efp::ConstRemoved<%s>", "nocv": "efp::CVRemoved<%s>",
         "noptr": "efp::PointerRemoved<%s>", "bare": "efp::CVRefRemoved<%s>", "decay": "efp::Decay<%s>",
         "addl": "efp::LvalueRefAdded<%s>", "addr": "efp::RvalueRefAdded<%s>"}
CT = {"ctadd": "+", "ctsub": "-", "ctmul": "*", "ctdiv": "/", "cteq": "==", "ctneq": "!="}
KIND = ["bool", "int", "size_t", "long", "double", "unsigned char", "size_t", "signed char", "float", "unsigned short",
        "long double"]


def expressions(ctx, tags="{1, 2, 3, 9}", maxtypes=4, far=3, maxvals=3):
    return ctx.scripts("MetaGen", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS Tags = %s MaxTypes = %d Far = %d MaxVals = %d\n"
                       % (tags, maxtypes, far, maxvals), name="expressions")


def laws(ctx, far=7, maxvals=3):
    ctx.model_check("MetaGen", "SPECIFICATION LawSpec\nINVARIANT Laws\nCHECK_DEADLOCK FALSE\n"
                    "CONSTANTS Tags = {1, 2} MaxTypes = 1 Far = %d MaxVals = %d\n" % (far, maxvals), workers=2, name="laws")


def ty(c):
    s = "S<%d>" % (c % 100)
    if c // 100 % 10:
        s = "const " + s
    if c // 1000 % 10:
        s += "*"
    return s + ["", "&", "&&"][c // 10000]


def value(kind, x, unit):
    if kind == 4:
        return "%d / 2.0" % x
    if kind == 6:
        return "(size_t(%d) << %d)" % (x, unit)
    return "%s(%d)" % (KIND[kind].replace("unsigned char", "uint8_t"), x)


def thunk(k, line, outside):
    """C++ statements that add the result to r"""
    op, a, t = [x.split() for x in line.split("|")]
    op, a, t = op[0], [int(x) for x in a], [int(x) for x in t]
    ts = ", ".join(map(ty, t))
    if op in TYPES:
        return "t", op, a, t, "r.push_back(code<%s>());" % (TYPES[op] % ts)
    if op == "islref":
        return "t", op, a, t, "r.push_back(efp::IsLvalueReference<%s>::value);" % ts
    if op == "isconst":
        return "t", op, a, t, "r.push_back(efp::IsConst<%s>::value);" % ts
    if op == "packat":
        return "l", op, a, t, "r.push_back(code<efp::PackAt<%d, %s>>());" % (a[0], ts)
    if op == "tupleat":
        return "l", op, a, t, "r.push_back(code<efp::TupleAt<%d, efp::Tuple<%s>>>());" % (a[0], ts)
    if op == "find":
        outside.append("template<typename T> struct P%d { static constexpr bool value = %s; };"
                       % (k, " || ".join("code<T>() %% 100 == %d" % x for x in a)))
        return "l", op, a, t, "constexpr size_t i = efp::Find<P%d, %s>::value; r.push_back(i);" % (k, ts)
    if op == "prepend":
        return "l", op, a, t, "Codes<efp::Prepend<%s, efp::TypeList<%s>>>::add(r);" % (ty(a[0]), ts)
    if op == "iseq":
        return "l", op, a, t, "Codes<efp::MakeIndexSequence<%d>>::add(r);" % a[0]
    if op == "same":
        return "l", op, a, t, "r.push_back(efp::IsSame<%s>::value);" % ts
    if op in ("args", "fptr", "f2fp"):
        ret, how = ty(a[1]), a[0]
        if how in (1, 2, 3):
            outside.append("struct K%d { %s operator()(%s)%s; };" % (k, ret, ts, "" if how == 2 else " const"))
        f = {0: "%s (*)(%s)" % (ret, ts), 1: "K%d" % k, 2: "K%d" % k, 3: "K%d&" % k,
             4: "%s (S<8>::*)(%s)" % (ret, ts), 5: "%s (S<8>::*)(%s) const" % (ret, ts), 6: "%s (*)(%s)" % (ret, ts)}[how]
        if op == "args":
            return "l", op, a, t, "Codes<efp::Arguments<%s>>::add(r);" % f
        if op == "fptr":
            return "l", op, a, t, "Codes<efp::FunctionPointerType<%s>>::add(r);" % f
        if how == 0:
            f = "%s(%s)" % (ret, ts)
        return "l", op, a, t, "Codes<efp::FuncToFuncPtr<%s>>::add(r);" % f
    if op == "calls":
        args, ps = ts.split(", ")[:a[0]] if ts else [], ts.split(", ")[a[0]:] if ts else []
        if a[1] == 1:
            outside.append("struct K%d { S<9> operator()(%s) const; };" % (k, ", ".join(ps)))
        f = {0: "S<9> (*)(%s)" % ", ".join(ps), 1: "const K%d&" % k, 3: "S<9> (&)(%s)" % ", ".join(ps)}[a[1]]
        return "l", op, a, t, ("constexpr bool b = efp::IsInvocable<%s>::value; r.push_back(b); "
                               "r.push_back(efp::IsInvocableR<S<9>, %s>::value); "
                               "r.push_back(efp::IsInvocableR<void, %s>::value); r.push_back(efp::IsInvocableR<S<8>, %s>::value);"
                               % ((", ".join([f] + args),) * 4))
    kind, v = a[0], a[1:]
    c = KIND[kind].replace("unsigned char", "uint8_t")
    # what one unit of the result is
    unit = "1"
    if kind == 4:
        unit = "half"
    if kind == 6:
        unit = "big"
    if op in ("all", "any", "max", "min", "sum", "product", "foldl"):
        braces = "{%s}" % ", ".join(value(kind, x, 18 if op == "product" else 33) for x in v)
        fn = {"max": "_maximum", "min": "_minimum"}.get(op, "_" + op)
        call = "efp::%s(%s)" % (fn, braces)
        if op == "foldl":
            call = "efp::_foldl(step<%s>, %s, %s)" % (c, "0.5" if kind == 4 else c + "(1)", braces)
        n = len(v) if op == "product" else 1
        put = {"1": "(long long)x", "half": "whole(x * %d)" % 2 ** n,
               "big": "units(x, %d)" % (18 * n if op == "product" else 33)}[unit]
        return "v", op, a, t, ("constexpr auto x = %s; static_assert(std::is_same<decltype(x), const %s>::value, \"\"); r.push_back(%s);"
                               % (call, c, put))
    if op in ("xmax", "xmin"):
        call = "efp::_%simum({%s})" % (op[1:], ", ".join("end_value<%s>(%d)" % (KIND[kind], x) for x in v))
        return "v", op[1:], a, t, "constexpr auto x = %s; r.push_back(end_rank<%s>(x));" % (call, KIND[kind])
    if op in ("All", "Any", "Maximum", "Mininum"):
        cs = ", ".join("efp::CtConst<%s, %s>" % (c, value(kind, x, 33)) for x in v)
        put = "units(x, 33)" if kind == 6 else "(long long)x"
        return "v", op, a, t, "constexpr auto x = efp::%s<%s>::value; r.push_back(%s);" % (op, cs, put)
    if op in CT:
        x, y = ("efp::CtConst<%s, %d> {}" % (c, z) for z in v)
        return "c", op, a, t, ("using namespace efp; constexpr auto x = decltype(%s %s %s)::value; r.push_back((long long)x); "
                               "static_assert(efp::IsCtConst<decltype(%s %s %s)>::value, \"\");" % (x, CT[op], y, x, CT[op], y))
    f = op[1:]
    x, y = (value(kind, z, 0) for z in v)
    name = {"max": "max", "min": "min"}.get(f, "op_" + f)
    call = "efp::%s(%s%s)" % (name, x, "" if f in ("neg", "not") else ", " + y)
    if f not in ("and", "or", "not"):
        call = call.replace("efp::" + name, "efp::%s<%s>" % (name, c))
    put = "whole(x * 2)" if kind == 4 and f in ("add", "sub", "neg", "max", "min") else "(long long)x"
    return "o", f, a, t, "constexpr auto x = %s; r.push_back(%s);" % (call, put)


def source(path, scripts):
    outside, cases = [], []
    for k, s in enumerate(scripts):
        how, f, a, t, body = thunk(k, s, outside)
        cases.append('    {"%s", [](std::vector<long long>& r) { %s }, "%s", "%s", {%s}, {%s}},'
                     % (s, body, how, f, ", ".join(map(str, a)), ", ".join(map(str, t))))
    with open(path, "w") as out:
        out.write('#include "meta.hpp"\n%s\nconst Expr exprs[] = {\n%s\n};\nint main() { return run(exprs, sizeof(exprs) / sizeof(*exprs)); }\n'
                  % ("\n".join(outside), "\n".join(cases)))


def programs(ctx, scripts, parts, std="c++17"):
    """[(future of a binary, its scripts)]"""
    d = ctx.fresh("meta-" + std)
    res = []
    for p in range(parts):
        mine = scripts[p::parts]
        path = os.path.join(d, "meta%d.cpp" % p)
        source(path, mine)
        res.append((ctx.compile_async(path, "meta-%s-%d" % (std, p), std=std, san=None), mine))
    return res
