"""Histories of the owning sequences, generated by TLC from Containers.tla (shared by C01 and C02)."""

KINDS = '{"array", "arrvec", "vector"}'


def consts(kinds=KINDS, ns="{1, 3}", maxlen=3, maxcap=7, depth=0, bulk="{}", maxarg=4):
    return ("CONSTANTS Kinds = %s Ns = %s MaxLen = %d MaxCap = %d Depth = %d Bulk = %s MaxArg = %d\n"
            % (kinds, ns, maxlen, maxcap, depth, bulk, maxarg))


def transitions(ctx, **kw):
    cfg = ("SPECIFICATION GenSpec\nVIEW Shape\nCONSTRAINT Small\nINVARIANTS LengthsOk CapEnough FixedCap\n"
           "PROPERTY ErrorsAreInert\nCHECK_DEADLOCK FALSE\n" + consts(**kw))
    return ctx.scripts("ContainersGen", cfg, name="transitions")


def near_bounds(ctx, ns):
    """Larger bounded kinds: every operation with lengths near zero and near the bound."""
    cfg = ("SPECIFICATION GenSpec\nVIEW Shape\nCONSTRAINTS Small NearEnds\nINVARIANTS LengthsOk FixedCap\nPROPERTY ErrorsAreInert\nCHECK_DEADLOCK FALSE\n"
           + consts(kinds='{"array", "arrvec"}', ns=ns, maxlen=40, maxcap=40, bulk="{1}", maxarg=1))
    return ctx.scripts("ContainersGen", cfg, name="near-bounds")


def equalities(ctx):
    return ctx.scripts("ContainersGen", "SPECIFICATION EqSpec\nCHECK_DEADLOCK FALSE\n" + consts(), name="equality")


def long_runs(ctx, num, depth, bulk="{1, 7, 20}", maxlen=400, maxarg=6):
    res = []
    for kinds, ns, share in (('{"vector"}', "{1}", 2), ('{"array", "arrvec"}', "{1, 2, 5, 12, 33}", 1)):
        cfg = ("SPECIFICATION SimSpec\nINVARIANT SimEmit\nCHECK_DEADLOCK FALSE\n"
               + consts(kinds=kinds, ns=ns, maxlen=maxlen, maxcap=10 ** 6, depth=depth, bulk=bulk, maxarg=maxarg))
        res += ctx.scripts("ContainersGen", cfg, simulate=num * share // 2, depth=depth + 2, name="simulate-%d" % share)
    return sorted(set(res))
