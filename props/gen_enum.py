"""Histories of Enum generated by TLC from Enum.tla (shared by C04 and C02)."""
SPECIFIC = ["mfull", "mrev", "mval", "mvoid", "mfirst", "mlast", "mnone", "meven"]


def tset(xs):
    return "{%s}" % ", ".join(('"%s"' % x) if isinstance(x, str) else str(x) for x in xs)


def consts(n, pos=None, depth=0, matches=SPECIFIC):
    return "CONSTANTS Nalt = %d Pos = %s Depth = %d Matches = %s\n" % (n, tset(pos or range(n)), depth, tset(matches))


def transitions(ctx, n):
    return ctx.scripts("EnumGen", "SPECIFICATION GenSpec\nVIEW Shape\nINVARIANTS OneAlternative OneBranch\n"
                       "PROPERTY ErrorsAreInert\nCHECK_DEADLOCK FALSE\n" + consts(n), name="transitions-%d" % n)


def tours(ctx, n, pos=None, matches=SPECIFIC):
    return ctx.scripts("EnumGen", "SPECIFICATION TourSpec\nCHECK_DEADLOCK FALSE\n" + consts(n, pos, 0, matches),
                       name="tours-%d" % n)


def random(ctx, n, num, depth, pos=None, matches=SPECIFIC):
    cfg = "SPECIFICATION SimSpec\nINVARIANT SimEmit\nCHECK_DEADLOCK FALSE\n" + consts(n, pos, depth, matches)
    return sorted(set(ctx.scripts("EnumGen", cfg, simulate=num, depth=depth + 1, name="random-%d" % n)))
