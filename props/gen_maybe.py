"""Histories of Maybe generated by TLC from Maybe.tla (shared by C05 and C02)."""


def transitions(ctx, vals):
    return ctx.scripts("MaybeGen", "SPECIFICATION GenSpec\nVIEW Shape\nINVARIANTS AtMostOne CallsAtMostInput\n"
                       "CHECK_DEADLOCK FALSE\nCONSTANTS Vals = %s Depth = 0\n" % vals, name="transitions")


def random(ctx, num, depth):
    return sorted(set(ctx.scripts("MaybeGen", "SPECIFICATION SimSpec\nINVARIANT SimEmit\nCHECK_DEADLOCK FALSE\n"
                                  "CONSTANTS Vals = {3, 6, 10, 13, 18, 1000010} Depth = %d\n" % depth, simulate=num, depth=depth + 1,
                                  name="random")))
