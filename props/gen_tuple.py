"""Histories of Tuple generated by TLC from Tuple.tla (shared by C18, C02 and C08)."""


def transitions(ctx, arities="{1, 2, 3}", vals="{10}"):
    return ctx.scripts("TupleGen", "SPECIFICATION GenSpec\nVIEW Contents\nINVARIANTS SizeKept EqIsPointwise\nCHECK_DEADLOCK FALSE\n"
                       "CONSTANTS Arities = %s Vals = %s Depth = 0\n" % (arities, vals), name="transitions")


def equalities(ctx, arities):
    return ctx.scripts("TupleGen", "SPECIFICATION EqSpec\nCHECK_DEADLOCK FALSE\nCONSTANTS Arities = %s Vals = {1} Depth = 0\n"
                       % arities, name="equalities")


def random(ctx, num, depth):
    cfg = ("SPECIFICATION SimSpec\nINVARIANT SimEmit\nCHECK_DEADLOCK FALSE\n"
           "CONSTANTS Arities = {1, 2, 3, 4, 5, 9} Vals = {1, 40, 77} Depth = %d\n" % depth)
    return sorted(set(ctx.scripts("TupleGen", cfg, simulate=num, depth=depth + 1, name="random")))
