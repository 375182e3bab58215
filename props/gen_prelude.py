"""Calls of the sequence functions, enumerated by TLC from PreludeGen.tla."""


def calls(ctx, what):
    return ctx.scripts("PreludeGen", 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS What = "%s" Deep = FALSE\n' % what,
                       name="calls-" + what, count_states=False)


def laws(ctx):
    return ctx.model_check("PreludeLaws", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS InOrder Final Laws\n"
                           "CONSTANTS MaxLen = %d MaxArity = %d\n" % ctx.pick((3, 3), (4, 3)), workers=3)
