"""Chains of views, enumerated by TLC from SlicesGen.tla (shared by C07 and C08)."""


def model(ctx):
    cfg = ("SPECIFICATION MSpec\nINVARIANTS Inside Nested Laws\nPROPERTY WritesSeen\nCHECK_DEADLOCK FALSE\n"
           "CONSTANTS MaxLen = %d MaxArg = %d Group = 0 Depth2 = FALSE\n" % ctx.pick((3, 4), (4, 6)))
    return ctx.model_check("SlicesGen", cfg, workers=2, name="windows")


def chains(ctx, group):
    cfg = ("SPECIFICATION GSpec\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxLen = 1 MaxArg = 1 Group = %d Depth2 = %s\n"
           % (group, "TRUE" if group >= 4 else "FALSE"))
    return ctx.scripts("SlicesGen", cfg, name="chains-%d" % group, count_states=False)
