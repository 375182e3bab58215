---------------------------- MODULE FormatTrace ----------------------------
(* Checks recorded calls of format, print and println against Format.        *)
EXTENDS Format, TraceLib

VARIABLE l

Good(e) == LET r == Result(e.f, e.a)
           IN IF e.st = "ok" THEN r.ok /\ e.out = (IF e.how = "println" THEN r.out \o <<10>> ELSE r.out)
              ELSE e.st = "error" /\ ~r.ok /\ e.out = <<>>

Do(e) == CASE e.op = "case" -> TRUE
           [] e.op = "fmt"  -> Good(e)
           [] e.op = "end"  -> TRUE
           [] OTHER         -> FALSE

TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Do(Trace[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
