---------------------------- MODULE NumericTrace ----------------------------
(* Checks recorded reductions and helper calls against Numeric.              *)
EXTENDS Numeric, TraceLib

VARIABLE l

\* results: a list of pairs (function, value in units)
GoodRed(e) == \A i \in 1..Len(e.r) : e.r[i][2] = Reduce(e.r[i][1], e.m)
GoodSc(e) == \A i \in 1..Len(e.r) : e.r[i][2] = Scalar(e.r[i][1], e.m[1], e.m[2], e.m[3])

Do(e) == CASE e.op = "case" -> TRUE
           [] e.op = "red"  -> e.st = "ok" /\ e.after = e.m /\ GoodRed(e)
           [] e.op = "sc"   -> e.st = "ok" /\ GoodSc(e)
           [] e.op = "end"  -> TRUE
           [] OTHER         -> FALSE

TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Do(Trace[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
