------------------------------ MODULE LongTrace ------------------------------
(* Explains recorded calls on long sequences.                                *)
EXTENDS Long, TraceLib

VARIABLE l
TraceInit == l = 1
Explained(e) == LET x == Expect(e.fn, e.n, e.m)
                IN /\ e.st = "ok" /\ Len(e.out) = Len(x)
                   /\ \A k \in 1..Len(x) : e.lost[k] = 0 /\ Expand(e.out[k]) = x[k]
Do(e) == CASE e.op = "case" -> TRUE
           [] e.op = "call" -> Explained(e)
           [] e.op = "end"  -> TRUE
           [] OTHER -> FALSE
TraceNext == l <= Len(Trace) /\ Do(Trace[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
