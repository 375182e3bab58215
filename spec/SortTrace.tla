------------------------------- MODULE SortTrace -------------------------------
(* Explains recorded calls of the real sorting functions.                    *)
EXTENDS Sort, TraceLib

VARIABLE l
Lo(e) == IF e.fn \in Ranged /\ e.cmp # 9 THEN e.lo + 1 ELSE 1
Hi(e) == IF e.fn \in Ranged /\ e.cmp # 9 THEN e.hi + 1 ELSE Len(e.in)
TraceInit == l = 1
Do(e) == CASE e.op \in {"case", "end"} -> TRUE
           [] e.op = "call" -> IF e.st = "ok" /\ Sorted(e.fn, e.cmp, e.in, e.ks, e.ids, Lo(e), Hi(e)) THEN TRUE ELSE FALSE
           [] OTHER -> FALSE
TraceNext == l <= Len(Trace) /\ Do(Trace[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
