------------------------------ MODULE AllocTrace ------------------------------
(* Explains recorded histories of the containers by the heap alone: a kind   *)
(* whose capacity is part of its type never allocates, whatever is done.     *)
EXTENDS TraceLib

VARIABLES l, heap

TraceInit == l = 1 /\ heap = FALSE
Do(e) == CASE e.op = "case"  -> heap' = ("kind" \in DOMAIN e /\ e.kind = "vector")
           [] e.op = "crash" -> FALSE
           [] e.op = "end"   -> UNCHANGED heap
           [] OTHER -> (("st" \in DOMAIN e /\ e.st = "ok") => heap \/ e.al = 0) /\ UNCHANGED heap
TraceNext == l <= Len(Trace) /\ Do(Trace[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<l, heap>>
=============================================================================
