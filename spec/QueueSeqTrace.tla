---------------------------- MODULE QueueSeqTrace ----------------------------
(* Explains recorded histories of one thread using one real queue.           *)
EXTENDS Queue, TraceLib
VARIABLES l, kind, cap, obj
tvars == <<l, kind, cap, obj>>

Op(e) == IF e.op = "enqrv" THEN "enq" ELSE e.op
Do(e) ==
  CASE e.op = "case"  -> kind' = e.kind /\ cap' = e.n /\ obj' = FreshQ
    [] e.op = "end"   -> UNCHANGED <<kind, cap, obj>>
    [] e.op = "crash" -> FALSE
    [] OTHER -> /\ e.st = "ok"
                /\ \E x \in Effects(kind, cap, obj, Op(e), e.x) : obj' = x.s /\ e.r = x.r
                /\ UNCHANGED <<kind, cap>>
TraceInit == l = 1 /\ kind = "none" /\ cap = 0 /\ obj = FreshQ
TraceNext == l <= Len(Trace) /\ Do(Trace[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
