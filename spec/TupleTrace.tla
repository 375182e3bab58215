------------------------------ MODULE TupleTrace ------------------------------
(* Explains recorded histories of the real Tuple.                            *)
EXTENDS Tuple, TraceLib

VARIABLE l
Names(x) == IF n' > 1 THEN <<x[1], x[2], x[1], x[2]>> ELSE <<x[1], x[1]>>
Shown(e) == \A s \in Slots : /\ \A k \in 1..4 : Fits(e.t[s][k], t'[s])
                             /\ Fits(e.t[s][5], Names(t'[s]))
Act(e) ==
  CASE e.op \in {"make", "maket"}   -> Make(e.s, e.a)
    [] e.op = "set"                 -> Set(e.s, e.a[1] + 1, e.a[2])
    [] e.op \in {"copy", "cassign"} -> Copy(e.s, e.a[1] + 1)
    [] e.op \in {"move", "massign"} -> Move(e.s, e.a[1] + 1)
    [] e.op = "swap"                -> Swap(e.s, e.a[1] + 1)
    [] e.op = "eq"                  -> Ask(Same(e.s, e.a[1] + 1))
    [] e.op = "ne"                  -> Ask(~Same(e.s, e.a[1] + 1))
    [] e.op = "match"               -> Match(e.s)
    [] OTHER -> FALSE
TraceInit == l = 1 /\ n = 1 /\ t = <<>> /\ st = "" /\ res = 0 /\ seen = <<>>
Do(e) ==
  CASE e.op = "case"  -> n' = e.n /\ t' = [s \in Slots |-> [i \in 1..e.n |-> 0]] /\ st' = "ok" /\ res' = 0 /\ seen' = <<>>
    [] e.op = "start" -> UNCHANGED tuvars /\ Shown(e)
    [] e.op = "end"   -> UNCHANGED tuvars
    [] e.op = "crash" -> FALSE
    [] OTHER          -> Act(e) /\ e.st = st' /\ e.r = res' /\ e.ref /\ e.seen = seen' /\ Shown(e)
TraceNext == l <= Len(Trace) /\ Do(Trace[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<tuvars, l>>
=============================================================================
