------------------------------- MODULE RaceTrace -------------------------------
(* Explains the synchronizations and memory accesses that schedules of the    *)
(* real queues performed: no two of them race, and nothing is stuck or spins  *)
(* but blocking dequeues that have nothing to take.                           *)
EXTENDS Race, TraceLib

VARIABLES l, kind, cap, open, left
vars == <<rvars, l, kind, cap, open, left>>

TraceInit == /\ l = 1 /\ kind = "b" /\ cap = 0 /\ open = <<>> /\ left = 0
             /\ ts = {} /\ C = <<>> /\ K = <<>> /\ A = <<>> /\ P = <<>> /\ F = <<>>
             /\ Wr = <<>> /\ Rd = <<>> /\ AW = <<>> /\ AR = <<>>

Same == UNCHANGED <<kind, cap, open, left>>
Range_(s) == {s[i] : i \in 1..Len(s)}
Do(e) ==
  CASE e.op = "case"   -> RaceStart(e.n) /\ kind' = e.kind /\ cap' = e.cap /\ open' = [t \in 1..e.n |-> ""] /\ left' = e.pe - e.pd
    [] e.op = "rd"     -> Reads(e.t, e.x) /\ Same
    [] e.op = "wr"     -> Writes(e.t, e.x) /\ Same
    [] e.op = "lock"   -> Locked(e.t, e.m) /\ Same
    [] e.op = "unlock" -> Unlocked(e.t, e.m) /\ Same
    [] e.op = "ald"    -> ALoad(e.t, e.x, e.mo) /\ Same
    [] e.op = "ast"    -> AStore(e.t, e.x, e.mo) /\ Same
    [] e.op = "rmw"    -> RMW(e.t, e.x, e.mo) /\ Same
    [] e.op = "fence"  -> Fence(e.t, e.mo) /\ Same
    [] e.op = "call"   -> /\ open' = [open EXCEPT ![e.t] = e.o]
                          /\ left' = IF e.o = "enq" THEN left + 1 ELSE left
                          /\ UNCHANGED <<rvars, kind, cap>>
    [] e.op = "ret"    -> /\ open' = [open EXCEPT ![e.t] = ""]
                          /\ left' = IF e.o = "deq" THEN left - 1 ELSE left
                          /\ UNCHANGED <<rvars, kind, cap>>
    \* elements that were dropped are not known here, so only the unbounded queue shows that nothing was left
    [] e.op = "stuck"  -> /\ kind = "b"
                          /\ \A t \in Range_(e.ts) : open[t] = "deq"
                          /\ cap = 0 => left = 0
                          /\ UNCHANGED rvars /\ Same
    [] e.op = "end"    -> UNCHANGED rvars /\ Same
    [] OTHER           -> FALSE

TraceNext == l <= Len(Trace) /\ Do(Trace[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
