------------------------------ MODULE QueueTrace ------------------------------
(* Explains histories of the real queues, one event at a time: calls, returns *)
(* and where a run ended.                                                     *)
EXTENDS Queue, TraceLib

VARIABLES l, kind, cap, cs
vars == <<l, kind, cap, cs>>

TraceInit == l = 1 /\ kind = "b" /\ cap = 0 /\ cs = {}

Range_(s) == {s[i] : i \in 1..Len(s)}
Do(e) ==
  CASE e.op = "case" -> /\ kind' = e.kind
                        /\ cap' = e.cap
                        /\ cs' = {[s |-> Prepared(e.kind, e.cap, e.pe, e.pd), p |-> [t \in 1..e.n |-> Idle]]}
    [] e.op = "call" -> /\ e.w => MayWait(kind, e.o)
                        /\ cs' = Called(cs, e.t, e.o, e.v)
                        /\ UNCHANGED <<kind, cap>>
    [] e.op = "ret"  -> /\ cs' = Returned(kind, cap, cs, e.t, e.v)
                        /\ cs' # {}
                        /\ UNCHANGED <<kind, cap>>
    [] e.op = "stuck" -> MayStick(kind, cap, cs, Range_(e.ts)) /\ UNCHANGED <<kind, cap, cs>>
    [] e.op = "final" -> /\ \E c \in cs : c.s.f = e.a /\ c.s.b = e.b
                         /\ UNCHANGED <<kind, cap, cs>>
    [] e.op = "end"  -> UNCHANGED <<kind, cap, cs>>
    [] OTHER         -> FALSE

TraceNext == l <= Len(Trace) /\ Do(Trace[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
