----------------------------- MODULE CyclicTrace -----------------------------
(* Explains recorded histories of the real Vcb and Vcq by Cyclic.            *)
EXTENDS Cyclic, TraceLib

VARIABLE l

\* every way of looking at the containers shows the specified contents
Seen(e) == \A s \in Slots :
             /\ e.sz[s] = Len(w'[s])
             /\ e.em[s] = (Len(w'[s]) = 0)
             /\ \A k \in 1..Len(e.v[s]) : Matches(e.v[s][k], w'[s])

Ok(e) == e.st = "ok" /\ e.ref

TraceInit == l = 1 /\ kind = "none" /\ n = 0 /\ w = <<>> /\ res = 0

Do(e) ==
  CASE e.op = "case"    -> kind' = e.kind /\ n' = e.n /\ w' = [s \in Slots |-> Fresh(e.kind, e.n)] /\ res' = 0
    [] e.op = "start"   -> UNCHANGED cvars /\ Seen(e)
    [] e.op = "push"    -> Ok(e) /\ Push(e.s, e.x) /\ Seen(e)
    [] e.op = "pushself"-> Ok(e) /\ PushSelf(e.s, e.x) /\ Seen(e)
    [] e.op = "pop"     -> Ok(e) /\ Pop(e.s) /\ Matches(<<e.r>>, <<res'>>) /\ Seen(e)
    [] e.op = "copy"    -> Ok(e) /\ Copy(e.s, e.x + 1) /\ Seen(e)
    [] e.op = "cassign" -> Ok(e) /\ Copy(e.s, e.x + 1) /\ Seen(e)
    [] e.op = "move"    -> Ok(e) /\ Move(e.s, e.x + 1, e.sz[e.x + 1]) /\ Seen(e)
    [] e.op = "massign" -> Ok(e) /\ Move(e.s, e.x + 1, e.sz[e.x + 1]) /\ Seen(e)
    [] e.op = "fresh"   -> Ok(e) /\ Renew(e.s) /\ Seen(e)
    [] e.op = "end"     -> UNCHANGED cvars
    [] OTHER            -> FALSE

TraceNext == l <= Len(Trace) /\ Do(Trace[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<cvars, l>>
=============================================================================
