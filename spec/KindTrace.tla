------------------------------ MODULE KindTrace ------------------------------
(* Explains recorded results of the sequence functions by what is known of   *)
(* their arguments at compile time: the kind of the result, its bound, that  *)
(* its length stays within it, and that nothing bounded needs the heap.      *)
EXTENDS Prelude, TraceLib

VARIABLE l

V == INSTANCE Slices WITH src <- <<>>, ws <- <<>>, st <- ""

Kinded == {"map", "mapi", "append", "cmap", "concat", "intercalate", "fromfn", "fromfnct", "filter", "elemis", "findis"}
Fits(e) == LET k == ResultKind(e.fn, e.a, e.kd, e.nb)
           IN IF e.fn \in Kinded
              THEN /\ e.rk = k[1]
                   /\ e.rc = k[2]
                   /\ k[2] >= 0 => Len(e.r) <= k[2] /\ e.lal = 0
                   /\ k[1] = "array" => Len(e.r) = k[2]
              \* everything else returns a scalar or nothing and never allocates
              ELSE e.lal = 0

\* the type of a call that is not made
ViewFns == {"take", "drop", "takew", "dropw", "slice", "tail", "init"}
TypeOk(e) == LET k == IF e.fn \in ViewFns
                      THEN LET t == V!TypeAfter(V!SourceType(e.kd[1], e.nb[1]), e.fn, e.a[1], e.a[2], e.a[3]) IN <<V!ViewName(t), t[2]>>
                      ELSE ResultKind(e.fn, e.a, e.kd, e.nb)
             IN e.rk = k[1] /\ e.rc = k[2]

TraceInit == l = 1
Do(e) == CASE e.op \in {"case", "end"} -> TRUE
           [] e.op = "call" -> e.st = "ok" /\ Fits(e)
           [] e.op = "type" -> TypeOk(e)
           [] OTHER -> FALSE
TraceNext == l <= Len(Trace) /\ Do(Trace[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
