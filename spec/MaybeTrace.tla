------------------------------ MODULE MaybeTrace ------------------------------
(* Explains recorded histories of the real Maybe.                           *)
EXTENDS Maybe, TraceLib

VARIABLE l

Agree(seen, spec) == Len(seen) = Len(spec) /\ \A k \in 1..Len(spec) : spec[k] = Wild \/ seen[k] = spec[k]
\* is_nothing, has_value, bool, index and match agree; value and get return the value or raise
Seen(v) == \A s \in Slots :
             LET o == v.m[s]
                 b == Len(m'[s])
             IN /\ \A k \in 1..Len(o[1]) : o[1][k] = b
                /\ Agree(o[2], m'[s]) /\ Agree(o[3], m'[s])

Act(v) ==
  CASE v.op \in {"just", "justmv", "setjust"} -> Become(v.s, Just(v.x))
    [] v.op \in {"none", "setnone"} -> Become(v.s, Nothing)
    [] v.op \in {"copy", "cassign"} -> Copy(v.s, v.x + 1)
    [] v.op \in {"move", "massign"} -> Move(v.s, v.x + 1, v.m[v.x + 1][1][4] = 1)
    [] v.op = "value"  -> Value(v.s)
    [] v.op = "take"   -> Take(v.s)
    [] v.op = "pure"   -> DoPure(v.s, v.x)
    [] v.op = "fmap"   -> DoFmap(v.s, v.x)
    [] v.op = "ap"     -> DoAp(v.s, v.x, v.y = 1)
    [] v.op = "bind"   -> DoBind(v.s, v.x)
    [] v.op \in {"assocl", "assocr"} -> DoAssoc(v.s)
    [] v.op \in {"compl", "compr"}   -> DoComp(v.s)
    [] v.op \in {"ident", "rightid"} -> DoIdent(v.s)
    [] v.op = "leftid" -> DoLeftId(v.x)
    [] OTHER           -> FALSE

TraceInit == l = 1 /\ m = <<>> /\ st = "" /\ out = <<>> /\ calls = <<>>
Do(v) ==
  CASE v.op = "case"  -> m' = [s \in Slots |-> Nothing] /\ st' = "ok" /\ out' = <<>> /\ calls' = <<>>
    [] v.op = "start" -> UNCHANGED mvars /\ Seen(v)
    [] v.op = "end"   -> UNCHANGED mvars
    [] v.op = "crash" -> FALSE
    [] OTHER          -> Act(v) /\ st' = v.st /\ v.ref /\ Agree(v.r, out') /\ v.calls = calls' /\ Seen(v)

TraceNext == l <= Len(Trace) /\ Do(Trace[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<mvars, l>>
=============================================================================
