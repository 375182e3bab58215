------------------------------ MODULE EnumTrace ------------------------------
(* Explains recorded histories of the real Enum.                            *)
EXTENDS Enum, TraceLib

VARIABLE l

\* index, access by type at every position and access by position agree
SeenBy(p, h) == /\ Len(p) = 1
                /\ p[1][1] = h.alt
                /\ h.val = Wild \/ p[1][2] = h.val
Seen(v) == \A s \in Slots : v.ix[s] = e'[s].alt /\ SeenBy(v.t[s], e'[s]) /\ SeenBy(v.i[s], e'[s]) /\ SeenBy(v.mt[s], e'[s]) /\ SeenBy(v.mi[s], e'[s])

HasWild(s) == e[s].val = Wild
EqOrWild(s, t, r, want) == IF HasWild(s) \/ HasWild(t)
                           THEN IF e[s].alt # e[t].alt THEN Answer(~want) ELSE Answer(r = 1)
                           ELSE Answer(Same(s, t) = want)

MatchOps == {"mfull", "mrev", "mval", "mvoid", "mfirst", "mlast", "mnone", "meven"}

Act(v) ==
  CASE v.op \in {"make", "makemv", "set"} -> Make(v.s, v.x, v.y)
    [] v.op \in {"writet", "writei"}      -> Write(v.s, v.x, v.y)
    [] v.op \in {"taket", "takei"}        -> Take(v.s, v.x)
    [] v.op \in {"copy", "cassign"}       -> Copy(v.s, v.x + 1)
    [] v.op \in {"move", "massign"}       -> Move(v.s, v.x + 1, v.ix[v.x + 1])
    [] v.op = "swap"                      -> Swap(v.s, v.x + 1)
    [] v.op = "eq"                        -> EqOrWild(v.s, v.x + 1, v.r, TRUE)
    [] v.op = "ne"                        -> EqOrWild(v.s, v.x + 1, v.r, FALSE)
    [] v.op \in MatchOps                  -> Match(v.s, Branches(v.op), HasWildcard(v.op))
    [] OTHER                              -> FALSE

\* values read from something moved from are not compared
Agree(seen, spec) == Len(seen) = Len(spec) /\ \A k \in 1..Len(spec) : spec[k] = Wild \/ seen[k] = spec[k]
ResOk(v) == IF v.op = "mvoid" THEN v.r = 0
            ELSE v.r = res' \/ (v.op \in MatchOps /\ arg' = <<Wild>>)

TraceInit == l = 1 /\ n = 1 /\ e = <<>> /\ st = "" /\ res = 0 /\ who = <<>> /\ arg = <<>>
Do(v) ==
  CASE v.op = "case"  -> n' = v.n /\ e' = [s \in Slots |-> Held(0, 0)] /\ st' = "ok" /\ res' = 0 /\ who' = <<>> /\ arg' = <<>>
    [] v.op = "start" -> UNCHANGED evars /\ Seen(v)
    [] v.op = "end"   -> UNCHANGED evars
    [] v.op = "crash" -> FALSE
    [] OTHER          -> Act(v) /\ v.st = st' /\ v.ref /\ ResOk(v) /\ v.who = who' /\ Agree(v.arg, arg') /\ Seen(v)

TraceNext == l <= Len(Trace) /\ Do(Trace[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<evars, l>>
=============================================================================
