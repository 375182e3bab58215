-------------------------------- MODULE Enum --------------------------------
(* Enum<A0, ..., A(n-1)>: exactly one alternative with one value.           *)
(* Branches of a match are numbered like the alternatives; the wildcard is   *)
(* 900.  The result of a branch is 1000 * number + value.                    *)
EXTENDS Integers, Sequences

VARIABLES n, e, st, res, who, arg

evars == <<n, e, st, res, who, arg>>

Slots == {1, 2}
\* the value of something that was moved from
Wild == -2000000000
WildBranch == 900

Held(a, v) == [alt |-> a, val |-> v]

Quiet == who' = <<>> /\ arg' = <<>> /\ UNCHANGED n
Become(s, h) == e' = [e EXCEPT ![s] = h] /\ st' = "ok" /\ res' = 0 /\ Quiet
Fail == e' = e /\ st' = "error" /\ res' = 0 /\ Quiet

Make(s, a, v) == a < n /\ Become(s, Held(a, v))
Copy(s, t) == Become(s, e[t])
\* the source keeps some alternative with some value
Move(s, t, left) == IF s = t THEN Become(s, e[s])
                    ELSE /\ left < n
                         /\ e' = [e EXCEPT ![s] = e[t], ![t] = Held(left, Wild)]
                         /\ st' = "ok" /\ res' = 0 /\ Quiet
Swap(s, t) == e' = [e EXCEPT ![s] = e[t], ![t] = e[s]] /\ st' = "ok" /\ res' = 0 /\ Quiet
\* access to alternative a
Write(s, a, v) == IF e[s].alt = a THEN Become(s, Held(a, v)) ELSE Fail
Take(s, a) == IF e[s].alt = a
              THEN /\ e' = [e EXCEPT ![s] = Held(a, Wild)] /\ st' = "ok" /\ res' = 0 /\ who' = <<>>
                   /\ arg' = <<e[s].val>> /\ UNCHANGED n
              ELSE Fail
Same(s, t) == e[s].alt = e[t].alt /\ e[s].val = e[t].val
Answer(b) == e' = e /\ st' = "ok" /\ res' = (IF b THEN 1 ELSE 0) /\ Quiet
\* match with the specific branches bs, and a wildcard if wild
Match(s, bs, wild) ==
    LET a == e[s].alt
        b == IF a \in bs THEN a ELSE WildBranch
        v == IF b = WildBranch THEN 0 ELSE e[s].val
    IN /\ a \in bs \/ wild
       /\ e' = e /\ st' = "ok" /\ UNCHANGED n
       /\ who' = <<b>> /\ arg' = <<v>>
       /\ res' = 1000 * b + v

Alts == 0..(n - 1)
Branches(op) == CASE op \in {"mfull", "mrev", "mval", "mvoid"} -> Alts
                  [] op = "mfirst" -> {0}
                  [] op = "mlast" -> {n - 1}
                  [] op = "mnone" -> {}
                  [] op = "meven" -> {a \in Alts : a % 2 = 0}
HasWildcard(op) == op \notin {"mfull", "mrev", "mval", "mvoid"}

\* ---- properties --------------------------------------------------------------
OneAlternative == \A s \in Slots : e[s].alt \in Alts
OneBranch == Len(who) <= 1 /\ (who # <<>> => \E s \in Slots : who[1] \in {e[s].alt, WildBranch})
ErrorsAreInert == [][st' = "error" => e' = e]_evars
=============================================================================
