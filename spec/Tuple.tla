-------------------------------- MODULE Tuple --------------------------------
(* Two tuples of the same type as sequences of components.                   *)
EXTENDS Integers, Sequences

VARIABLES n, t, st, res, seen
tuvars == <<n, t, st, res, seen>>

Slots == 1..2
\* the value of a component that was moved from
Wild == -31999
Ok == st' = "ok" /\ UNCHANGED n
Quiet == res' = 0 /\ seen' = <<>> /\ Ok

Make(s, vs)  == Len(vs) = n /\ t' = [t EXCEPT ![s] = vs] /\ Quiet
Set(s, i, v) == i \in 1..n /\ t' = [t EXCEPT ![s][i] = v] /\ Quiet
Copy(s, u)   == t' = [t EXCEPT ![s] = t[u]] /\ Quiet
\* a move leaves its source with some components
Move(s, u)   == t' = (IF s = u THEN [t EXCEPT ![s] = [i \in 1..n |-> Wild]]
                      ELSE [t EXCEPT ![s] = t[u], ![u] = [i \in 1..n |-> Wild]]) /\ Quiet
Swap(s, u)   == t' = (IF s = u THEN t ELSE [t EXCEPT ![s] = t[u], ![u] = t[s]]) /\ Quiet
HasWild(s)   == \E i \in 1..n : t[s][i] = Wild
Same(s, u)   == \A i \in 1..n : t[s][i] = t[u][i]
Ask(b)       == UNCHANGED t /\ res' = (IF b THEN 1 ELSE 0) /\ seen' = <<>> /\ Ok
Match(s)     == UNCHANGED t /\ res' = n * 100 + t[s][1] /\ seen' = t[s] /\ Ok

\* a matching of two contents that forgives what was moved from
Fits(v, spec) == Len(v) = Len(spec) /\ \A i \in 1..Len(spec) : spec[i] = Wild \/ v[i] = spec[i]

SizeKept == \A s \in Slots : Len(t[s]) = n
\* equality is exactly agreement of every component
EqIsPointwise == ~HasWild(1) /\ ~HasWild(2) => (Same(1, 2) <=> t[1] = t[2])
=============================================================================
