------------------------------- MODULE Cyclic -------------------------------
(* The cyclic containers as their users see them.                            *)
(*   kind "vcq": a bounded FIFO of capacity n that drops its oldest element. *)
(*   kind "vcb": a window that always shows the last n values pushed.        *)
(* w[s] is the contents of container s, oldest first.                        *)
EXTENDS Integers, Sequences

VARIABLES kind, n, w, res

cvars == <<kind, n, w, res>>

Slots == {1, 2}

LastOf(s, k) == IF Len(s) <= k THEN s ELSE SubSeq(s, Len(s) - k + 1, Len(s))

Fresh(kd, m) == IF kd = "vcb" THEN [i \in 1..m |-> 0] ELSE <<>>

Start(kd, m) == /\ kind = kd
                /\ n = m
                /\ w = [s \in Slots |-> Fresh(kd, m)]
                /\ res = 0

\* push_back(x): at most the last n values are kept
Push(s, x) == /\ w' = [w EXCEPT ![s] = LastOf(Append(@, x), n)]
              /\ res' = 0
              /\ UNCHANGED <<kind, n>>

\* push_back(c[i]) for an element of the container itself (0-based i)
PushSelf(s, i) == i < Len(w[s]) /\ Push(s, w[s][i + 1])

\* pop_front(): exactly the oldest
Pop(s) == /\ kind = "vcq"
          /\ w[s] # <<>>
          /\ res' = Head(w[s])
          /\ w' = [w EXCEPT ![s] = Tail(@)]
          /\ UNCHANGED <<kind, n>>

\* copy construction and copy assignment (s = t included)
Copy(s, t) == /\ w' = [w EXCEPT ![s] = w[t]]
              /\ res' = 0
              /\ UNCHANGED <<kind, n>>

\* An element that was moved from has some value, we do not say which.
Wild == -2000000000
Matches(seen, spec) == /\ Len(seen) = Len(spec)
                       /\ \A i \in 1..Len(spec) : spec[i] = Wild \/ seen[i] = spec[i]

\* move construction and move assignment: the source keeps some number of
\* moved-from elements, left; a self-move changes nothing
Move(s, t, left) == /\ IF s = t THEN w' = w
                       ELSE /\ IF kind = "vcb" THEN left = n ELSE left \in 0..n
                            /\ w' = [w EXCEPT ![s] = w[t], ![t] = [i \in 1..left |-> Wild]]
                    /\ res' = 0
                    /\ UNCHANGED <<kind, n>>

Renew(s) == /\ w' = [w EXCEPT ![s] = Fresh(kind, n)]
            /\ res' = 0
            /\ UNCHANGED <<kind, n>>

\* ---- properties -------------------------------------------------------
Bounded == \A s \in Slots : IF kind = "vcb" THEN Len(w[s]) = n ELSE Len(w[s]) <= n
=============================================================================
