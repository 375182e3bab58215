------------------------------- MODULE QueueAbs -------------------------------
(* A linearizable queue as a state machine: calls start, take effect at one   *)
(* instant as on the sequential object, and return.                           *)
EXTENDS Queue
CONSTANTS Kind, Cap, Threads, Consumer, Vals
VARIABLES obj, p

Ops(t) == CASE Kind = "b" -> {"enq", "deq"}
            [] Kind = "n" -> {"enq", "deq", "empty"}
            [] OTHER -> IF t = Consumer THEN {"deq", "empty", "swap"} ELSE {"enq"}

Init == obj = FreshQ /\ p = [t \in Threads |-> Idle]
Invoke(t) == /\ p[t] = Idle
             /\ \E o \in Ops(t), v \in Vals \cup {0} : p' = [p EXCEPT ![t] = Pend(o, v)]
             /\ UNCHANGED obj
Effect(t) == /\ p[t].st = "pend"
             /\ \E x \in Effects(Kind, Cap, obj, p[t].o, p[t].v) : obj' = x.s /\ p' = [p EXCEPT ![t] = Done(x.r)]
Return(t) == p[t].st = "done" /\ p' = [p EXCEPT ![t] = Idle] /\ UNCHANGED obj
Next == \E t \in Threads : Invoke(t) \/ Effect(t) \/ Return(t)
Spec == Init /\ [][Next]_<<obj, p>>
=============================================================================
