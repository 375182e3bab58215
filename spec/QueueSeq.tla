------------------------------- MODULE QueueSeq -------------------------------
(* One thread using one queue: histories of the sequential objects of Queue,  *)
(* over every combination of lengths and ring positions of the two halves.    *)
EXTENDS Queue, TLC

CONSTANTS Kinds, Caps, MaxLen, Depth
VARIABLES kind, cap, obj, res, wf, wb, nv, hist
qvars == <<kind, cap, obj, res, wf, wb, nv, hist>>

I(x) == " " \o ToString(x)
Init == /\ kind \in Kinds /\ cap \in (IF kind = "d" THEN Caps \ {0} ELSE Caps)
        /\ obj = FreshQ /\ res = 0 /\ wf = 0 /\ wb = 0 /\ nv = 1
        /\ hist = kind \o I(cap) \o "|"
Step(o, v) == \E x \in Effects(kind, cap, obj, o, v) : obj' = x.s /\ res' = x.r
Mod(x) == IF cap = 0 THEN 0 ELSE x % cap
Enq == /\ cap > 0 \/ Len(obj.f) < MaxLen
       /\ Step("enq", nv) /\ nv' = nv + 1
       /\ (IF kind = "d" THEN wb' = Mod(wb + 1) /\ UNCHANGED wf ELSE wf' = Mod(wf + 1) /\ UNCHANGED wb)
       /\ \E o \in {"enq", "enqrv"} : hist' = hist \o o \o I(nv) \o ";"
Deq == Step("deq", 0) /\ UNCHANGED <<wf, wb, nv>> /\ hist' = hist \o "deq;"
Ask == kind # "b" /\ Step("empty", 0) /\ UNCHANGED <<wf, wb, nv>> /\ hist' = hist \o "empty;"
Swap == kind = "d" /\ Step("swap", 0) /\ wf' = wb /\ wb' = wf /\ UNCHANGED nv /\ hist' = hist \o "swap;"
Next == UNCHANGED <<kind, cap>> /\ (Enq \/ Deq \/ Ask \/ Swap)
Spec == Init /\ [][Next]_qvars

Bounded == cap > 0 => Len(obj.f) <= cap /\ Len(obj.b) <= cap
\* what is inside was put in, once, and is in order
Ordered == \A h \in {obj.f, obj.b} : \A i \in 2..Len(h) : h[i - 1] < h[i]
Apart == \A i \in 1..Len(obj.f), j \in 1..Len(obj.b) : obj.f[i] # obj.b[j]

Control == <<kind, cap, Len(obj.f), Len(obj.b), wf, wb>>
GenNext == Next /\ PrintT("S|" \o hist')
GenSpec == Init /\ [][GenNext]_qvars
SimEmit == TLCGet("level") = Depth => PrintT("S|" \o hist)
=============================================================================
