------------------------------ MODULE Lifetime ------------------------------
(* Storage and object lifetime.  A cell is a pair <<block, offset>>: blocks  *)
(* above 0 are heap blocks, 0 is the stack and -1 static storage; no other   *)
(* block number is storage.  live maps the cell of every living object to    *)
(* its size.                                                                 *)
EXTENDS Integers, FiniteSets

VARIABLES blocks, live

lvars == <<blocks, live>>

Alive(x) == x \in DOMAIN live
Overlap(x, z, y) == x[1] = y[1] /\ x[2] < y[2] + live[y] /\ y[2] < x[2] + z
Free(x, z) == \A y \in DOMAIN live : ~Overlap(x, z, y)
Inside(x, z) == \/ x[1] \in {0, -1}
                \/ /\ x[1] \in DOMAIN blocks
                   /\ x[2] >= 0 /\ x[2] + z <= blocks[x[1]].n

Alloc(b, n, form, al) ==
    /\ b > 0 /\ b \notin DOMAIN blocks
    /\ blocks' = [k \in DOMAIN blocks \cup {b} |-> IF k = b THEN [n |-> n, form |-> form, al |-> al] ELSE blocks[k]]
    /\ live' = live

Release(b, n, form, al) ==
    /\ b \in DOMAIN blocks
    /\ blocks[b].form = form /\ blocks[b].al = al
    /\ n = -1 \/ n = blocks[b].n
    /\ \A x \in DOMAIN live : x[1] # b
    /\ blocks' = [k \in DOMAIN blocks \ {b} |-> blocks[k]]
    /\ live' = live

Make(x, z) ==
    /\ Inside(x, z) /\ Free(x, z)
    /\ live' = [y \in DOMAIN live \cup {x} |-> IF y = x THEN z ELSE live[y]]
    /\ blocks' = blocks
MakeFrom(x, z, f) == Alive(f) /\ f # x /\ Make(x, z)
Touch(x) == Alive(x) /\ UNCHANGED lvars
Assign(x, f) == Alive(x) /\ Alive(f) /\ UNCHANGED lvars
Kill(x) == /\ Alive(x)
           /\ live' = [y \in DOMAIN live \ {x} |-> live[y]]
           /\ blocks' = blocks

Clean == DOMAIN blocks = {} /\ DOMAIN live = {}

\* ---- properties --------------------------------------------------------------
ObjectsInStorage == \A x \in DOMAIN live : Inside(x, live[x])
Disjoint == \A x, y \in DOMAIN live :
              x = y \/ ~Overlap(x, live[x], y)
=============================================================================
