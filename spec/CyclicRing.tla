----------------------------- MODULE CyclicRing -----------------------------
(* The mirrored ring both containers are built on: 2n cells, every element   *)
(* stored at offset j and at j + n, so that the window starting at any       *)
(* offset is contiguous.  TLC checks that this representation refines the    *)
(* abstract containers of Cyclic, and enumerates its transitions (every pair *)
(* of ring offsets and sizes) as scripts for the real code.                  *)
EXTENDS Integers, Sequences, TLC

CONSTANTS Kinds, Caps, MaxVal

VARIABLES kind, n, buf, rd, wr, sz, nextv, res, hist

rvars == <<kind, n, buf, rd, wr, sz, nextv, res, hist>>

Slots == {1, 2}
None == -1

\* the window shown to the user
Window(s) == [i \in 1..sz[s] |-> buf[s][rd[s] + i]]

Abs == [s \in Slots |-> Window(s)]
A == INSTANCE Cyclic WITH w <- Abs

Empty(kd, m) == [i \in 1..(2 * m) |-> IF kd = "vcb" THEN 0 ELSE None]

Init == /\ kind \in Kinds
        /\ n \in Caps
        /\ buf = [s \in Slots |-> Empty(kind, n)]
        /\ rd = [s \in Slots |-> 0]
        /\ wr = [s \in Slots |-> 0]
        /\ sz = [s \in Slots |-> IF kind = "vcb" THEN n ELSE 0]
        /\ nextv = 1
        /\ res = 0
        /\ hist = kind \o " " \o ToString(n) \o "|"

Inc(o) == IF o + 1 = n THEN 0 ELSE o + 1

Log(t) == hist' = hist \o t \o ";"

Push(s, x) == /\ buf' = [buf EXCEPT ![s][wr[s] + 1] = x, ![s][wr[s] + n + 1] = x]
              /\ wr' = [wr EXCEPT ![s] = Inc(@)]
              /\ IF sz[s] < n THEN sz' = [sz EXCEPT ![s] = @ + 1] /\ rd' = rd
                              ELSE rd' = [rd EXCEPT ![s] = Inc(@)] /\ sz' = sz
              /\ res' = 0
              /\ UNCHANGED <<kind, n>>
              /\ Log("push " \o ToString(s - 1) \o " " \o ToString(x))

PushSelf(s, i) ==
           /\ i < sz[s]
           /\ LET x == buf[s][rd[s] + i + 1]
              IN buf' = [buf EXCEPT ![s][wr[s] + 1] = x, ![s][wr[s] + n + 1] = x]
           /\ wr' = [wr EXCEPT ![s] = Inc(@)]
           /\ IF sz[s] < n THEN sz' = [sz EXCEPT ![s] = @ + 1] /\ rd' = rd
                           ELSE rd' = [rd EXCEPT ![s] = Inc(@)] /\ sz' = sz
           /\ res' = 0
           /\ UNCHANGED <<kind, n, nextv>>
           /\ Log("pushself " \o ToString(s - 1) \o " " \o ToString(i))

Pop(s) == /\ kind = "vcq"
          /\ sz[s] > 0
          /\ res' = buf[s][rd[s] + 1]
          /\ buf' = [buf EXCEPT ![s][rd[s] + 1] = None, ![s][rd[s] + n + 1] = None]
          /\ rd' = [rd EXCEPT ![s] = Inc(@)]
          /\ sz' = [sz EXCEPT ![s] = @ - 1]
          /\ UNCHANGED <<kind, n, wr, nextv>>
          /\ Log("pop " \o ToString(s - 1))

\* a copy keeps the offset of its source
Take(s, t, name) ==
          /\ buf' = [buf EXCEPT ![s] = buf[t]]
          /\ rd' = [rd EXCEPT ![s] = rd[t]]
          /\ wr' = [wr EXCEPT ![s] = wr[t]]
          /\ sz' = [sz EXCEPT ![s] = sz[t]]
          /\ res' = 0
          /\ UNCHANGED <<kind, n, nextv>>
          /\ Log(name \o " " \o ToString(s - 1) \o " " \o ToString(t - 1))

Renew(s) == /\ buf' = [buf EXCEPT ![s] = Empty(kind, n)]
            /\ rd' = [rd EXCEPT ![s] = 0]
            /\ wr' = [wr EXCEPT ![s] = 0]
            /\ sz' = [sz EXCEPT ![s] = IF kind = "vcb" THEN n ELSE 0]
            /\ res' = 0
            /\ UNCHANGED <<kind, n, nextv>>
            /\ Log("fresh " \o ToString(s - 1))

Others(s) ==
          \/ Pop(s)
          \/ \E i \in 0..(n - 1) : PushSelf(s, i)
          \/ \E t \in Slots : \/ s # t /\ (Take(s, t, "copy") \/ Take(s, t, "move"))
                              \/ Take(s, t, "cassign")
                              \/ Take(s, t, "massign")
          \/ Renew(s)

Next == \E s \in Slots : Others(s) \/ (nextv' = nextv /\ \E x \in 1..MaxVal : Push(s, x))

Spec == Init /\ [][Next]_rvars

\* ---- the representation is sound ---------------------------------------
Mirrored == \A s \in Slots, i \in 1..n : buf[s][i] = buf[s][i + n]
OffsetsOk == \A s \in Slots : rd[s] \in 0..(n - 1) /\ wr[s] = (rd[s] + sz[s]) % n
NoHole == \A s \in Slots : \A i \in 1..sz[s] : Window(s)[i] # None
Bounded == A!Bounded

\* (in this representation a move copies, which is one of the things a move may do)
ANext == \/ \E s \in Slots, x \in 1..MaxVal : A!Push(s, x)
         \/ \E s \in Slots, i \in 0..(n - 1) : A!PushSelf(s, i)
         \/ \E s \in Slots : A!Pop(s) \/ A!Renew(s)
         \/ \E s, t \in Slots : A!Copy(s, t)
RefinesCyclic == [][ANext]_<<kind, n, Abs, res>>

\* ---- script generation ---------------------------------------------------
MCView == <<kind, n, buf, rd, wr, sz, res>>

\* every pushed value is new, so that elements cannot be confused
GenStep == \E s \in Slots : Others(s) \/ (nextv' = nextv + 1 /\ Push(s, nextv))

\* one script per transition of the ring's control state
Control == <<kind, n, rd, sz>>
GenNext == GenStep /\ PrintT("S|" \o hist')
GenSpec == Init /\ [][GenNext]_rvars

CONSTANT Depth
\* long random histories: printed when the depth is reached
SimSpec == Init /\ [][GenStep]_rvars
SimEmit == TLCGet("level") = Depth => PrintT("S|" \o hist)
=============================================================================
