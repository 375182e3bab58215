---------------------------- MODULE LifetimeModel ----------------------------
(* The storage management of the three kinds of owner, step by step:        *)
(*  "heap"  a growing heap vector (relocation on growth, shifting insert and *)
(*          erase, resize, copy assignment),                                 *)
(*  "ring"  a mirrored ring (each element stored twice, n cells apart),      *)
(*  "tag"   a tagged union (destroy the old alternative, make the new one).  *)
(* Every operation is a plan of elementary lifetime actions; the model shows *)
(* that each elementary action is allowed by Lifetime when its turn comes,   *)
(* and that destroying the owners leaves nothing.                            *)
EXTENDS Lifetime, Sequences

CONSTANTS MaxSize, RingN

VARIABLES own, plan, nb, over

mvars == <<blocks, live, own, plan, nb, over>>

\* the owners: a heap vector, a ring in static storage at offset 100, a tagged union at 200
Init == /\ blocks = [x \in {} |-> 0] /\ live = [x \in {} |-> 0]
        /\ own = [b |-> 0, sz |-> 0, cp |-> 0, rs |-> 0, rr |-> 0, tag |-> 0]
        /\ plan = <<>> /\ nb = 1 /\ over = FALSE

M(x) == [a |-> "make", x |-> x]
C(x, f) == [a |-> "from", x |-> x, f |-> f]
K(x) == [a |-> "kill", x |-> x]
A(b, n) == [a |-> "alloc", b |-> b, n |-> n]
R(b) == [a |-> "free", b |-> b]

Cat(s) == LET F[i \in 0..Len(s)] == IF i = 0 THEN <<>> ELSE F[i - 1] \o s[i] IN F[Len(s)]
Each(k, Op(_)) == [i \in 1..k |-> Op(i - 1)]

\* ---- heap vector ------------------------------------------------------------
Cell(b, i) == <<b, i>>
Move(from, to, k) == Cat([i \in 1..k |-> <<C(Cell(to, i - 1), Cell(from, i - 1)), K(Cell(from, i - 1))>>])
Relocate(to, cp) == <<A(to, cp)>> \o Move(own.b, to, own.sz) \o (IF own.b = 0 THEN <<>> ELSE <<R(own.b)>>)

Push == /\ own.sz < MaxSize
        /\ IF own.sz + 1 > own.cp
           THEN /\ plan' = Relocate(nb, 2 * own.sz + 1) \o <<M(Cell(nb, own.sz))>>
                /\ own' = [own EXCEPT !.b = nb, !.cp = 2 * own.sz + 1, !.sz = @ + 1] /\ nb' = nb + 1
           ELSE /\ plan' = <<M(Cell(own.b, own.sz))>> /\ own' = [own EXCEPT !.sz = @ + 1] /\ nb' = nb
\* make room at i by moving up from the end, then make the new element
Insert(i) == /\ own.sz < own.cp /\ i <= own.sz /\ own.sz < MaxSize
             /\ plan' = Cat([k \in 1..(own.sz - i) |->
                               <<C(Cell(own.b, own.sz - k + 1), Cell(own.b, own.sz - k)), K(Cell(own.b, own.sz - k))>>])
                        \o <<M(Cell(own.b, i))>>
             /\ own' = [own EXCEPT !.sz = @ + 1] /\ nb' = nb
Erase(i) == /\ i < own.sz
            /\ plan' = <<K(Cell(own.b, i))>>
                       \o Cat([k \in 1..(own.sz - i - 1) |->
                                 <<C(Cell(own.b, i + k - 1), Cell(own.b, i + k)), K(Cell(own.b, i + k))>>])
            /\ own' = [own EXCEPT !.sz = @ - 1] /\ nb' = nb
Clear == /\ plan' = Each(own.sz, LAMBDA i : K(Cell(own.b, i))) /\ own' = [own EXCEPT !.sz = 0] /\ nb' = nb

\* ---- mirrored ring -----------------------------------------------------------
RingCell(i, m) == <<-1, 100 + i + m * RingN>>
RPush == LET w == (own.rr + own.rs) % RingN
         IN /\ plan' = (IF own.rs = RingN THEN <<K(RingCell(w, 0)), K(RingCell(w, 1))>> ELSE <<>>)
                       \o <<M(RingCell(w, 0)), C(RingCell(w, 1), RingCell(w, 0))>>
            /\ own' = IF own.rs = RingN THEN [own EXCEPT !.rr = (@ + 1) % RingN] ELSE [own EXCEPT !.rs = @ + 1]
            /\ nb' = nb
RPop == /\ own.rs > 0
        /\ plan' = <<K(RingCell(own.rr, 0)), K(RingCell(own.rr, 1))>>
        /\ own' = [own EXCEPT !.rr = (@ + 1) % RingN, !.rs = @ - 1] /\ nb' = nb
RClear == Cat([i \in 1..own.rs |-> <<K(RingCell((own.rr + i - 1) % RingN, 0)), K(RingCell((own.rr + i - 1) % RingN, 1))>>])

\* ---- tagged union: alternative k has size k ------------------------------------
TagCell == <<-1, 200>>
Retag(k) == /\ plan' = (IF own.tag = 0 THEN <<>> ELSE <<K(TagCell)>>) \o <<M(TagCell)>>
            /\ own' = [own EXCEPT !.tag = k] /\ nb' = nb

Finish == /\ plan' = Each(own.sz, LAMBDA i : K(Cell(own.b, i))) \o (IF own.b = 0 THEN <<>> ELSE <<R(own.b)>>)
                     \o RClear \o (IF own.tag = 0 THEN <<>> ELSE <<K(TagCell)>>)
          /\ over' = TRUE /\ UNCHANGED <<own, nb>>

Allowed(p) == CASE p.a = "make" -> Inside(p.x, 1) /\ Free(p.x, 1)
                [] p.a = "from" -> Inside(p.x, 1) /\ Free(p.x, 1) /\ Alive(p.f) /\ p.f # p.x
                [] p.a = "kill" -> Alive(p.x)
                [] p.a = "alloc" -> p.b \notin DOMAIN blocks
                [] p.a = "free" -> p.b \in DOMAIN blocks /\ \A x \in DOMAIN live : x[1] # p.b
Step == /\ plan # <<>>
        /\ LET p == Head(plan)
           IN CASE p.a = "make" -> Make(p.x, 1)
                [] p.a = "from" -> MakeFrom(p.x, 1, p.f)
                [] p.a = "kill" -> Kill(p.x)
                [] p.a = "alloc" -> Alloc(p.b, p.n, "one", 0)
                [] p.a = "free" -> Release(p.b, -1, "one", 0)
        /\ plan' = Tail(plan) /\ UNCHANGED <<own, nb, over>>

Call == /\ plan = <<>> /\ ~over /\ UNCHANGED lvars
        /\ \/ Push /\ over' = over
           \/ \E i \in 0..MaxSize : (Insert(i) \/ Erase(i)) /\ over' = over
           \/ Clear /\ over' = over
           \/ RPush /\ over' = over
           \/ RPop /\ over' = over
           \/ \E k \in 1..2 : Retag(k) /\ over' = over
           \/ Finish

Spec == Init /\ [][Step \/ Call]_mvars

\* ---- properties ----------------------------------------------------------------
EachStepAllowed == plan # <<>> => Allowed(Head(plan))
NothingLeft == over /\ plan = <<>> => Clean
NamesBounded == nb <= 8
=============================================================================
