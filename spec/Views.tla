-------------------------------- MODULE Views --------------------------------
(* View objects as windows [off, len] on one source (off = -1: no address).  *)
(* A view owns nothing: making, converting, copying and assigning views      *)
(* moves no element, and a write to the source is seen through all of them.  *)
(*   "a"  ArrayView<A, n>:   always n elements                               *)
(*   "b"  ArrVecView<A, n>:  its own length, capacity n                      *)
(*   "v"  VectorView<A>:     its own length                                  *)
(*   "s"  StringView:        as "v", and made from C strings                 *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES src, w, st, res
vvars == <<src, w, st, res>>

\* slot -> <<kind, n>>
Slot(set) == IF set = "str" THEN <<<<"s", 0>>, <<"s", 0>>, <<"s", 0>>>>
             ELSE <<<<"a", 2>>, <<"a", 2>>, <<"a", 3>>, <<"a", 0>>, <<"b", 4>>, <<"b", 4>>, <<"v", 0>>, <<"v", 0>>>>
Win(off, len) == [off |-> off, len |-> len]
Default(k) == Win(-1, IF k[1] = "a" THEN k[2] ELSE 0)
Defaults(set) == [s \in 1..Len(Slot(set)) |-> Default(Slot(set)[s])]

Show(v, x) == IF x.off < 0 THEN <<>> ELSE SubSeq(v, x.off + 1, x.off + x.len)
\* a C string starts at off and ends before the next terminator
RECURSIVE CLen(_, _)
CLen(v, off) == IF off >= Len(v) \/ v[off + 1] = 0 THEN 0 ELSE 1 + CLen(v, off + 1)

Put(s, x) == w' = [w EXCEPT ![s] = x] /\ st' = "ok" /\ res' = 0 /\ UNCHANGED src
Refuse == UNCHANGED <<src, w>> /\ st' = "error" /\ res' = 0
Say(r) == UNCHANGED <<src, w>> /\ st' = "ok" /\ res' = r

Make(s, off, len) == IF off < 0 /\ len > 0 THEN Refuse ELSE Put(s, Win(off, len))
MakeC(s, off) == Put(s, Win(off, CLen(src, off)))
Copy(s, t) == Put(s, w[t])                                  \* also between kinds
New(s, k) == Put(s, Default(k))
\* the same window: the same place and the same length
Same(s, t) == Say(IF w[s] = w[t] THEN 1 ELSE 0)
\* the same characters as a C string (src and the other are terminated by 0)
EqChars(s, cs) == Say(IF Show(src, w[s]) = cs THEN 1 ELSE 0)
Fits(k, x) == IF x <= k[2] THEN Say(0) ELSE Refuse           \* resize and reserve of an ArrayView
Write(i, x) == src' = [src EXCEPT ![i + 1] = x] /\ st' = "ok" /\ res' = 0 /\ UNCHANGED w

\* ---- what every behaviour must keep -------------------------------------------
Inside == \A s \in DOMAIN w : w[s].off >= 0 => w[s].off + w[s].len <= Len(src)
=============================================================================
