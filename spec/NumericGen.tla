------------------------------ MODULE NumericGen ------------------------------
(* Calls of the reductions and helpers, printed as scripts:                  *)
(* type|red mode kind bound rotation m...   type|sc mode a b c               *)
(* mode 0: unit 1; 1: a unit other than 1; 2: ranks among the extremes.      *)
EXTENDS Integers, Sequences, TLC

CONSTANTS What, MaxLen, Top

I(x) == ToString(x)
RECURSIVE Write(_)
Write(m) == IF m = <<>> THEN "" ELSE " " \o I(m[1]) \o Write(Tail(m))
Types == {"i8", "u8", "i16", "i32", "u32", "i64", "u64", "f", "d"}
Unsigned == {"u8", "u32", "u64"}

\* kind and bound of sequences that can hold n elements (kinds as in seqs.hpp), and the rotations of rings
Kinds(n) == ({0} \X ({n} \cap {1, 2, 3, 4})) \cup ({1, 2, 3} \X ({n} \cap {1, 3})) \cup ({4} \X {k \in {1, 2, 4} : n <= k})
            \cup ({5} \X {k \in {1, 4} : n <= k}) \cup ({6} \X {k \in {1, 3} : n <= k}) \cup ({7, 8, 9, 12} \X {0})
            \cup (IF n = 3 THEN {<<10, 3>>} ELSE {}) \cup (IF n <= 4 THEN {<<11, 4>>} ELSE {})
Rots(k) == IF k \in {3, 6} THEN {0, 1, 2} ELSE {0}
Seqs == UNION {[1..n -> (-Top)..Top] : n \in 0..MaxLen}
Nat0(m) == \A i \in 1..Len(m) : m[i] >= 0
Reds(z) == {t \o "|red " \o I(mode) \o " " \o I(k[1]) \o " " \o I(k[2]) \o " " \o I(r) \o Write(m) :
              <<t, mode, m, k, r>> \in {q \in Types \X {0, 1, 2} \X Seqs \X (UNION {Kinds(n) : n \in 0..MaxLen}) \X {0, 1, 2} :
                  q[4] \in Kinds(Len(q[3])) /\ q[5] \in Rots(q[4][1]) /\ (q[1] \in Unsigned => Nat0(q[3])) /\ (q[2] = 2 => q[3] # <<>>)}}
Scs(z) == {t \o "|sc " \o I(mode) \o Write(m) : <<t, mode, m>> \in {q \in Types \X {0, 1, 2} \X [1..3 -> (-Top)..Top] : q[1] \in Unsigned => Nat0(q[3])}}
\* long ones, for the kinds without a bound
Longs(z) == {t \o "|red 0 " \o I(k) \o " 0 0" \o Write([i \in 1..n |-> IF i = p THEN s ELSE IF s > 0 THEN 1 ELSE -1]) :
               t \in {"i32", "i64", "f", "d", "i16"}, k \in {7, 8, 9}, n \in {5, 8, 17}, p \in {1, 2, 5}, s \in {9, -9}}

Set == CASE What = "red" -> Reds(0) [] What = "sc" -> Scs(0) [] OTHER -> Longs(0)
VARIABLE s
Init == s = ""
Next == s = "" /\ \E x \in Set : s' = x /\ PrintT("S|" \o x)
Spec == Init /\ [][Next]_s
=============================================================================
