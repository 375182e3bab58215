-------------------------------- MODULE SortGen --------------------------------
(* Vectors to sort: every short one, and long ones that put the boundaries   *)
(* of runs and merges everywhere.                                            *)
EXTENDS Integers, Sequences, TLC

CONSTANTS What, MaxLen, MaxKey, Lens

VARIABLE dummy
I(x) == " " \o ToString(x)
RECURSIVE JoinR(_, _, _)
JoinR(s, i, j) == IF i > j THEN "" ELSE IF i = j THEN I(s[i])
                  ELSE LET m == (i + j) \div 2 IN JoinR(s, i, m) \o JoinR(s, m + 1, j)
Text(s) == "v" \o JoinR(s, 1, Len(s)) \o ";"
Emit(fn, c, lo, hi, t) == PrintT("S|" \o fn \o I(c) \o I(lo) \o I(hi) \o "|" \o t)

Whole == {"sort", "unstable", "tim", "intro", "heap", "insertion"}
RangedFns == {"quick", "merge", "insrange"}
\* every function and order on one vector, over the whole of it
Everything(s, orders) ==
    LET n == Len(s)
        t == Text(s)
    IN /\ \A fn \in Whole, c \in orders : Emit(fn, c, 0, 0, t)
       /\ \A fn \in Whole \cup {"quick"} : Emit(fn, 9, 0, 0, t)
       /\ n > 0 => \A fn \in RangedFns, c \in orders : Emit(fn, c, 0, n - 1, t)
Main(s) == \A fn \in {"sort", "tim", "heap", "unstable"} : Emit(fn, 0, 0, 0, Text(s)) /\ Emit(fn, 2, 0, 0, Text(s))
Ranges(s) == LET n == Len(s) t == Text(s)
             IN \A lo, hi \in 0..(n - 1) : lo <= hi => \A fn \in RangedFns, c \in {0, 2} : Emit(fn, c, lo, hi, t)

Short(x0) == \A n \in 0..MaxLen : \A s \in [1..n -> 1..MaxKey] : Everything(s, {0, 1, 2, 3, 4})
SubRanges(x0) == \A n \in 1..(MaxLen - 1) : \A s \in [1..n -> 1..MaxKey] : Ranges(s)

\* long vectors
Poly(n, a, b, m) == [i \in 1..n |-> (a * i * i + b * i) % m]
Longs(n) == {Poly(n, a, b, m) : a \in {0, 1, 7}, b \in {1, 5, 30}, m \in {2, 5, 97, 1009}}
            \cup {[i \in 1..n |-> n - i], [i \in 1..n |-> 7], [i \in 1..n |-> IF 2 * i < n THEN i ELSE n - i]}
\* one element out of place
Moved(n) == {[i \in 1..n |-> IF i = p THEN k ELSE 2 * i] : p \in {1, n, (n + 1) \div 2}, k \in {0, n, 2 * n + 2}}
\* each run of 32 is k smaller keys followed by larger ones: merges meet at every offset
Steps(n) == {[i \in 1..n |-> IF ((i - 1) % 32) < ((p + q * ((i - 1) \div 32)) % 33) THEN 1 ELSE 2] : p \in {0, 1, 2, 15, 31, 32}, q \in {0, 1, 16, 31, 32}}
Long(x0) == \A n \in Lens : /\ \A s \in Longs(n) : Everything(s, {0, 1, 2})
                            /\ \A s \in Moved(n) \cup Steps(n) : Main(s)
\* vectors on which a quicksort partitions badly
Deep(x0) == \A n \in Lens : \A s \in {[i \in 1..n |-> i], [i \in 1..n |-> n - i], [i \in 1..n |-> 1]} :
              \A fn \in {"quick", "unstable", "intro", "heap", "merge", "sort"} : Emit(fn, 0, 0, n - 1, Text(s))
Init == dummy = 0 /\ CASE What = "short" -> Short(dummy) [] What = "ranges" -> SubRanges(dummy)
                       [] What = "long" -> Long(dummy) [] What = "deep" -> Deep(dummy)
Spec == Init /\ [][FALSE]_dummy
=============================================================================
