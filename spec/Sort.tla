--------------------------------- MODULE Sort ---------------------------------
(* What it means to have sorted.  The elements are numbered 1..Len(in) in    *)
(* their original order and have keys; ids is the order after the call.      *)
EXTENDS Integers, Sequences, FiniteSets

\* the strict weak orders used
Below(c, x, y) == CASE c \in {0, 9} -> x < y
                    [] c = 1 -> x > y
                    [] c = 2 -> (x \div 2) < (y \div 2)
                    [] c = 3 -> FALSE
                    [] OTHER -> (x % 3) < (y % 3)
IsPermutation(in, ids) == Len(ids) = Len(in) /\ {ids[i] : i \in 1..Len(ids)} = 1..Len(in)
Ordered(c, ks, lo, hi) == \A i \in lo..(hi - 1) : ~Below(c, ks[i + 1], ks[i])
\* equal elements keep their order
Kept(c, ks, ids, lo, hi) == \A i \in lo..(hi - 1) :
                              ~Below(c, ks[i], ks[i + 1]) /\ ~Below(c, ks[i + 1], ks[i]) => ids[i] < ids[i + 1]
Untouched(in, ids, lo, hi) == \A i \in 1..Len(in) : (i < lo \/ i > hi) => ids[i] = i

Stable == {"sort", "tim", "insertion", "insrange"}
Ranged == {"quick", "merge", "insrange"}

\* a call of fn on the range lo..hi (1-based; the whole for the others)
Sorted(fn, c, in, ks, ids, lo, hi) ==
    /\ IsPermutation(in, ids)
    /\ Len(ks) = Len(in) /\ \A i \in 1..Len(in) : ks[i] = in[ids[i]]
    /\ Untouched(in, ids, lo, hi)
    /\ Ordered(c, ks, lo, hi)
    /\ fn \in Stable => Kept(c, ks, ids, lo, hi)
=============================================================================
