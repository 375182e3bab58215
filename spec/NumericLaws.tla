----------------------------- MODULE NumericLaws -----------------------------
(* Numeric.tla checked over every short sequence: order does not matter,     *)
(* reductions split, extremes are elements and bounds.                       *)
EXTENDS Numeric, TLC

CONSTANTS MaxLen, Top

VARIABLE xs
Vals == (-Top)..Top
Init == xs = <<>>
Next == Len(xs) < MaxLen /\ \E x \in Vals : xs' = Append(xs, x)
Spec == Init /\ [][Next]_xs

Swap(i) == [xs EXCEPT ![i] = xs[i + 1], ![i + 1] = xs[i]]
Fns == {"sum", "product"} \cup (IF xs = <<>> THEN {} ELSE {"max", "min", "maxmin"})
AnyOrder == \A i \in 1..(Len(xs) - 1), fn \in Fns : Reduce(fn, Swap(i)) = Reduce(fn, xs)
Splits == \A k \in 0..Len(xs) : LET l == SubSeq(xs, 1, k)
                                    r == SubSeq(xs, k + 1, Len(xs))
                                IN /\ SumOf(xs) = SumOf(l) + SumOf(r)
                                   /\ ProductOf(xs) = ProductOf(l) * ProductOf(r)
                                   /\ l # <<>> /\ r # <<>> => MaxOf(xs) = Max2(MaxOf(l), MaxOf(r)) /\ MinOf(xs) = Min2(MinOf(l), MinOf(r))
Negated == LET n == [i \in 1..Len(xs) |-> -xs[i]]
           IN SumOf(n) = -SumOf(xs) /\ (xs # <<>> => MaxOf(n) = -MinOf(xs))
Division == \A a, b \in Vals : b # 0 => /\ a = b * Div(a, b) + Mod(a, b) /\ Abs(Mod(a, b)) < Abs(b) /\ (Mod(a, b) # 0 => (Mod(a, b) < 0) = (a < 0))
Clamps == \A a, b, c \in Vals : a <= b => Clamp(a, b, c) \in a..b /\ (c \in a..b => Clamp(a, b, c) = c)
=============================================================================
