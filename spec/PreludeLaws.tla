----------------------------- MODULE PreludeLaws -----------------------------
(* The loops as a state machine: a cursor walks over the argument tuples,    *)
(* calling the supplied function once per step and accumulating results.     *)
(* Invariants: at every moment exactly the first tuples have been visited,   *)
(* and when the walk is over results, calls and arguments are those Prelude  *)
(* defines.  Checked for every tuple of argument lengths up to MaxLen.       *)
EXTENDS Prelude, TLC

CONSTANTS MaxLen, MaxArity

VARIABLES xs, mode, pos, calls, out, acc
vars == <<xs, mode, pos, calls, out, acc>>

Vals(k, len) == [i \in 1..len |-> 10 * k + i]
Args == UNION {{[k \in 1..n |-> Vals(k, ls[k])] : ls \in [1..n -> 0..MaxLen]} : n \in 1..MaxArity}

Init == /\ xs \in Args /\ mode \in {"zip", "cart", "left", "right"}
        /\ pos = [k \in 1..Len(xs) |-> IF mode = "right" THEN Len(xs[k]) ELSE 1]
        /\ calls = <<>> /\ out = <<>> /\ acc = 5

Within(k) == pos[k] >= 1 /\ pos[k] <= Len(xs[k])
Here == [k \in 1..Len(xs) |-> xs[k][pos[k]]]
\* next position of the cartesian walk: last sequence fastest
RECURSIVE Advance(_, _)
Advance(p, k) == IF k = 0 THEN [j \in 1..Len(p) |-> Len(xs[j]) + 1]
                 ELSE IF p[k] < Len(xs[k]) THEN [p EXCEPT ![k] = @ + 1]
                 ELSE Advance([p EXCEPT ![k] = 1], k - 1)
Step == /\ \A k \in 1..Len(xs) : Within(k)
        /\ xs' = xs /\ mode' = mode
        /\ CASE mode = "zip" -> /\ calls' = Append(calls, Here) /\ out' = Append(out, MapF(Here))
                                /\ pos' = [k \in 1..Len(xs) |-> pos[k] + 1] /\ acc' = acc
             [] mode = "cart" -> /\ calls' = Append(calls, Here) /\ out' = Append(out, MapF(Here))
                                 /\ pos' = Advance(pos, Len(xs)) /\ acc' = acc
             [] mode = "left" -> /\ calls' = Append(calls, <<acc, xs[1][pos[1]]>>) /\ acc' = FoldF(acc, xs[1][pos[1]])
                                 /\ pos' = [k \in 1..Len(xs) |-> pos[k] + 1] /\ out' = out
             [] mode = "right" -> /\ calls' = Append(calls, <<xs[1][pos[1]], acc>>) /\ acc' = FoldF(acc, xs[1][pos[1]])
                                  /\ pos' = [k \in 1..Len(xs) |-> pos[k] - 1] /\ out' = out
Spec == Init /\ [][Step]_vars

Over == \E k \in 1..Len(xs) : ~Within(k)
One == Len(xs) = 1
InOrder == CASE mode = "zip" -> calls = SubSeq(Zip(xs), 1, Len(calls))
             [] mode = "cart" -> calls = SubSeq(Cart(xs), 1, Len(calls))
             [] OTHER -> TRUE
Final == Over =>
  CASE mode = "zip"  -> calls = HofCalls("map", <<>>, xs) /\ out = HofResult("map", <<>>, xs)
    [] mode = "cart" -> calls = HofCalls("cfe", <<>>, xs) /\ out = BuildResult("cmap", <<>>, xs)
    [] mode = "left" -> One => calls = HofCalls("foldl", <<5>>, xs) /\ <<acc>> = HofResult("foldl", <<5>>, xs)
    [] mode = "right" -> One => calls = HofCalls("foldr", <<5>>, xs) /\ <<acc>> = HofResult("foldr", <<5>>, xs)

\* laws relating the definitions
Laws == /\ Len(Flat(xs)) = SeqSum([k \in 1..Len(xs) |-> Len(xs[k])])
        /\ Len(Cart(xs)) = SeqProd([k \in 1..Len(xs) |-> Len(xs[k])])
        /\ Len(Zip(xs)) = SeqMin([k \in 1..Len(xs) |-> Len(xs[k])])
        /\ Interleave(<<>>, xs) = Flat(xs)
        /\ Len(Interleave(<<0, 0>>, xs)) = Len(Flat(xs)) + 2 * (Len(xs) - 1)
        /\ Cart(<<xs[1]>>) = Zip(<<xs[1]>>)
        /\ CartBumped(<<xs[1]>>) = Bumped(<<xs[1]>>)
=============================================================================
