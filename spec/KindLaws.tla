------------------------------- MODULE KindLaws -------------------------------
(* The bounds of Prelude's ResultKind are bounds: for every combination of   *)
(* kinds, bounds and lengths the specified result fits, and for the largest  *)
(* arguments it is attained (so no smaller bound would do).                  *)
EXTENDS Prelude, TLC

CONSTANTS MaxBound

VARIABLES kd, nb, len, done

Kinds == {0, 4, 7}
Allowed(k, n, m) == IF k = 0 THEN m = n ELSE IF k = 4 THEN m <= n ELSE TRUE
Vals(m) == [i \in 1..m |-> i]
Args == [i \in 1..Len(kd) |-> Vals(len[i])]

Init == /\ \E r \in 1..3 : kd \in [1..r -> Kinds] /\ nb \in [1..r -> 0..MaxBound] /\ len = [i \in 1..r |-> 0]
        /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED <<kd, nb>>
        /\ len' \in [1..Len(kd) -> 0..MaxBound]
        /\ \A i \in 1..Len(kd) : Allowed(kd[i], nb[i], len'[i])
Spec == Init /\ [][Next]_<<kd, nb, len, done>>

Sure(fn, r) == LET k == ResultKind(fn, <<>>, kd, nb)
               IN /\ k[2] >= 0 => Len(r) <= k[2]
                  /\ k[1] = "array" => Len(r) = k[2]
                  /\ k[2] >= 0 /\ len = nb => Len(r) = k[2]
Bounds == done => /\ Sure("map", Zip(Args))
                  /\ Sure("append", Flat(Args))
                  /\ Sure("cmap", Cart(Args))
                  /\ Len(kd) = 1 => LET k == ResultKind("filter", <<>>, kd, nb) IN k[2] >= 0 => Len(Args[1]) <= k[2]
\* outer, inner and separator of concat and intercalate, all inner sequences of the same length
Nest == done /\ Len(kd) = 3 =>
          LET xss == [i \in 1..len[1] |-> Vals(len[2])]
              c == ResultKind("concat", <<>>, <<kd[1], kd[2]>>, <<nb[1], nb[2]>>)
              k == ResultKind("intercalate", <<>>, kd, nb)
              r == Interleave(Vals(len[3]), xss)
          IN /\ c[2] >= 0 => Len(Flat(xss)) <= c[2] /\ (len = nb => Len(Flat(xss)) = c[2])
             /\ k[2] >= 0 => Len(r) <= k[2] /\ (len = nb => Len(r) = k[2])
=============================================================================
