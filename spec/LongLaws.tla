------------------------------- MODULE LongLaws -------------------------------
(* What Long expects is what the other modules define, for every pair of     *)
(* short lengths.                                                            *)
EXTENDS Long, TLC
P == INSTANCE Prelude
S == INSTANCE Slices WITH src <- <<>>, ws <- <<>>, st <- ""

CONSTANT MaxLen
VARIABLES n, m
Init == n \in 0..MaxLen /\ m \in 0..MaxLen
Spec == Init /\ [][FALSE]_<<n, m>>

\* the streams of a sequence of calls: first arguments, second arguments, ...
Streams(calls, k) == [j \in 1..k |-> [i \in 1..Len(calls) |-> calls[i][j]]]
X == Ramp(n)
Y == Other(m)
Two == <<0, 1>>
Each(f(_), s) == [i \in 1..Len(s) |-> f(s[i])]

HofLaws ==
  /\ Expect("fe1", n, m) = Streams(P!Zip(<<X>>), 1)
  /\ Expect("fe2", n, m) = Streams(P!Zip(<<X, Y>>), 2)
  /\ Expect("fe3", n, m) = Streams(P!Zip(<<X, Y, Ramp(n + 1)>>), 3)
  /\ Expect("map1", n, m) = Streams(P!Zip(<<X>>), 1) \o <<Each(LAMBDA t : t[1] + 1, P!Zip(<<X>>))>>
  /\ Expect("map2", n, m) = Streams(P!Zip(<<X, Y>>), 2) \o <<Each(LAMBDA t : t[1] + t[2], P!Zip(<<X, Y>>))>>
  /\ Expect("mapi", n, m) = LET w == P!WithIndex(P!Zip(<<X, Y>>)) IN Streams(w, 3) \o <<Each(LAMBDA t : t[1] + t[2] + t[3], w)>>
  /\ Expect("fei", n, m) = Streams(P!WithIndex(P!Zip(<<X>>)), 2)
  /\ Expect("fem", n, m) = Streams(P!Zip(<<X>>), 1) \o P!Bumped(<<X>>)
  /\ Expect("fem2", n, m) = Streams(P!Zip(<<X, Y>>), 2) \o P!Bumped(<<X, Y>>)
  /\ Expect("feim", n, m) = Streams(P!WithIndex(P!Zip(<<X>>)), 2) \o P!Bumped(<<X>>)
  /\ Expect("cfe", n, m) = Streams(P!Cart(<<Two, Other(n)>>), 2)
  /\ Expect("cfen", n, m) = Streams(P!Cart(<<X, <<Far>>>>), 2)
  /\ Expect("cfi", n, m) = Streams(P!Cart(<<Two, Ramp(n)>>), 2)
  /\ Expect("cfin", n, m) = Streams(P!Cart(<<X, <<0>>>>), 2)
  \* the folded function keeps the element it is given
  /\ Expect("foldl", n, m) = <<[i \in 1..n |-> IF i = 1 THEN -1 ELSE X[i - 1]], X, <<IF n = 0 THEN -1 ELSE X[n]>>>>
  /\ Expect("foldr", n, m) = <<P!Rev(X), [i \in 1..n |-> IF i = 1 THEN n ELSE P!Rev(X)[i - 1]], <<IF n = 0 THEN n ELSE P!Rev(X)[n]>>>>
BuildLaws ==
  /\ Expect("append2", n, m)[1] = P!BuildResult("append", <<>>, <<X, Y>>)
  /\ Expect("append3", n, m)[1] = P!BuildResult("append", <<>>, <<X, Y, Two>>)
  /\ Expect("concat2", n, m)[1] = P!BuildResult("concat", <<>>, <<X, Y>>)
  /\ Expect("concatn", n, m)[1] = P!BuildResult("concat", <<>>, [i \in 1..n |-> <<i - 1>>])
  /\ Expect("inter2", n, m)[1] = P!BuildResult("intercalate", <<>>, <<Y, X, X>>)
  /\ LET x == P!BuildResult("intercalate", <<>>, <<<<7>>>> \o [i \in 1..n |-> <<i - 1>>])
     IN Expect("intern", n, m) = <<[i \in 1..((Len(x) + 1) \div 2) |-> x[2 * i - 1]], [i \in 1..(Len(x) \div 2) |-> x[2 * i]]>>
  /\ Expect("cmap2", n, m) = LET c == P!Cart(<<Two, Ramp(n)>>) IN Streams(c, 2) \o <<Each(LAMBDA t : Far * t[1] + t[2], c)>>
  /\ Expect("cmapn", n, m)[1] = Each(LAMBDA t : 2 * t[1] + t[2], P!Cart(<<X, Two>>))
  /\ Expect("fromfn", n, m) = <<Ramp(n), P!BuildResult("fromfn", <<n>>, <<>>)>>
SearchLaws ==
  /\ Expect("filter", n, m)[2] = P!SearchResult("filter", <<2, 0>>, <<X>>)
  /\ Expect("filterge", n, m)[2] = P!SearchResult("filter", <<4, m - 1>>, <<X>>)
  /\ Expect("find", n, m)[2] = P!SearchResult("find", <<3, m>>, <<X>>)
  /\ Expect("findi", n, m)[2] = P!SearchResult("findi", <<3, m>>, <<X>>)
  /\ Expect("findis", n, m)[2] = P!SearchResult("findis", <<2, 0>>, <<X>>)
  /\ Expect("elem", n, m)[1] = P!SearchResult("elem", <<0, m>>, <<X>>)
  /\ Expect("elemi", n, m)[1] = P!SearchResult("elemi", <<0, m>>, <<X>>)
  /\ Expect("elemis1", n, m)[1] = P!SearchResult("elemis", <<0, m>>, <<X>>)
  /\ Expect("elemis", n, m)[1] = P!SearchResult("elemis", <<0, 5>>, <<R(5, 0, n)>>)
  /\ Expect("isnull", n, m)[1] = P!SearchResult("isnull", <<0, 0>>, <<X>>)
  /\ \A fn \in {"filter", "findis"} : P!SearchCallsOk(fn, <<2, 0>>, <<X>>, P!Zip(<<Expect(fn, n, m)[1]>>))
  /\ \A fn \in {"find", "findi"} : P!SearchCallsOk(fn, <<3, m>>, <<X>>, P!Zip(<<Expect(fn, n, m)[1]>>))
Whole == S!Win(0, n)
AsWin(w) == <<S!Show(X, w), <<w.off, w.len>>>>
SliceLaws ==
  /\ Expect("take", n, m) = AsWin(S!TakeOf(Whole, m))
  /\ Expect("drop", n, m) = AsWin(S!DropOf(Whole, m))
  /\ Expect("slice", n, m) = AsWin(S!SliceOf(Whole, m, m + 10))
  /\ Expect("takew", n, m) = AsWin(S!TakeOf(Whole, S!Prefix(X, m)))
  /\ Expect("dropw", n, m) = AsWin(S!DropOf(Whole, S!Prefix(X, m)))
ContainerLaws ==
  /\ Expect("resize", n, m)[1] = [i \in 1..m |-> IF i <= n THEN X[i] ELSE 0]
  /\ m <= n => Expect("insert", n, m)[1] = InsertAt(X, m + 1, 77)
  /\ m < n => Expect("erase", n, m)[1] = RemoveAt(X, m + 1)
  /\ Expect("pop", n, m)[1] = SubSeq(X, 1, LMax(n - m, 0))
  /\ \A c \in 1..3 : LastOf(c, n, m) = LET k == SubSeq(X, LMax(n - c, 0) + 1, n) IN SubSeq(k, m + 1, Len(k))
Laws == HofLaws /\ BuildLaws /\ SearchLaws /\ SliceLaws /\ ContainerLaws
=============================================================================
