------------------------------- MODULE Prelude -------------------------------
(* The sequence functions as mathematics: what each one returns, which calls *)
(* of the supplied function it makes, and what the arguments hold afterwards.*)
(* Sequences are TLA+ sequences (1-based); indices shown to the user are     *)
(* 0-based.                                                                  *)
EXTENDS Integers, Sequences, FiniteSets

Min2(a, b) == IF a < b THEN a ELSE b
RECURSIVE MinLen(_)
MinLen(xs) == IF Len(xs) = 1 THEN Len(xs[1]) ELSE Min2(Len(xs[1]), MinLen(Tail(xs)))

\* the tuples at each position, up to the shortest
Zip(xs) == [i \in 1..MinLen(xs) |-> [k \in 1..Len(xs) |-> xs[k][i]]]

\* all tuples, the last sequence varying fastest
RECURSIVE CartAcc(_, _)
CartAcc(xs, prefix) ==
    IF xs = <<>> THEN <<prefix>>
    ELSE LET go[i \in 0..Len(xs[1])] == IF i = 0 THEN <<>> ELSE go[i - 1] \o CartAcc(Tail(xs), Append(prefix, xs[1][i]))
         IN go[Len(xs[1])]
Cart(xs) == CartAcc(xs, <<>>)
Iota(n) == [i \in 1..n |-> i - 1]
CartIndex(xs) == Cart([k \in 1..Len(xs) |-> [i \in 1..Len(xs[k]) |-> i]])

Flat(xss) == LET F[i \in 0..Len(xss)] == IF i = 0 THEN <<>> ELSE F[i - 1] \o xss[i] IN F[Len(xss)]
Interleave(d, xss) == IF xss = <<>> THEN <<>>
                      ELSE LET F[i \in 1..Len(xss)] == IF i = 1 THEN xss[1] ELSE F[i - 1] \o d \o xss[i] IN F[Len(xss)]

\* ---- the functions the driver supplies ----------------------------------------
Weigh(t) == LET W[k \in 0..Len(t)] == IF k = 0 THEN 0 ELSE W[k - 1] + t[k] * (7 ^ (k - 1)) IN W[Len(t)]
MapF(t) == 1 + Weigh(t)
MapIF(i, t) == 1 + 1000 * i + Weigh(t)
FoldF(acc, x) == (acc * 3 + x) % 100003

FoldSteps(init, xs) == LET S[i \in 0..Len(xs)] == IF i = 0 THEN init ELSE FoldF(S[i - 1], xs[i]) IN S
Foldl(init, xs) == FoldSteps(init, xs)[Len(xs)]
Rev(xs) == [i \in 1..Len(xs) |-> xs[Len(xs) + 1 - i]]
Foldr(init, xs) == Foldl(init, Rev(xs))

\* element k of a visited tuple grows by k at every visit
Bumped(xs) == [k \in 1..Len(xs) |-> [i \in 1..Len(xs[k]) |-> IF i <= MinLen(xs) THEN xs[k][i] + k ELSE xs[k][i]]]
\* the same for the cartesian loop: visits before visit t of element i of sequence k
CartVisits(v, t, k, i) == Cardinality({u \in 1..(t - 1) : v[u][k] = i})
CartMutCalls(xs) == LET v == CartIndex(xs)
                    IN [t \in 1..Len(v) |-> [k \in 1..Len(xs) |-> xs[k][v[t][k]] + k * CartVisits(v, t, k, v[t][k])]]
CartBumped(xs) == LET v == CartIndex(xs)
                  IN [k \in 1..Len(xs) |-> [i \in 1..Len(xs[k]) |-> xs[k][i] + k * CartVisits(v, Len(v) + 1, k, i)]]

WithIndex(ts) == [i \in 1..Len(ts) |-> <<i - 1>> \o ts[i]]

\* ---- C06 -------------------------------------------------------------------------
HofResult(fn, a, xs) ==
  CASE fn = "map"   -> [i \in 1..MinLen(xs) |-> MapF(Zip(xs)[i])]
    [] fn = "mapi"  -> [i \in 1..MinLen(xs) |-> MapIF(i - 1, Zip(xs)[i])]
    [] fn = "foldl" -> <<Foldl(a[1], xs[1])>>
    [] fn = "foldr" -> <<Foldr(a[1], xs[1])>>
    [] fn = "comp1" -> <<a[1] + 1>>
    [] fn = "comp2" -> <<a[1] * 3 + 1>>
    [] fn = "comp3" -> <<(a[1] - 7) * 3 + 1>>
    [] fn = "comp4" -> <<(a[1] + 2 - 7) * 3>>
    [] fn = "comp5" -> <<(a[1] * 10 + a[2]) * 3 + 1>>
    [] OTHER        -> <<>>
HofCalls(fn, a, xs) ==
  CASE fn \in {"map", "fe", "fem"}    -> Zip(xs)
    [] fn \in {"mapi", "fei", "feim"} -> WithIndex(Zip(xs))
    [] fn = "cfe"   -> Cart(xs)
    [] fn = "cfem"  -> CartMutCalls(xs)
    [] fn = "foldl" -> [i \in 1..Len(xs[1]) |-> <<FoldSteps(a[1], xs[1])[i - 1], xs[1][i]>>]
    [] fn = "foldr" -> [i \in 1..Len(xs[1]) |-> <<Rev(xs[1])[i], FoldSteps(a[1], Rev(xs[1]))[i - 1]>>]
    [] fn \in {"fori", "cfi1"} -> Cart(<<Iota(a[1])>>)
    [] fn = "cfi2"  -> Cart(<<Iota(a[1]), Iota(a[2])>>)
    [] fn = "cfi3"  -> Cart(<<Iota(a[1]), Iota(a[2]), Iota(a[3])>>)
    [] fn = "comp1" -> <<<<1, a[1]>>>>
    [] fn = "comp2" -> <<<<2, a[1]>>, <<1, a[1] * 3>>>>
    [] fn = "comp3" -> <<<<3, a[1]>>, <<2, a[1] - 7>>, <<1, (a[1] - 7) * 3>>>>
    [] fn = "comp4" -> <<<<1, a[1]>>, <<1, a[1] + 1>>, <<3, a[1] + 2>>, <<2, a[1] + 2 - 7>>>>
    [] fn = "comp5" -> <<<<4, a[1], a[2]>>, <<2, a[1] * 10 + a[2]>>, <<1, (a[1] * 10 + a[2]) * 3>>>>
HofAfter(fn, xs) ==
  CASE fn \in {"fem", "feim"} -> Bumped(xs)
    [] fn = "cfem" -> CartBumped(xs)
    [] OTHER -> xs

\* ---- C19 -------------------------------------------------------------------------
BuildResult(fn, a, xs) ==
  CASE fn = "append"      -> Flat(xs)
    [] fn = "concat"      -> Flat(xs)
    [] fn = "intercalate" -> Interleave(xs[1], Tail(xs))
    [] fn = "cmap"        -> [i \in 1..Len(Cart(xs)) |-> MapF(Cart(xs)[i])]
    [] fn = "fromfn"      -> [i \in 1..a[1] |-> 5 * (i - 1) + 2]
    [] fn = "fromfnct"    -> [i \in 1..a[1] |-> 5 * (i - 1) + 2]
BuildCalls(fn, a, xs) ==
  CASE fn = "cmap" -> Cart(xs)
    [] fn \in {"fromfn", "fromfnct"} -> [i \in 1..a[1] |-> <<i - 1>>]
    [] OTHER -> <<>>

\* ---- C20 -------------------------------------------------------------------------
\* predicate p: 0 nothing, 1 everything, 2 even, 3 equal to a[2], 4 greater than a[2]
Sat(p, b, x) == CASE p = 0 -> FALSE [] p = 1 -> TRUE [] p = 2 -> x % 2 = 0 [] p = 3 -> x = b [] OTHER -> x > b
Positions(x, P(_)) == LET F[i \in 0..Len(x)] == IF i = 0 THEN <<>> ELSE IF P(x[i]) THEN Append(F[i - 1], i) ELSE F[i - 1] IN F[Len(x)]
Zero(s) == [i \in 1..Len(s) |-> s[i] - 1]
First(s) == IF s = <<>> THEN <<>> ELSE <<s[1]>>
Bool(b) == <<IF b THEN 1 ELSE 0>>
SearchResult(fn, a, xs) ==
  LET x == xs[1]
      P == Positions(x, LAMBDA v : Sat(a[1], a[2], v))
      Q == Positions(x, LAMBDA v : v = a[2])
  IN CASE fn = "filter"   -> [i \in 1..Len(P) |-> x[P[i]]]
       [] fn = "find"     -> Bool(P # <<>>)
       [] fn = "findi"    -> First(Zero(P))
       [] fn = "findis"   -> Zero(P)
       [] fn = "elem"     -> Bool(Q # <<>>)
       [] fn = "elemi"    -> First(Zero(Q))
       [] fn = "elemis"   -> Zero(Q)
       [] fn = "isnull"   -> Bool(x = <<>>)
\* the predicate is called in order, at most once per element; filter and find_indices look at all
SearchCallsOk(fn, a, xs, calls) ==
  LET x == xs[1]
      k == Len(calls)
  IN /\ k <= Len(x)
     /\ \A i \in 1..k : calls[i] = <<x[i]>>
     /\ fn \in {"filter", "findis"} => k = Len(x)
     /\ fn \in {"find", "findi"} => (k = Len(x) \/ (k > 0 /\ Sat(a[1], a[2], x[k])))

\* ---- C08: the kind of a result ------------------------------------------------------
\* kinds of arguments: statically sized, of bounded capacity, dynamic
StaticKinds == {0, 1, 2, 3, 10}
BoundedKinds == {4, 5, 6, 11}
RECURSIVE SeqMin(_), SeqSum(_), SeqProd(_)
SeqMin(s) == IF Len(s) = 1 THEN s[1] ELSE Min2(s[1], SeqMin(Tail(s)))
SeqSum(s) == IF s = <<>> THEN 0 ELSE s[1] + SeqSum(Tail(s))
SeqProd(s) == IF s = <<>> THEN 1 ELSE s[1] * SeqProd(Tail(s))
AllIn(kd, S) == \A i \in 1..Len(kd) : kd[i] \in S
\* <<kind, bound>> when the whole family of arguments is static, bounded, or not
Family(kd, bound) == IF AllIn(kd, StaticKinds) THEN <<"array", bound>>
                     ELSE IF AllIn(kd, StaticKinds \cup BoundedKinds) THEN <<"arrvec", bound>>
                     ELSE <<"vector", -1>>
ResultKind(fn, a, kd, nb) ==
  CASE fn \in {"map", "mapi"} -> Family(kd, SeqMin(nb))
    [] fn = "append" -> Family(kd, SeqSum(nb))
    [] fn = "cmap" -> Family(kd, SeqProd(nb))
    [] fn \in {"filter", "elemis", "findis"} -> IF AllIn(kd, StaticKinds \cup BoundedKinds) THEN <<"arrvec", nb[1]>> ELSE <<"vector", -1>>
    [] fn = "fromfn" -> <<"vector", -1>>
    [] fn = "fromfnct" -> <<"array", a[1]>>
    \* nb[1], nb[2]: bounds of outer and inner; for intercalate nb[3] is the separator's
    [] fn = "concat" -> Family(kd, nb[1] * nb[2])
    [] fn = "intercalate" -> Family(kd, IF nb[1] = 0 THEN 0 ELSE nb[1] * (nb[2] + nb[3]) - nb[3])
    [] OTHER -> <<"none", -1>>
=============================================================================
