------------------------------- MODULE Maybe -------------------------------
(* Maybe as a set of at most one value, written as a sequence of length 0    *)
(* or 1.  F are the total functions and K the partial ones that the driver   *)
(* passes to fmap, ap and bind.                                              *)
EXTENDS Integers, Sequences

VARIABLES m, st, out, calls

mvars == <<m, st, out, calls>>

Slots == {1, 2}
Wild == -2000000000
Nothing == <<>>
Just(v) == <<v>>
IsJust(x) == Len(x) = 1

\* truncating division, as in C++
Half(x) == IF x >= 0 THEN x \div 2 ELSE -((-x) \div 2)
F(k, x) == CASE k = 0 -> x + 1 [] k = 1 -> 2 * x [] k = 2 -> 7 [] OTHER -> -x
K(k, x) == CASE k = 0 -> IF x % 2 = 0 THEN Just(Half(x)) ELSE Nothing
             [] k = 1 -> Nothing
             [] k = 2 -> Just(x - 3)
             [] OTHER -> IF x > 4 THEN Nothing ELSE Just(x * 3)

\* ---- the three operations and pure -----------------------------------------
FmapV(f(_), x) == IF IsJust(x) THEN Just(f(x[1])) ELSE Nothing
BindV(x, k(_)) == IF IsJust(x) THEN k(x[1]) ELSE Nothing
ApV(f(_), has, x) == IF IsJust(x) /\ has THEN Just(f(x[1])) ELSE Nothing
Pure(v) == Just(v)

Done(r, cs) == m' = m /\ st' = "ok" /\ out' = r /\ calls' = cs
Become(s, v) == m' = [m EXCEPT ![s] = v] /\ st' = "ok" /\ out' = <<>> /\ calls' = <<>>
Fail == m' = m /\ st' = "error" /\ out' = <<>> /\ calls' = <<>>

Copy(s, t) == Become(s, m[t])
\* the source of a move keeps some state: empty, or a value we do not know
Move(s, t, left) == IF s = t THEN Become(s, m[s])
                    ELSE m' = [m EXCEPT ![s] = m[t], ![t] = IF left THEN Just(Wild) ELSE Nothing]
                         /\ st' = "ok" /\ out' = <<>> /\ calls' = <<>>
Value(s) == IF IsJust(m[s]) THEN Done(m[s], <<>>) ELSE Fail
Take(s) == IF IsJust(m[s])
           THEN m' = [m EXCEPT ![s] = Just(Wild)] /\ st' = "ok" /\ out' = m[s] /\ calls' = <<>>
           ELSE Fail
DoPure(s, v) == m' = [m EXCEPT ![s] = Pure(v)] /\ st' = "ok" /\ out' = Pure(v) /\ calls' = <<>>
DoFmap(s, f) == Done(FmapV(LAMBDA x : F(f, x), m[s]), m[s])
DoAp(s, f, has) == Done(ApV(LAMBDA x : F(f, x), has, m[s]), IF has THEN m[s] ELSE <<>>)
DoBind(s, k) == Done(BindV(m[s], LAMBDA x : K(k, x)), m[s])

\* the calls of  (m >>= k) >>= j : k once on the value, j once on k's result
Chain(x, k, j) == BindV(BindV(x, LAMBDA v : K(k, v)), LAMBDA v : K(j, v))
ChainCalls(x, k) == x \o BindV(x, LAMBDA v : K(k, v))
DoAssoc(s) == Done(Chain(m[s], 0, 2), ChainCalls(m[s], 0))
DoComp(s) == Done(FmapV(LAMBDA x : F(3, F(0, x)), m[s]), m[s] \o FmapV(LAMBDA x : F(0, x), m[s]))
DoIdent(s) == Done(m[s], m[s])
DoLeftId(v) == Done(K(3, v), <<v>>)

\* ---- the laws, for every value in Vals ----------------------------------------
Maybes(Vals) == {Nothing} \cup {Just(v) : v \in Vals}
Laws(Vals) ==
  /\ \A x \in Maybes(Vals) : FmapV(LAMBDA v : v, x) = x
  /\ \A x \in Maybes(Vals) : \A f, g \in 0..3 :
        FmapV(LAMBDA v : F(g, v), FmapV(LAMBDA v : F(f, v), x)) = FmapV(LAMBDA v : F(g, F(f, v)), x)
  /\ \A v \in Vals, k \in 0..3 : BindV(Pure(v), LAMBDA w : K(k, w)) = K(k, v)
  /\ \A x \in Maybes(Vals) : BindV(x, Pure) = x
  /\ \A x \in Maybes(Vals) : \A k, j \in 0..3 :
        Chain(x, k, j) = BindV(x, LAMBDA v : BindV(K(k, v), LAMBDA w : K(j, w)))
  /\ \A x \in Maybes(Vals), f \in 0..3 : ApV(LAMBDA v : F(f, v), TRUE, x) = BindV(x, LAMBDA v : Pure(F(f, v)))
=============================================================================
