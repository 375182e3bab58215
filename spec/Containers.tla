----------------------------- MODULE Containers -----------------------------
(* The owning sequences Array<A,n>, ArrVec<A,n> and Vector<A> as values: a   *)
(* container is a finite sequence; Array has exactly n elements, ArrVec at   *)
(* most n, Vector any number.  A request outside the contract is an error    *)
(* and changes nothing.                                                      *)
EXTENDS Integers, Sequences

VARIABLES kind, n, c, st, res

cvars == <<kind, n, c, st, res>>

Slots == {1, 2}

\* An element that was moved from has some value, we do not say which.
Wild == -2000000000
Matches(seen, spec) == /\ Len(seen) = Len(spec)
                       /\ \A i \in 1..Len(spec) : spec[i] = Wild \/ seen[i] = spec[i]

Zeros(k) == [i \in 1..k |-> 0]
DefaultOf(kd, m) == IF kd = "array" THEN Zeros(m) ELSE <<>>

\* the lengths a container of this kind can have
LenOk(k) == CASE kind = "array" -> k = n
              [] kind = "arrvec" -> k <= n
              [] OTHER -> TRUE

\* the largest numbers of the machine are written -1, -2, ... in scripts and traces
Far == 1000000000
Num(x) == IF x < 0 THEN Far + x ELSE x

Frame == UNCHANGED <<kind, n>>
Fail == c' = c /\ st' = "error" /\ res' = 0 /\ Frame
Become(s, v) == c' = [c EXCEPT ![s] = v] /\ st' = "ok" /\ res' = 0 /\ Frame
\* the request is honoured when the resulting length is possible
Try(s, v) == IF LenOk(Len(v)) THEN Become(s, v) ELSE Fail
Answer(r) == c' = c /\ st' = "ok" /\ res' = r /\ Frame

InsertAt(v, i, x) == SubSeq(v, 1, i) \o <<x>> \o SubSeq(v, i + 1, Len(v))
RemoveAt(v, i) == SubSeq(v, 1, i) \o SubSeq(v, i + 2, Len(v))

\* ---- construction ----------------------------------------------------------
New(s) == Become(s, DefaultOf(kind, n))
\* from an initializer list, or from another kind of sequence holding xs
From(s, xs) == Try(s, xs)
Copy(s, t) == Become(s, c[t])
Move(s, t, left) == IF s = t THEN Become(s, c[s])
                    ELSE /\ LenOk(left)
                         /\ c' = [c EXCEPT ![s] = c[t], ![t] = [i \in 1..left |-> Wild]]
                         /\ st' = "ok" /\ res' = 0 /\ Frame
Swap(s, t) == c' = [c EXCEPT ![s] = c[t], ![t] = c[s]] /\ st' = "ok" /\ res' = 0 /\ Frame

\* ---- modification ------------------------------------------------------------
Push(s, x) == Try(s, Append(c[s], x))
PushMany(s, xs) == Try(s, c[s] \o xs)
\* one of the container's own elements (i is 0-based, as in the code)
PushSelf(s, i) == i < Len(c[s]) /\ Push(s, c[s][i + 1])
\* pushing the container's own element by moving it
PushSelfMove(s, i) == /\ i < Len(c[s])
                      /\ IF LenOk(Len(c[s]) + 1)
                         THEN Become(s, Append([c[s] EXCEPT ![i + 1] = Wild], c[s][i + 1]))
                         ELSE Fail
Insert(s, i, x) == IF i <= Len(c[s]) THEN Try(s, InsertAt(c[s], i, x)) ELSE Fail
InsertSelf(s, i, j) == j < Len(c[s]) /\ Insert(s, i, c[s][j + 1])
Erase(s, i) == IF i < Len(c[s]) THEN Try(s, RemoveAt(c[s], i)) ELSE Fail
Pop(s) == IF c[s] = <<>> THEN Fail ELSE Become(s, SubSeq(c[s], 1, Len(c[s]) - 1))
Clear(s) == Become(s, <<>>)
Resize(s, k) == IF kind # "vector" /\ k > n THEN Fail
                ELSE IF k <= Len(c[s]) THEN Try(s, SubSeq(c[s], 1, k))
                ELSE Try(s, c[s] \o Zeros(k - Len(c[s])))
Reserve(s, k) == IF kind # "vector" /\ k > n THEN Fail ELSE Become(s, c[s])
Shrink(s) == Become(s, c[s])
Set(s, i, x) == i < Len(c[s]) /\ Become(s, [c[s] EXCEPT ![i + 1] = x])

\* ---- observation -----------------------------------------------------------
HasWild(v) == \E i \in 1..Len(v) : v[i] = Wild
Eq(s, t) == Answer(IF c[s] = c[t] THEN 1 ELSE 0)

\* ---- properties ---------------------------------------------------------------
LengthsOk == \A s \in Slots : LenOk(Len(c[s]))
=============================================================================
