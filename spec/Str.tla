-------------------------------- MODULE Str --------------------------------
(* Strings as their users see them: c[s] is the sequence of character codes  *)
(* of string s.  A C string ends at the first character 0; a String may      *)
(* contain such characters.                                                  *)
EXTENDS Integers, Sequences

VARIABLES c, st, res, out

svars == <<c, st, res, out>>
Slots == {1, 2}

Put(s, v) == c' = [c EXCEPT ![s] = v] /\ st' = "ok" /\ res' = 0 /\ out' = <<>>
Fail == c' = c /\ st' = "error" /\ res' = 0 /\ out' = <<>>
Show(r, v) == c' = c /\ st' = "ok" /\ res' = r /\ out' = v

Take(v, k) == SubSeq(v, 1, IF k < Len(v) THEN k ELSE Len(v))
Drop(v, k) == SubSeq(v, k + 1, Len(v))
Fill(k, x) == [i \in 1..k |-> x]
\* what a C string starting at offset k of v shows
RECURSIVE ToNul(_)
ToNul(v) == IF v = <<>> \/ Head(v) = 0 THEN <<>> ELSE <<Head(v)>> \o ToNul(Tail(v))
CStr(v, k) == ToNul(Drop(v, k))

\* characters are ordered by code, strings lexicographically
RECURSIVE Sign(_, _)
Sign(u, v) == IF u = <<>> THEN (IF v = <<>> THEN 0 ELSE -1)
              ELSE IF v = <<>> THEN 1
              ELSE IF Head(u) # Head(v) THEN (IF Head(u) < Head(v) THEN -1 ELSE 1)
              ELSE Sign(Tail(u), Tail(v))
B(b) == IF b THEN 1 ELSE 0

\* ---- construction and assignment -----------------------------------------
New(s) == Put(s, <<>>)
From(s, v) == Put(s, v)                       \* from a C string, pointer and count, range, list, fill
Copy(s, t) == Put(s, c[t])
Move(s, t, left) == /\ c' = (IF s = t THEN c ELSE [c EXCEPT ![s] = c[t], ![t] = left])
                    /\ st' = "ok" /\ res' = 0 /\ out' = <<>>

\* ---- changes ----------------------------------------------------------------
AppendTo(s, v) == Put(s, c[s] \o v)
AppendOwn(s, k) == k <= Len(c[s]) /\ AppendTo(s, CStr(c[s], k))
AppendStr(s, t) == AppendTo(s, c[t])
Assign(s, v) == Put(s, v)
AssignOwn(s, k) == k <= Len(c[s]) /\ Put(s, CStr(c[s], k))
Insert(s, i, v) == IF i > Len(c[s]) THEN Fail ELSE Put(s, Take(c[s], i) \o v \o Drop(c[s], i))
InsertOwn(s, i, k) == k <= Len(c[s]) /\ Insert(s, i, CStr(c[s], k))
InsertOwnN(s, i, k, m) == k + m <= Len(c[s]) /\ Insert(s, i, Take(Drop(c[s], k), m))
Push(s, x) == AppendTo(s, <<x>>)
Pop(s) == IF c[s] = <<>> THEN Fail ELSE Put(s, Take(c[s], Len(c[s]) - 1))
Erase(s, i) == IF i >= Len(c[s]) THEN Fail ELSE Put(s, Take(c[s], i) \o Drop(c[s], i + 1))
Clear(s) == Put(s, <<>>)
Resize(s, k) == Put(s, IF k <= Len(c[s]) THEN Take(c[s], k) ELSE c[s] \o Fill(k - Len(c[s]), 0))
Reserve(s, k) == Put(s, c[s])
Shrink(s) == Put(s, c[s])
Set(s, i, x) == i < Len(c[s]) /\ Put(s, [c[s] EXCEPT ![i + 1] = x])

\* ---- questions ----------------------------------------------------------------
Sub(v, p, k) == Take(Drop(v, p), k)
Substr(s, p, k) == IF p > Len(c[s]) THEN Fail ELSE Show(0, Sub(c[s], p, k))
SubstrTo(s, t, p, k) == IF p > Len(c[t]) THEN Fail ELSE Put(s, Sub(c[t], p, k))
CopyOut(s, p, k) == IF p > Len(c[s]) THEN Fail ELSE Show(Len(Sub(c[s], p, k)), Sub(c[s], p, k))
At(s, p) == IF p >= Len(c[s]) THEN Fail ELSE Show(c[s][p + 1], <<>>)
Compare(s, p, k, t) == IF p > Len(c[s]) THEN Fail ELSE Show(Sign(Sub(c[s], p, k), c[t]), <<>>)
EqLit(s, v) == Show(B(c[s] = v), <<>>)

\* ---- properties of the specification itself ----------------------------------
ErrorsAreInert == [][st' = "error" => c' = c]_svars
\* comparison orders strings: equality is its zero, exchanging the arguments its negative
Ordered == \A s, t \in Slots : /\ (Sign(c[s], c[t]) = 0) = (c[s] = c[t])
                               /\ Sign(c[s], c[t]) = -Sign(c[t], c[s])
=============================================================================
