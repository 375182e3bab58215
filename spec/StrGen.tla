------------------------------- MODULE StrGen -------------------------------
(* Closes Str with a model of the storage: cap[s] characters are allocated   *)
(* (0: no storage).  Prints one script per transition between combinations   *)
(* of lengths and capacities of two strings.                                 *)
EXTENDS Str, TLC

CONSTANTS MaxLen, MaxCap, MaxArg, Depth, Rich

VARIABLES cap, nv, hist
gvars == <<c, st, res, out, cap, nv, hist>>

Init == /\ c = [s \in Slots |-> <<>>] /\ st = "ok" /\ res = 0 /\ out = <<>>
        /\ cap = [s \in Slots |-> 0] /\ nv = 0 /\ hist = ""

I(x) == " " \o ToString(x)
RECURSIVE Codes(_)
Codes(v) == IF v = <<>> THEN "" ELSE I(Head(v)) \o Codes(Tail(v))
Log(t, s, rest) == hist' = hist \o t \o I(s - 1) \o rest \o ";"
Max(a, b) == IF a > b THEN a ELSE b

\* characters that differ, so that they cannot be confused; 0 and codes above 127 among them
Ch(k) == LET m == (nv + k) % 11 IN IF m = 5 THEN 200 ELSE IF m = 8 THEN 0 ELSE 97 + m
Ch1(k) == IF Ch(k) = 0 THEN 122 ELSE Ch(k)
Raw(k) == [i \in 1..k |-> Ch(i)]
Lit(k) == [i \in 1..k |-> Ch1(i)]

RECURSIVE GrowN(_, _, _)
GrowN(len, cp, k) == IF k = 0 THEN cp
                     ELSE GrowN(len + 1, IF len + 1 >= cp THEN (IF len = 0 THEN 2 ELSE 2 * len + 1) ELSE cp, k - 1)
Cap(s, k) == cap' = [cap EXCEPT ![s] = k]
GrowBy(s, k) == Cap(s, GrowN(Len(c[s]), cap[s], k))

\* stands for the largest count or position (npos), Huge + 1 for one less
Huge == 1000000000
Far == {Huge, Huge + 1}
Some(n) == {k \in 0..n : k <= 2 \/ k >= n - 1}
Room(s, k) == Len(c[s]) + k <= MaxLen
NV == nv' = nv + 1

Make(s) ==
  \/ NV /\ New(s) /\ Cap(s, 0) /\ Log("new", s, "")
  \/ \E k \in 0..MaxArg : NV /\ From(s, Lit(k)) /\ Cap(s, k + 1) /\ (Log("lit", s, Codes(Lit(k))) \/ Log("rng", s, Codes(Lit(k))))
  \/ \E k \in 0..MaxArg : NV /\ From(s, Raw(k)) /\ Cap(s, k + 1) /\ (Log("litn", s, Codes(Raw(k))) \/ Log("il", s, Codes(Raw(k))) \/ Log("av", s, Codes(Raw(k)))
                                                                       \/ (k = 2 /\ Log("arr", s, Codes(Raw(k)))))
  \/ \E k \in 0..MaxArg : NV /\ From(s, Fill(k, Ch(1))) /\ Cap(s, k + 1) /\ Log("fill", s, I(k) \o I(Ch(1)))

Change(s) ==
  \/ \E k \in 0..MaxArg : Room(s, k) /\ NV /\ AppendTo(s, Lit(k)) /\ GrowBy(s, k) /\ Log("app", s, Codes(Lit(k)))
  \/ \E k \in 0..MaxArg : Room(s, k) /\ NV /\ AppendTo(s, Fill(k, Ch(1))) /\ GrowBy(s, k) /\ Log("appn", s, I(k) \o I(Ch(1)))
  \/ \E k \in Some(Len(c[s])) : Room(s, Len(c[s]) - k) /\ NV /\ AppendOwn(s, k) /\ GrowBy(s, Len(CStr(c[s], k))) /\ Log("appown", s, I(k))
  \/ \E k \in 0..MaxArg : NV /\ Assign(s, Lit(k)) /\ Cap(s, GrowN(0, cap[s], k)) /\ Log("asg", s, Codes(Lit(k)))
  \/ \E k \in 0..MaxArg : NV /\ Assign(s, Fill(k, Ch(1))) /\ Cap(s, GrowN(0, cap[s], k)) /\ Log("asgn", s, I(k) \o I(Ch(1)))
  \/ \E k \in Some(Len(c[s])) : NV /\ AssignOwn(s, k) /\ Cap(s, cap[s]) /\ Log("asgown", s, I(k))
  \/ \E i \in 0..(Len(c[s]) + 1), k \in {0, 1, MaxArg} : Room(s, k) /\ NV /\ Insert(s, i, Lit(k))
        /\ Cap(s, IF i > Len(c[s]) THEN cap[s] ELSE Max(cap[s], Len(c[s]) + k + 1)) /\ Log("ins", s, I(i) \o Codes(Lit(k)))
  \/ \E i \in 0..(Len(c[s]) + 1), k \in {0, 2} : Room(s, k) /\ NV /\ Insert(s, i, Raw(k))
        /\ Cap(s, IF i > Len(c[s]) THEN cap[s] ELSE Max(cap[s], Len(c[s]) + k + 1)) /\ Log("insn", s, I(i) \o Codes(Raw(k)))
  \/ \E i \in Some(Len(c[s])), k \in Some(Len(c[s])) : Room(s, Len(c[s]) - k) /\ NV /\ InsertOwn(s, i, k)
        /\ Cap(s, Max(cap[s], Len(c[s]) + Len(CStr(c[s], k)) + 1)) /\ Log("insown", s, I(i) \o I(k))
  \/ \E i \in Some(Len(c[s])), k \in {0, 1} : Room(s, 2) /\ NV /\ InsertOwnN(s, i, k, 2)
        /\ Cap(s, Max(cap[s], Len(c[s]) + 3)) /\ Log("insownn", s, I(i) \o I(k) \o I(2))
  \/ Room(s, 1) /\ NV /\ Push(s, Ch(1)) /\ GrowBy(s, 1) /\ Log("push", s, I(Ch(1)))
  \/ NV /\ Pop(s) /\ Cap(s, cap[s]) /\ Log("pop", s, "")
  \/ \E i \in Some(Len(c[s])) : NV /\ Erase(s, i) /\ Cap(s, cap[s]) /\ Log("erase", s, I(i))
  \/ NV /\ Clear(s) /\ Cap(s, cap[s]) /\ Log("clear", s, "")
  \/ \E k \in 0..MaxArg : NV /\ Resize(s, k) /\ Cap(s, Max(cap[s], k + 1)) /\ Log("resize", s, I(k))
  \/ \E k \in 0..(MaxArg + 2) : NV /\ Reserve(s, k) /\ Cap(s, Max(cap[s], k)) /\ Log("reserve", s, I(k))
  \/ NV /\ Shrink(s) /\ Cap(s, Len(c[s]) + 1) /\ Log("shrink", s, "")
  \/ \E i \in {0, Len(c[s]) - 1} : i >= 0 /\ NV /\ Set(s, i, Ch(1)) /\ cap' = cap /\ Log("set", s, I(i) \o I(Ch(1)))

Ask(s) ==
  /\ NV /\ cap' = cap
  /\ \/ \E p \in 0..(Len(c[s]) + 1), k \in {0, 1, Len(c[s]), Len(c[s]) + 1} \cup Far :
          (Substr(s, p, k) /\ Log("sub", s, I(p) \o I(k))) \/ (CopyOut(s, p, k) /\ Log("cpy", s, I(p) \o I(k)))
     \/ Substr(s, Huge, 1) /\ Log("sub", s, I(Huge) \o I(1))
     \/ CopyOut(s, Huge, 1) /\ Log("cpy", s, I(Huge) \o I(1))
     \/ Compare(s, Huge, 1, s) /\ Log("cmp", s, I(Huge) \o I(1) \o I(s - 1))
     \/ Insert(s, Huge, Lit(1)) /\ Log("ins", s, I(Huge) \o Codes(Lit(1)))
     \/ Erase(s, Huge) /\ Log("erase", s, I(Huge))
     \/ \E p \in 0..(Len(c[s]) + 1) \cup Far : At(s, p) /\ Log("at", s, I(p))
     \/ \E t \in Slots, p \in 0..(Len(c[s]) + 1), k \in {0, 1, Len(c[s]) + 1, Huge} : Compare(s, p, k, t) /\ Log("cmp", s, I(p) \o I(k) \o I(t - 1))

Pair(s, t) ==
  /\ NV
  /\ \/ s # t /\ Copy(s, t) /\ Cap(s, cap[t]) /\ Log("copy", s, I(t - 1))
     \/ s # t /\ Move(s, t, <<>>) /\ cap' = [cap EXCEPT ![s] = cap[t], ![t] = 0] /\ (Log("move", s, I(t - 1)) \/ Log("massign", s, I(t - 1)))
     \/ s = t /\ Move(s, t, <<>>) /\ cap' = cap /\ Log("massign", s, I(t - 1))
     \/ Copy(s, t) /\ Cap(s, IF s = t THEN cap[s] ELSE Max(cap[s], Len(c[t]) + 1)) /\ Log("cassign", s, I(t - 1))
     \/ Room(s, Len(c[t])) /\ AppendStr(s, t) /\ GrowBy(s, Len(c[t])) /\ Log("plus", s, I(t - 1))
     \/ \E p \in 0..(Len(c[t]) + 1), k \in {0, 2, Len(c[t]), Huge} : SubstrTo(s, t, p, k)
          /\ Cap(s, IF p > Len(c[t]) THEN cap[s] ELSE Len(Sub(c[t], p, k)) + 1) /\ Log("subto", s, I(t - 1) \o I(p) \o I(k))

Next == \E s \in Slots : Make(s) \/ Change(s) \/ (Rich /\ Ask(s)) \/ \E t \in Slots : Pair(s, t)

Spec == Init /\ [][Next]_gvars
Small == \A s \in Slots : Len(c[s]) <= MaxLen /\ cap[s] <= MaxCap
Shape == <<[s \in Slots |-> Len(c[s])], cap>>
\* whenever a string has storage, there is room for the terminator
TermRoom == \A s \in Slots : IF cap[s] = 0 THEN c[s] = <<>> ELSE Len(c[s]) < cap[s]

GenNext == Next /\ PrintT("S|" \o hist')
GenSpec == Init /\ [][GenNext]_gvars
SimEmit == TLCGet("level") = Depth => PrintT("S|" \o hist)

\* ---- comparison: every pair of small strings over an alphabet with 0 and a code above 127 -----------
Seqs == UNION {[1..k -> {0, 97, 98, 200}] : k \in 0..(MaxLen - 1)} \cup [1..MaxLen -> {97, 200}]
CmpInit == Init
CmpNext == /\ hist = ""
           /\ \E u, v \in Seqs :
                /\ hist' = "litn 0" \o Codes(u) \o ";litn 1" \o Codes(v) \o ";cmp 0 1 2 1;cmp 0 0 1 1;cmp 1 1 9 0;eql 0" \o Codes(ToNul(v)) \o ";plus 0 1;"
                /\ PrintT("S|" \o hist')
           /\ UNCHANGED <<c, st, res, out, cap, nv>>
CmpSpec == CmpInit /\ [][CmpNext]_gvars
=============================================================================
