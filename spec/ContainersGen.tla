---------------------------- MODULE ContainersGen ----------------------------
(* Closes Containers with a concrete representation of the heap vector's     *)
(* storage (capacity), so that TLC enumerates every reachable combination of *)
(* sizes and capacities of two containers, and prints one script per         *)
(* transition.  Pushed values are always new, so elements cannot be confused.*)
EXTENDS Containers, TLC

CONSTANTS Kinds, Ns, MaxLen, MaxCap, Depth, Bulk, MaxArg

VARIABLES cap, nv, hist

gvars == <<kind, n, c, st, res, cap, nv, hist>>

CapOf(kd, m) == IF kd = "vector" THEN 0 ELSE m

Init == /\ kind \in Kinds
        /\ n \in (IF kind = "vector" THEN {0} ELSE Ns)
        /\ c = [s \in Slots |-> DefaultOf(kind, n)]
        /\ st = "ok" /\ res = 0
        /\ cap = [s \in Slots |-> CapOf(kind, n)]
        /\ nv = 1
        /\ hist = kind \o " " \o ToString(n) \o "|"

IsV == kind = "vector"
I(x) == " " \o ToString(x)
Log(t, s, rest) == hist' = hist \o t \o I(s - 1) \o rest \o ";"

Max(a, b) == IF a > b THEN a ELSE b
SetCap(s, k) == cap' = IF IsV THEN [cap EXCEPT ![s] = k] ELSE cap
GrowPush(s) == SetCap(s, IF Len(c[s]) + 1 >= cap[s] THEN (IF c[s] = <<>> THEN 2 ELSE 2 * Len(c[s]) + 1) ELSE cap[s])
GrowIns(s) == SetCap(s, IF Len(c[s]) + 1 >= cap[s] THEN (IF cap[s] = 0 THEN 2 ELSE 2 * cap[s]) ELSE cap[s])

Vals(k) == [i \in 1..k |-> nv + i - 1]

\* positions below, at and beyond the ends; -1 and -2 stand for the largest numbers
Huge == {Far - 1, Far - 2}
Arg(i) == IF i > Far - 10 THEN i - Far ELSE i
Places(m) == {i \in 0..m : i <= MaxArg \/ i >= m - 3 \/ i = m \div 2} \cup Huge
Sizes(m) == (0..MaxArg) \cup ({m - 1, m, m + 1, m + 3} \ {-1}) \cup (IF IsV THEN {} ELSE {n - 1, n, n + 1})

Grow(s) ==
  \/ kind # "array" /\ Len(c[s]) < MaxLen /\ nv' = nv + 1 /\ Push(s, nv) /\ GrowPush(s)
     /\ (Log("push", s, I(nv)) \/ Log("pushrv", s, I(nv)) \/ (IsV /\ Log("emplace", s, I(nv))))
  \/ kind # "array" /\ Len(c[s]) < MaxLen
     /\ \E i \in Places(Len(c[s]) + 1) : nv' = nv + 1 /\ Insert(s, i, nv) /\ (IF i <= Len(c[s]) THEN GrowIns(s) ELSE SetCap(s, cap[s])) /\ Log("insert", s, I(Arg(i)) \o I(nv))
  \/ kind # "array" /\ nv' = nv /\ \E i \in 0..(Len(c[s]) - 1) :
        /\ (i <= 1 \/ i >= Len(c[s]) - 2)
        /\ \/ PushSelf(s, i) /\ GrowPush(s) /\ (Log("pushself", s, I(i)) \/ (IsV /\ Log("emplself", s, I(i))))
           \/ PushSelfMove(s, i) /\ GrowPush(s) /\ Log("pushselfmv", s, I(i))
           \/ \E j \in {0, i, Len(c[s])} : InsertSelf(s, j, i) /\ GrowIns(s) /\ Log("insertself", s, I(j) \o I(i))
  \/ \E k \in Bulk \cup (IF Bulk # {} /\ kind = "arrvec" /\ Len(c[s]) < n THEN {n - Len(c[s])} ELSE {}) : kind # "array" /\ LenOk(Len(c[s]) + k) /\ nv' = nv + k /\ PushMany(s, Vals(k)) /\ SetCap(s, 2 * (Len(c[s]) + k)) /\ Log("pushmany", s, I(k) \o I(nv))

Change(s) ==
  \/ kind # "array" /\ nv' = nv /\ \/ Pop(s) /\ SetCap(s, cap[s]) /\ Log("pop", s, "")
                                   \/ Clear(s) /\ SetCap(s, cap[s]) /\ Log("clear", s, "")
                                   \/ \E i \in Places(Len(c[s])) : Erase(s, i) /\ SetCap(s, cap[s]) /\ Log("erase", s, I(Arg(i)))
  \/ nv' = nv /\ \E k \in Sizes(Len(c[s])) : k <= MaxLen + 1 /\ Resize(s, k) /\ SetCap(s, Max(cap[s], k + 1)) /\ Log("resize", s, I(k))
  \* far beyond any capacity: an error of the bounded kinds
  \/ nv' = nv /\ ~IsV /\ cap' = cap /\ \E k \in Huge : Fail /\ (Log("resize", s, I(Arg(k))) \/ Log("reserve", s, I(Arg(k))))
  \/ nv' = nv /\ \E k \in 0..(MaxArg + 1) : Reserve(s, k) /\ SetCap(s, Max(cap[s], k)) /\ Log("reserve", s, I(k))
  \/ nv' = nv /\ IsV /\ Shrink(s) /\ SetCap(s, Len(c[s]) + 1) /\ Log("shrink", s, "")
  \/ nv' = nv + 1 /\ \E i \in {0, Len(c[s]) - 1} : \E via \in 0..3 : i >= 0 /\ Set(s, i, nv) /\ cap' = cap /\ Log("set", s, I(i) \o I(nv) \o I(via))

Make(s) ==
  \/ nv' = nv /\ New(s) /\ SetCap(s, 0) /\ Log("new", s, "")
  \/ \E k \in 0..MaxArg : nv' = nv + k /\ From(s, Vals(k)) /\ SetCap(s, k + 1) /\ Log("init", s, I(k) \o I(nv))
  \* conversions: ArrVec from a smaller ArrVec, Vector from Array and from ArrVec
  \/ kind = "arrvec" /\ \E k \in 0..n : nv' = nv + k /\ From(s, Vals(k)) /\ cap' = cap /\ Log("conv", s, I(k) \o I(nv) \o I(0))
  \/ IsV /\ \E k \in 0..MaxArg, w \in 0..1 : nv' = nv + k /\ From(s, Vals(k)) /\ SetCap(s, k + 1) /\ Log("conv", s, I(k) \o I(nv) \o I(w))

Pair(s, t) ==
  /\ nv' = nv
  /\ \/ s # t /\ Copy(s, t) /\ SetCap(s, cap[t]) /\ Log("copy", s, I(t - 1))
     \/ s # t /\ Move(s, t, IF kind = "array" THEN n ELSE 0)
        /\ cap' = (IF IsV THEN [cap EXCEPT ![s] = cap[t], ![t] = 0] ELSE cap) /\ (Log("move", s, I(t - 1)) \/ Log("massign", s, I(t - 1)))
     \/ s = t /\ Move(s, t, 0) /\ cap' = cap /\ Log("massign", s, I(t - 1))
     \/ Copy(s, t) /\ SetCap(s, Max(cap[s], Len(c[t]) + 1)) /\ Log("cassign", s, I(t - 1))
     \/ s # t /\ Swap(s, t) /\ cap' = [cap EXCEPT ![s] = cap[t], ![t] = cap[s]] /\ Log("swap", s, I(t - 1))
     \/ ~HasWild(c[s]) /\ ~HasWild(c[t]) /\ Eq(s, t) /\ cap' = cap /\ Log("eq", s, I(t - 1))

Next == \E s \in Slots : Grow(s) \/ Change(s) \/ Make(s) \/ \E t \in Slots : Pair(s, t)

\* ---- exhaustive exploration of the specification ---------------------------
Spec == Init /\ [][Next]_gvars
Small == \A s \in Slots : Len(c[s]) <= MaxLen /\ cap[s] <= MaxCap
\* lengths near nothing and near the bound of a larger bounded kind
NearEnds == \A s \in Slots : Len(c[s]) <= 1 \/ Len(c[s]) >= n - 1
Shape == <<kind, n, [s \in Slots |-> Len(c[s])], cap, [s \in Slots |-> HasWild(c[s])]>>
FixedCap == \A s \in Slots : ~IsV => cap[s] = n
CapEnough == \A s \in Slots : Len(c[s]) <= cap[s]
\* an error never changes anything
ErrorsAreInert == [][st' = "error" => c' = c]_cvars

GenNext == Next /\ PrintT("S|" \o hist')
GenSpec == Init /\ [][GenNext]_gvars
SimSpec == Spec
SimEmit == TLCGet("level") = Depth => PrintT("S|" \o hist)

\* ---- equality: every pair of small sequences ------------------------------------
Seqs == UNION {[1..k -> {1, 2}] : k \in 0..3}
Lit(v) == IF v = <<>> THEN "" ELSE IF Len(v) = 1 THEN I(v[1]) ELSE IF Len(v) = 2 THEN I(v[1]) \o I(v[2])
          ELSE I(v[1]) \o I(v[2]) \o I(v[3])
EqInit == /\ kind \in {"array", "arrvec", "vector"} /\ n = IF kind = "vector" THEN 0 ELSE 3
          /\ c = [s \in Slots |-> DefaultOf(kind, n)] /\ st = "ok" /\ res = 0 /\ cap = [s \in Slots |-> 0] /\ nv = 0 /\ hist = ""
EqNext == /\ hist = ""
          /\ \E u, v \in Seqs :
               /\ LenOk(Len(u)) /\ LenOk(Len(v))
               /\ hist' = kind \o " " \o ToString(n) \o "|initl 0" \o Lit(u) \o ";initl 1" \o Lit(v) \o ";eq 0 1;eq 1 0;cassign 0 1;eq 0 1;"
               /\ PrintT("S|" \o hist')
          /\ UNCHANGED <<kind, n, c, st, res, cap, nv>>
EqSpec == EqInit /\ [][EqNext]_gvars
=============================================================================
