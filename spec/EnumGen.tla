------------------------------- MODULE EnumGen -------------------------------
(* Histories of two Enums, printed as scripts.                              *)
EXTENDS Enum, TLC, FiniteSets

CONSTANTS Nalt, Pos, Depth, Matches

VARIABLES nv, hist

gvars == <<n, e, st, res, who, arg, nv, hist>>

Init == /\ n = Nalt /\ e = [s \in Slots |-> Held(0, 0)] /\ st = "ok" /\ res = 0 /\ who = <<>> /\ arg = <<>>
        /\ nv = 1 /\ hist = ToString(n) \o "|"

I(x) == " " \o ToString(x)
Log(t, s, rest) == hist' = hist \o t \o I(s - 1) \o rest \o ";"

Next ==
  \E s \in Slots :
    \/ \E a \in Pos : Make(s, a, nv) /\ nv' = nv + 1
                      /\ \E o \in {"make", "makemv", "set"} : Log(o, s, I(a) \o I(nv))
    \/ \E a \in Pos : Write(s, a, nv) /\ nv' = nv + 1 /\ \E o \in {"writet", "writei"} : Log(o, s, I(a) \o I(nv))
    \/ \E a \in Pos : Take(s, a) /\ nv' = nv /\ \E o \in {"taket", "takei"} : Log(o, s, I(a))
    \/ nv' = nv /\ \E t \in Slots :
         \/ Copy(s, t) /\ Log("cassign", s, I(t - 1))
         \/ Move(s, t, e[t].alt) /\ Log("massign", s, I(t - 1))
         \/ s # t /\ Copy(s, t) /\ Log("copy", s, I(t - 1))
         \/ s # t /\ Move(s, t, e[t].alt) /\ Log("move", s, I(t - 1))
         \/ s < t /\ Swap(s, t) /\ Log("swap", s, I(t - 1))
         \/ Answer(Same(s, t)) /\ Log("eq", s, I(t - 1))
         \/ Answer(~Same(s, t)) /\ Log("ne", s, I(t - 1))
    \/ nv' = nv /\ \E o \in Matches : Match(s, Branches(o), HasWildcard(o)) /\ Log(o, s, "")

Spec == Init /\ [][Next]_gvars
Shape == <<e[1].alt, e[2].alt, e[1].val = e[2].val, e[1].val = Wild, e[2].val = Wild>>
GenNext == Next /\ PrintT("S|" \o hist')
GenSpec == Init /\ [][GenNext]_gvars

\* random histories of length Depth
SimSpec == Init /\ [][Next]_gvars
SimEmit == TLCGet("level") = Depth => PrintT("S|" \o hist)

\* every ordered pair of positions through one fixed tour
Tour(a, b) ==
  ToString(Nalt) \o "|make 0" \o I(a) \o " 5;makemv 1" \o I(b) \o " 6;eq 0 1;ne 0 1;"
  \o (LET F[k \in SUBSET Matches] == IF k = {} THEN "" ELSE LET m == CHOOSE x \in k : TRUE IN m \o " 0;" \o F[k \ {m}] IN F[Matches])
  \o "writet 0" \o I(b) \o " 7;writei 0" \o I(a) \o " 8;copy 0 1;eq 0 1;set 1" \o I(a) \o " 9;massign 0 1;swap 0 1;set 0"
  \o I(b) \o " 10;cassign 1 0;cassign 1 1;eq 1 0;taket 0" \o I(a) \o ";takei 0" \o I(b) \o ";move 0 1;massign 0 0;"
TourInit == Init /\ \A a, b \in Pos : PrintT("S|" \o Tour(a, b))
TourSpec == TourInit /\ [][FALSE]_gvars
=============================================================================
