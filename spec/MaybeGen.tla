------------------------------ MODULE MaybeGen ------------------------------
EXTENDS Maybe, TLC

CONSTANTS Vals, Depth

\* configuration files have no negative numbers
Ints == {v - 10 : v \in Vals}

VARIABLES hist
gvars == <<m, st, out, calls, hist>>

Init == m = [s \in Slots |-> Nothing] /\ st = "ok" /\ out = <<>> /\ calls = <<>> /\ hist = "|"

I(x) == " " \o ToString(x)
Log(t, s, rest) == hist' = hist \o t \o I(s - 1) \o rest \o ";"
NotWild(s) == m[s] # Just(Wild)

Next ==
  \E s \in Slots :
    \/ \E v \in Ints : \/ Become(s, Just(v)) /\ \E o \in {"just", "justmv", "setjust"} : Log(o, s, I(v))
                       \/ DoPure(s, v) /\ Log("pure", s, I(v))
                       \/ DoLeftId(v) /\ Log("leftid", s, I(v))
    \/ Become(s, Nothing) /\ \E o \in {"none", "setnone"} : Log(o, s, "")
    \/ \E t \in Slots : \/ Copy(s, t) /\ Log("cassign", s, I(t - 1))
                        \/ Move(s, t, IsJust(m[t])) /\ Log("massign", s, I(t - 1))
                        \/ s # t /\ Copy(s, t) /\ Log("copy", s, I(t - 1))
                        \/ s # t /\ Move(s, t, IsJust(m[t])) /\ Log("move", s, I(t - 1))
    \/ Value(s) /\ Log("value", s, "")
    \/ Take(s) /\ Log("take", s, "")
    \/ NotWild(s) /\
       \/ \E f \in 0..3 : \/ DoFmap(s, f) /\ \E w \in 0..1 : Log("fmap", s, I(f) \o I(w))
                          \/ \E h \in 0..1, w \in 0..1 : DoAp(s, f, h = 1) /\ Log("ap", s, I(f) \o I(h) \o I(w))
                          \/ DoBind(s, f) /\ \E w \in 0..2 : Log("bind", s, I(f) \o I(w))
       \/ DoAssoc(s) /\ \E o \in {"assocl", "assocr"} : Log(o, s, "")
       \/ DoComp(s) /\ \E o \in {"compl", "compr"} : Log(o, s, "")
       \/ DoIdent(s) /\ \E o \in {"ident", "rightid"} : Log(o, s, "")

Shape == m
GenNext == Next /\ PrintT("S|" \o hist')
GenSpec == Init /\ [][GenNext]_gvars
SimSpec == Init /\ [][Next]_gvars
SimEmit == TLCGet("level") = Depth => PrintT("S|" \o hist)

AtMostOne == \A s \in Slots : Len(m[s]) <= 1
CallsAtMostInput == Len(calls) <= 2
LawsHold == Laws(-9..9)
=============================================================================
