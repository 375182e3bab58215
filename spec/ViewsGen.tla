------------------------------ MODULE ViewsGen ------------------------------
(* Histories of view objects over a source of N elements.                    *)
EXTENDS Views, TLC
CONSTANTS Set, Depth, Use, N
VARIABLES hist
gvars == <<src, w, st, res, hist>>

I(x) == " " \o ToString(x)
Source == IF Set = "str" THEN SubSeq(<<97, 98, 0, 97, 98, 99, 120, 0>>, 9 - N, 8) ELSE SubSeq(<<11, 12, 13, 14, 15, 16>>, 1, N)
Slots == Use
Kind(s) == Slot(Set)[s]
Chars == {<<>>, <<97>>, <<97, 98>>, <<97, 98, 99>>, <<98>>, <<97, 98, 99, 120>>, <<120>>}
RECURSIVE Codes(_)
Codes(v) == IF v = <<>> THEN "" ELSE I(Head(v)) \o Codes(Tail(v))
Log(t) == hist' = hist \o t \o ";"

Init == src = Source /\ w = Defaults(Set) /\ st = "ok" /\ res = 0 /\ hist = Set \o I(N) \o "|"

\* an ArrayView that never was given a place must not be read or converted
Placed(s) == w[s].off >= 0 \/ w[s].len = 0
Lens(k, off) == IF k[1] = "a" THEN {k[2]} ELSE {n \in 0..(IF k[1] = "b" THEN k[2] ELSE Len(src)) : off < 0 \/ off + n <= Len(src)}
Convertible(s, t) == LET a == Kind(s)[1] b == Kind(t)[1] IN
    \/ (a = b /\ Kind(s)[2] = Kind(t)[2])
    \/ (a = "b" /\ b = "a")
    \/ (a = "v" /\ b \in {"a", "b"})
Next ==
  \/ \E s \in Slots : \/ New(s, Kind(s)) /\ Log("new" \o I(s))
                      \/ \E off \in -1..Len(src) : \E n \in Lens(Kind(s), off) :
                           off + n <= Len(src) /\ Make(s, off, n) /\ Log("mk" \o I(s) \o I(off) \o I(n))
  \/ \E s, t \in Slots : \/ Convertible(s, t) /\ (Placed(t) \/ Kind(s) = Kind(t)) /\ Copy(s, t) /\ \E m \in {"cp", "as", "mv"} : Log(m \o I(s) \o I(t))
                         \/ Kind(s) = Kind(t) /\ Same(s, t) /\ Log("eq" \o I(s) \o I(t))
  \/ \E s \in Slots, x \in {0, 1, 2, 3, 4, -1} : Kind(s)[1] = "a"
        /\ Fits(Kind(s), IF x < 0 THEN 1000000 ELSE x) /\ (Log("rs" \o I(s) \o I(x)) \/ Log("rv" \o I(s) \o I(x)))
  \/ \E i \in 0..(Len(src) - 1) : \E x \in (IF Set = "str" THEN {97, 99} ELSE {TLCGet("level") + 50}) :
        (Set = "str" => src[i + 1] # 0) /\ Write(i, x) /\ Log("wr" \o I(i) \o I(x))
  \/ Set = "str" /\ \E s \in Slots :
        \/ \E off \in 0..(Len(src) - 1) : MakeC(s, off) /\ Log("mkc" \o I(s) \o I(off))
        \/ \E c \in Chars : Placed(s) /\ EqChars(s, c) /\ Log("eqc" \o I(s) \o Codes(c))
Spec == Init /\ [][Next]_gvars
SimEmit == TLCGet("level") = Depth => PrintT("S|" \o hist)
NoHist == <<src, w>>
GenNext == Next /\ PrintT("S|" \o hist')
GenSpec == Init /\ [][GenNext]_gvars
\* only views move: the source as it was
Fresh == src = Source
=============================================================================
