------------------------------- MODULE QueueGen -------------------------------
(* Workloads for the queues: who does what, on a queue that was used before.  *)
EXTENDS Integers, Sequences, TLC

CONSTANTS What, Caps
VARIABLE dummy

I(x) == " " \o ToString(x)
RECURSIVE Text(_)
Text(p) == IF p = <<>> THEN "" ELSE Head(p) \o Text(Tail(p))
RECURSIVE Texts(_)
Texts(ps) == IF ps = <<>> THEN "" ELSE Text(Head(ps)) \o (IF Len(ps) = 1 THEN "" ELSE ";") \o Texts(Tail(ps))
Emit(kind, cap, pe, pd, ps) == PrintT("S|" \o kind \o I(cap) \o I(pe) \o I(pd) \o "|" \o Texts(ps))

\* all programs of length n, in lexicographic order of the alphabet as numbers
Programs(abc, ns) == UNION {[1..n -> abc] : n \in ns}
\* threads are alike, so their programs are put in order
Rank(c) == CASE c = "e" -> 1 [] c = "d" -> 2 [] c = "y" -> 3 [] c = "g" -> 4 [] c = "s" -> 5 [] OTHER -> 6
RECURSIVE Code(_)
Code(p) == IF p = <<>> THEN 0 ELSE Code(SubSeq(p, 1, Len(p) - 1)) * 7 + Rank(p[Len(p)])
Has(ps, c) == \E i \in 1..Len(ps) : \E j \in 1..Len(ps[i]) : ps[i][j] = c
Total(ps) == LET RECURSIVE Sum(_) Sum(i) == IF i = 0 THEN 0 ELSE Sum(i - 1) + Len(ps[i]) IN Sum(Len(ps))

Pairs(abc, ns, total) == {<<a, b>> : a \in Programs(abc, ns), b \in {p \in Programs(abc, ns) : TRUE}} 
Good2(abc, ns, total) == {ps \in Pairs(abc, ns, total) : Code(ps[1]) <= Code(ps[2]) /\ Total(ps) <= total}
Good3(abc, ns, total) == {ps \in {<<a, b, c>> : a \in Programs(abc, ns), b \in Programs(abc, ns), c \in Programs(abc, ns)} :
                            Code(ps[1]) <= Code(ps[2]) /\ Code(ps[2]) <= Code(ps[3]) /\ Total(ps) <= total}
Good4(abc) == {ps \in {<<a, b, c, d>> : a \in Programs(abc, {1}), b \in Programs(abc, {1}), c \in Programs(abc, {1}), d \in Programs(abc, {1, 2})} :
                 Code(ps[1]) <= Code(ps[2]) /\ Code(ps[2]) <= Code(ps[3]) /\ Code(ps[3]) <= Code(ps[4])}
\* what was done before: (0, 0) nothing; positions in a bounded ring differ
Before(cap) == CASE cap = 0 -> {<<0, 0>>, <<2, 1>>} [] cap = 1 -> {<<0, 0>>, <<1, 0>>, <<3, 1>>}
                 [] cap = 2 -> {<<0, 0>>, <<1, 0>>, <<2, 1>>, <<3, 0>>, <<3, 2>>} [] OTHER -> {<<0, 0>>, <<2, 0>>, <<4, 1>>, <<5, 3>>}

Two(kind, abc, ns, total) == \A cap \in Caps : \A ps \in Good2(abc, ns, total) : Emit(kind, cap, 0, 0, ps)
TwoUsed(kind, abc, ns, total) == \A cap \in Caps : \A b \in Before(cap) \ {<<0, 0>>} : \A ps \in Good2(abc, ns, total) : Emit(kind, cap, b[1], b[2], ps)
Three(kind, abc, ns, total) == \A cap \in Caps : \A ps \in Good3(abc, ns, total) : (Has(ps, "e") => Emit(kind, cap, 0, 0, ps))
Four(kind, abc) == \A cap \in Caps : \A ps \in Good4(abc) : ((Has(ps, "e") /\ Has(ps, "d")) => Emit(kind, cap, 0, 0, ps))

\* a double buffer: producers, and one consumer that comes last
Producers(k, ns) == {ps \in [1..k -> Programs({"e"}, ns)] : \A i \in 1..(k - 1) : Len(ps[i]) <= Len(ps[i + 1])}
Buffers(k, ns, cs, more) == \A cap \in Caps : \A b \in (IF more THEN Before(cap) ELSE {<<0, 0>>}) :
    \A ps \in Producers(k, ns) : \A c \in Programs({"g", "s"}, cs) :
        ((\E i \in 1..Len(c) : c[i] = "s") => Emit("d", cap, b[1], b[2], ps \o <<c>>))
BuffersMore(x0) == \A cap \in Caps : \A c \in {<<"e", "s", "g", "g">>, <<"m", "s", "m", "g">>, <<"s", "e", "s", "g", "g">>} :
                     Emit("d", cap, 0, 0, <<<<"e", "e">>, c>>)

Init == dummy = 0 /\
    CASE What = "b"    -> Two("b", {"e", "d"}, {1, 2, 3}, 5) /\ TwoUsed("b", {"e", "d"}, {1, 2}, 3)
                          /\ Three("b", {"e", "d"}, {1, 2}, 5) /\ Four("b", {"e", "d"})
      [] What = "n"    -> Two("n", {"e", "d"}, {1, 2, 3}, 5) /\ Two("n", {"e", "d", "y"}, {1, 2}, 4) /\ TwoUsed("n", {"e", "d", "y"}, {1, 2}, 3)
                          /\ Three("n", {"e", "d", "y"}, {1, 2}, 4) /\ Four("n", {"e", "d"})
      [] What = "d"    -> Buffers(1, {1, 2, 3}, {1, 2, 3, 4}, TRUE) /\ Buffers(2, {1, 2}, {2, 3, 4}, FALSE)
                          /\ Buffers(3, {1}, {2, 3}, FALSE) /\ BuffersMore(dummy)
      [] What = "bigb" -> Two("b", {"e", "d"}, {3, 4}, 8) /\ TwoUsed("b", {"e", "d"}, {1, 2, 3}, 6) /\ Three("b", {"e", "d"}, {1, 2, 3}, 7)
      [] What = "bign" -> Two("n", {"e", "d"}, {3, 4}, 8) /\ TwoUsed("n", {"e", "d", "y"}, {1, 2, 3}, 5) /\ Three("n", {"e", "d"}, {1, 2, 3}, 7)
      [] What = "bigd" -> Buffers(1, {3, 4, 5}, {3, 4, 5, 6}, TRUE) /\ Buffers(2, {2, 3}, {3, 4, 5}, TRUE) /\ Buffers(3, {1, 2}, {2, 3, 4}, FALSE)
Spec == Init /\ [][FALSE]_dummy
=============================================================================
