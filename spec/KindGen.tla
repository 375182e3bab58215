------------------------------- MODULE KindGen -------------------------------
(* Enumerates calls whose result type is asked for without making them: every *)
(* kind of argument with bounds far beyond what can be run, compile-time      *)
(* counts below, at and above them.  Judged by KindTrace (operation "type").  *)
EXTENDS Integers, Sequences, TLC

CONSTANTS Bounds, Bounds2

VARIABLE dummy

I(x) == " " \o ToString(x)
RECURSIVE Join(_)
Join(s) == IF s = <<>> THEN "" ELSE I(s[1]) \o Join(Tail(s))
Emit(fn, a, kd, nb) == PrintT("S|" \o fn \o Join(a) \o "|" \o Join(kd) \o "|" \o Join(nb))

Dyn == {7, 8, 9}
Kinds == (0..6) \cup Dyn
Of(k, B) == IF k \in Dyn THEN {0} ELSE B
Small(n, m) == n = 0 \/ m = 0 \/ m < 2000000000 \div n

One == \A k \in Kinds : \A n \in Of(k, Bounds) : \A fn \in {"map", "mapi", "append", "cmap", "filter", "elemis", "findis"} : Emit(fn, <<>>, <<k>>, <<n>>)
K2 == {0, 3, 4, 6, 7}
Two == \A j, k \in K2 : \A n \in Of(j, Bounds2), m \in Of(k, Bounds2) :
         /\ \A fn \in {"map", "mapi", "append"} : Emit(fn, <<>>, <<j, k>>, <<n, m>>)
         /\ Small(n, m) => Emit("cmap", <<>>, <<j, k>>, <<n, m>>)
K3 == {0, 4, 7}
Three == \A i, j, k \in K3 : \A n \in Of(i, {3, 300}), m \in Of(j, {3, 300}), p \in Of(k, {2, 257}) :
           \A fn \in {"map", "mapi", "append", "cmap"} : Emit(fn, <<>>, <<i, j, k>>, <<n, m, p>>)
\* outer, inner, separator; what has no size is no element of a heap container
Nested == \A o, k \in K3 : \A n \in Of(o, Bounds2), m \in Of(k, Bounds2) :
            (Small(n, m) /\ (o = 7 => k # 0 \/ m > 0)) =>
              /\ Emit("concat", <<>>, <<o, k>>, <<n, m>>)
              /\ \A s \in K3 : \A p \in Of(s, {0, 1, 300}) : Small(n, m + p) => Emit("intercalate", <<>>, <<o, k, s>>, <<n, m, p>>)
Ct == \A n \in Bounds : Emit("fromfnct", <<n>>, <<>>, <<>>)
\* views: fn, first and second argument, which of them are compile-time constants
Near(n) == {0, 1, 2, 300, n, n + 1, 65536} \cup (IF n > 0 THEN {n - 1} ELSE {})
Views == \A k \in Kinds : \A n \in Of(k, Bounds) :
           /\ \A fn \in {"take", "drop"} : Emit(fn, <<2, 0, 0>>, <<k>>, <<n>>) /\ \A x \in Near(n) : Emit(fn, <<x, 0, 1>>, <<k>>, <<n>>)
           /\ \A fn \in {"takew", "dropw"} : Emit(fn, <<2, 0, 0>>, <<k>>, <<n>>)
           /\ (k \in Dyn \/ n > 0) => \A fn \in {"tail", "init"} : Emit(fn, <<0, 0, 0>>, <<k>>, <<n>>)
           /\ Emit("slice", <<1, 2, 0>>, <<k>>, <<n>>)
           /\ \A x \in Near(n) : Emit("slice", <<x, 3, 2>>, <<k>>, <<n>>) /\ Emit("slice", <<1, x, 3>>, <<k>>, <<n>>)
                                 /\ \A y \in {0, 2, n, 70001} : Emit("slice", <<x, y, 1>>, <<k>>, <<n>>)

Init == dummy = 0 /\ One /\ Two /\ Three /\ Nested /\ Ct /\ Views
Spec == Init /\ [][FALSE]_dummy
=============================================================================
