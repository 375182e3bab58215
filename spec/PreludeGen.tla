------------------------------ MODULE PreludeGen ------------------------------
(* Enumerates the calls: every kind of argument, every length it can have,   *)
(* in every combination of the kinds used for that number of arguments.      *)
EXTENDS Integers, Sequences, TLC, FiniteSets

CONSTANTS What, Deep

VARIABLE dummy

I(x) == " " \o ToString(x)
RECURSIVE Join(_)
Join(s) == IF s = <<>> THEN "" ELSE I(s[1]) \o Join(Tail(s))

\* <<kind, bound>>
Kinds1 == {<<0, 1>>, <<0, 2>>, <<0, 3>>, <<0, 4>>, <<1, 1>>, <<1, 3>>, <<2, 1>>, <<2, 3>>, <<3, 1>>, <<3, 3>>, <<4, 1>>, <<4, 2>>, <<4, 4>>,
           <<5, 1>>, <<5, 4>>, <<6, 1>>, <<6, 3>>, <<7, 0>>, <<8, 0>>, <<9, 0>>, <<10, 3>>, <<11, 4>>, <<12, 0>>,
           <<0, 0>>, <<1, 0>>, <<2, 0>>, <<4, 0>>, <<5, 0>>}
Kinds2 == {<<0, 0>>, <<4, 0>>, <<0, 2>>, <<0, 3>>, <<4, 2>>, <<4, 4>>, <<6, 3>>, <<7, 0>>, <<8, 0>>, <<9, 0>>}
Kinds3 == {<<0, 2>>, <<4, 3>>, <<7, 0>>}
KindsOf(n) == CASE n = 1 -> Kinds1 [] n = 2 -> Kinds2 [] OTHER -> Kinds3
Static(k) == k[1] \in {0, 1, 2, 3, 10}
Bounded(k) == k[1] \in {4, 5, 6, 11}
Writable(k) == k[1] \in {0, 1, 3, 4, 6, 7, 9}
Lens(k, n) == IF Static(k) THEN {k[2]}
              ELSE IF Bounded(k) THEN 0..k[2]
              ELSE IF n = 1 THEN {0, 1, 2, 3, 5, 17} ELSE IF n = 2 THEN {0, 1, 2, 4} ELSE {0, 1, 3}
\* a ring starts at offset 0 or, when it has one, elsewhere
Rots(k) == IF k[1] \in {3, 6} THEN {0, 1, 2} ELSE {0}

Shapes(n) == UNION {{<<k, len, rot>> : len \in Lens(k, n), rot \in (IF n = 1 THEN Rots(k) ELSE {k[1] % 3})} : k \in KindsOf(n)}
SeqText(s, i) == "seq" \o I(s[1][1]) \o I(s[1][2]) \o I(s[3]) \o Join([j \in 1..s[2] |-> 10 * i + j]) \o ";"
SeqVals(s, vs) == "seq" \o I(s[1][1]) \o I(s[1][2]) \o I(s[3]) \o Join(vs) \o ";"
Emit(fn, a, text) == PrintT("S|" \o fn \o Join(a) \o "|" \o text)

One(Fns, Params, Ok(_, _)) == \A s \in Shapes(1), fn \in Fns, p \in Params : Ok(fn, s) => Emit(fn, p, SeqText(s, 1))
Two(Fns, Ok(_, _)) == \A s, t \in Shapes(2), fn \in Fns : Ok(fn, s) /\ Ok(fn, t) => Emit(fn, <<>>, SeqText(s, 1) \o SeqText(t, 2))
Three(Fns, Ok(_, _)) == \A s, t, u \in Shapes(3), fn \in Fns :
                          Ok(fn, s) /\ Ok(fn, t) /\ Ok(fn, u) => Emit(fn, <<>>, SeqText(s, 1) \o SeqText(t, 2) \o SeqText(u, 3))

AnyOk(fn, s) == TRUE
MutOk(fn, s) == fn \in {"fem", "feim", "cfem"} => Writable(s[1])
\* no element of a long cartesian walk is visited more often than its type can count
Hof(x0) == /\ One({"map", "mapi", "fe", "fei", "cfe", "fem", "feim", "cfem"}, {<<>>}, MutOk)
           /\ One({"foldl", "foldr"}, {<<0>>, <<7>>}, AnyOk)
           /\ Two({"map", "mapi", "fe", "fei", "cfe", "fem", "feim", "cfem"}, MutOk)
           /\ Three({"map", "mapi", "fe", "fei", "cfe", "fem", "feim", "cfem"}, MutOk)
           /\ \A n \in {0, 1, 2, 5, 40} : Emit("fori", <<n>>, "") /\ Emit("cfi1", <<n>>, "")
           /\ \A n, m \in 0..3 : Emit("cfi2", <<n, m>>, "") /\ \A k \in 0..3 : Emit("cfi3", <<n, m, k>>, "")
           /\ \A x \in {0, 5, 12}, fn \in {"comp1", "comp2", "comp3", "comp4"} : Emit(fn, <<x>>, "")
           /\ \A x, y \in {0, 5, 12} : Emit("comp5", <<x, y>>, "")

\* (an array of nothing has no size, which std::allocator does not take)
\* sequences of sequences: outer and inner kind with their possible lengths, separators
Outers == {<<0, 0>>, <<4, 0>>, <<0, 1>>, <<0, 3>>, <<4, 3>>, <<7, 0>>, <<9, 0>>}
Inners == {<<0, 0>>, <<4, 0>>, <<0, 2>>, <<4, 3>>, <<7, 0>>, <<9, 0>>}
Seps == {<<0, 0>>, <<0, 1>>, <<0, 2>>, <<4, 2>>, <<7, 0>>}
OLens(k) == IF Static(k) THEN {k[2]} ELSE IF Bounded(k) THEN 0..k[2] ELSE 0..3
ILens(k) == IF Static(k) THEN {k[2]} ELSE IF Bounded(k) THEN {0, 1, 3} \cap (0..k[2]) ELSE {0, 2}
SLens(k) == IF Static(k) THEN {k[2]} ELSE {0, 1, 2}
RECURSIVE InnerText(_, _, _)
InnerText(k, ls, i) == IF i > Len(ls) THEN "" ELSE SeqText(<<k, ls[i], 0>>, i) \o InnerText(k, ls, i + 1)
Nested(x0) == \A o \in Outers : \A k \in Inners \ (IF o[1] \in {7, 9} THEN {<<0, 0>>} ELSE {}) : \A m \in OLens(o) : \A ls \in [1..m -> ILens(k)] :
                /\ Emit("concat", <<o[1], o[2], k[1], k[2]>>, InnerText(k, ls, 1))
                /\ \A d \in Seps : \A q \in SLens(d) :
                     Emit("intercalate", <<o[1], o[2], k[1], k[2]>>, SeqText(<<d, q, 0>>, 9) \o InnerText(k, ls, 1))

Build(x0) == /\ One({"append", "cmap"}, {<<>>}, AnyOk)
             /\ Two({"append", "cmap"}, AnyOk)
             /\ Three({"append", "cmap"}, AnyOk)
             /\ \A n \in 0..6 : Emit("fromfn", <<n>>, "")
             /\ Emit("fromfn", <<33>>, "")
             /\ \A n \in {0, 1, 2, 5, 9} : Emit("fromfnct", <<n>>, "")
             /\ Nested(x0)

\* contents over {1, 2, 3} (every pattern for short sequences) for searching
Patterns(len) == IF len <= 3 THEN [1..len -> 1..3]
                 ELSE {[i \in 1..len |-> 1 + ((i * a + b) % 3)] : a \in 0..2, b \in 0..2}
                      \cup {[i \in 1..len |-> IF i = j THEN 2 ELSE 1] : j \in {1, len}}
Search(x0) == /\ \A s \in Shapes(1) : \A v \in Patterns(s[2]) :
                   /\ \A fn \in {"filter", "find", "findi", "findis"} :
                        /\ \A p \in {0, 1, 2} : Emit(fn, <<p, 0>>, SeqVals(s, v))
                        /\ \A p \in {3, 4}, b \in {1, 2} : Emit(fn, <<p, b>>, SeqVals(s, v))
                   /\ \A fn \in {"elem", "elemi", "elemis"}, b \in {1, 3, 9} : Emit(fn, <<0, b>>, SeqVals(s, v))
              /\ \A s \in Shapes(1) : Emit("isnull", <<0, 0>>, SeqText(s, 1))

Init == /\ dummy = 0
        /\ CASE What = "hof" -> Hof(dummy) [] What = "build" -> Build(dummy) [] What = "search" -> Search(dummy)
Spec == Init /\ [][FALSE]_dummy
=============================================================================
