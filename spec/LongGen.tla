------------------------------- MODULE LongGen -------------------------------
(* Calls on long sequences, around the sizes at which a narrow counter wraps.*)
EXTENDS Integers, Sequences, TLC

CONSTANTS What, Lens, Kinds

VARIABLE dummy
I(x) == " " \o ToString(x)
Emit(fn, n, m, k) == PrintT("S|" \o "long|" \o fn \o I(n) \o I(m) \o I(k) \o ";")
\* second lengths or positions that matter for a length n
Seconds(n) == {0, n \div 2, n} \cup {x \in {255, 256, 257, 32768, 65535, 65536} : x < n}
Near(n) == {x \in {0, 255, 256, 65535, 65536, n - 1} : x >= 0 /\ x < n}
LongOther(n) == IF n < 65536 THEN 66000 ELSE 300
One(fns) == \A fn \in fns, n \in Lens, k \in Kinds : Emit(fn, n, 0, k)
Two(fns) == \A fn \in fns, n \in Lens, k \in Kinds : \A m \in {n, n \div 2, n + 3, LongOther(n)} : Emit(fn, n, m, k)
Init ==
  /\ dummy = 0
  /\ CASE What = "hof" -> /\ One({"fe1", "map1", "fei", "fem", "feim", "foldl", "foldr", "fori", "cfi", "cfin", "cfe", "cfen"})
                          /\ Two({"fe2", "fe3", "map2", "mapi", "fem2"})
       [] What = "build" -> /\ One({"concatn", "intern", "cmap2", "cmapn", "fromfn"})
                            /\ Two({"append2", "append3", "concat2", "inter2"})
       [] What = "search" -> /\ One({"filter", "findis", "elemis", "isnull"})
                             /\ \A fn \in {"filterge", "find", "findi", "elem", "elemi", "elemis1"}, n \in Lens, k \in Kinds : \A m \in Seconds(n) : Emit(fn, n, m, k)
       [] What = "slice" -> /\ \A fn \in {"take", "takew", "drop", "dropw", "slice"}, n \in Lens, k \in Kinds : \A m \in Seconds(n) : Emit(fn, n, m, k)
                            /\ \A fn \in {"tail", "init", "ends"}, n \in Lens \ {0}, k \in Kinds : Emit(fn, n, 0, k)
       [] What = "containers" -> /\ One({"push", "reserve", "shrink", "copy", "move", "convert"})
                                 /\ \A n \in Lens \ {0}, k \in Kinds : Emit("equal", n, 0, k)
                                 /\ \A fn \in {"resize", "insert", "pop"}, n \in Lens, k \in Kinds : \A m \in Seconds(n) : Emit(fn, n, m, k)
                                 /\ \A n \in Lens, k \in Kinds : \A m \in Near(n) : Emit("erase", n, m, k)
       [] What = "rings" -> \A fn \in {"vcq300", "vcq66000", "vcqcopy", "vcb300", "vcb66000"}, n \in Lens : \A m \in {0, 1, n \div 2, n} : Emit(fn, n, m, 0)
       [] What = "sort" -> \A fn \in {"sort", "unstable", "heap", "tim", "down", "stable"}, n \in Lens, k \in Kinds : Emit(fn, n, 0, k)
       [] What = "strings" -> /\ One({"spush", "sfill"}) /\ Two({"sappend", "splus", "sassign"})
                              /\ \A n \in Lens, k \in Kinds : \A m \in Seconds(n) : Emit("sinsert", n, m, k) /\ Emit("ssubstr", n, m, k)
                              /\ \A n \in Lens, k \in Kinds : \A m \in Near(n) : Emit("serase", n, m, k)
                              /\ \A n \in Lens \ {0}, k \in Kinds : Emit("scompare", n, 0, k)
       [] What = "queues" -> One({"bq", "nbq", "bq300", "nbq300", "db300"})
       [] What = "files" -> One({"flines", "fline"})
Spec == Init /\ [][FALSE]_dummy
=============================================================================
