------------------------------- MODULE StatsGen -------------------------------
(* Sequences to take statistics of, printed as scripts:                      *)
(* one mode kind bound rotation x...    two mode kind bound swap x... y...   *)
(* long mode kind n pattern                                                  *)
EXTENDS Integers, Sequences, TLC

CONSTANTS What, MinLen, MaxLen, Top

I(x) == ToString(x)
RECURSIVE Write(_)
Write(m) == IF m = <<>> THEN "" ELSE " " \o I(m[1]) \o Write(Tail(m))
Kinds(n) == ({0} \X ({n} \cap {1, 2, 3, 4})) \cup ({1, 2, 3} \X ({n} \cap {1, 3})) \cup ({4} \X {k \in {1, 2, 4} : n <= k})
            \cup ({5} \X {k \in {1, 4} : n <= k}) \cup ({6} \X {k \in {1, 3} : n <= k}) \cup ({7, 8, 9} \X {0})
Pairs(n) == ({0} \X ({n} \cap {2, 3})) \cup ({4} \X {k \in {2, 4} : n <= k}) \cup ({6} \X {k \in {3} : n <= k}) \cup ({7, 8, 9} \X {0})
Of(n) == [1..n -> (-Top)..Top]
Ones(z) == UNION {{"one " \o I(mode) \o " " \o I(k[1]) \o " " \o I(k[2]) \o " " \o I(r) \o Write(m) :
                     mode \in {0, 1}, k \in Kinds(n), r \in {0, 1}, m \in Of(n)} : n \in MinLen..MaxLen}
Twos(z) == UNION {{"two " \o I(mode) \o " " \o I(k[1]) \o " " \o I(k[2]) \o " " \o I(r) \o Write(m) :
                     mode \in {0, 1}, k \in Pairs(n), r \in {0, 1}, m \in Of(2 * n)} : n \in MinLen..MaxLen}
Longs(z) == {"long " \o I(mode) \o " " \o I(k) \o " " \o I(n) \o " " \o I(p) : mode \in {0, 1}, k \in {7, 8, 9}, n \in {20, 127, 128, 130, 200, 255, 256, 258, 300}, p \in 0..5}
Lines(z) == {"line " \o I(n) \o " " \o I(a) \o " " \o I(b) : n \in {2, 3, 10, 129, 257, 1290, 1291, 1300, 1626, 3000, 46341, 50000, 66000}, a \in {-3, 0, 5}, b \in {-1, 1, 2}}
Set == CASE What = "one" -> Ones(0) [] What = "two" -> Twos(0) [] What = "line" -> Lines(0) [] OTHER -> Longs(0)
VARIABLE s
Init == s = ""
Next == s = "" /\ \E x \in Set : s' = x /\ PrintT("S|" \o x)
Spec == Init /\ [][Next]_s
=============================================================================
