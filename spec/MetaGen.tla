------------------------------- MODULE MetaGen -------------------------------
(* Expressions over types and constants, and the laws of their values.       *)
(* A script is an operation, its numbers and its types; each becomes an      *)
(* expression the compiler evaluates.                                        *)
EXTENDS Meta, TLC, FiniteSets

CONSTANTS Tags, MaxTypes, Far, MaxVals

Vals == {-Far, -1, 0, 2, 5}

VARIABLES op, a, ts
vars == <<op, a, ts>>

I(x) == " " \o ToString(x)
RECURSIVE Join(_)
Join(s) == IF s = <<>> THEN "" ELSE I(s[1]) \o Join(Tail(s))
Say == PrintT("S|" \o op \o "|" \o Join(a) \o "|" \o Join(ts))

Quals == {0, 100, 1000, 1100, 10000, 10100, 20000, 11000, 21100}
Types == {g + q : g \in Tags, q \in Quals}
SeqsOf(S, lo, hi) == UNION {[1..k -> S] : k \in lo..hi}
\* lists of types: the tags in every order, one position qualified in every way
Lists(lo, hi) == {[i \in 1..k |-> IF i = j THEN q + ((i * 2 + r) % 3) + 1 ELSE ((i * 2 + r) % 3) + 1 + (IF i = j + 1 THEN 10100 ELSE 0)]
                  : k \in lo..hi, j \in 0..hi, q \in Quals, r \in 0..2}
Plain(k) == [i \in 1..k |-> i]

TypeInit == /\ op \in {"noref", "noconst", "nocv", "noptr", "bare", "decay", "addl", "addr", "islref", "isconst"}
            /\ a = <<>> /\ \E c \in Types : ts = <<c>>
ListInit ==
  \/ op \in {"packat", "tupleat"} /\ ts \in (Lists(1, MaxTypes) \cup {Plain(9), Plain(17)}) /\ \E i \in 0..16 : i < Len(ts) /\ a = <<i>>
  \/ op = "find" /\ ts \in (SeqsOf(Tags, 1, MaxTypes) \cup {Plain(9)}) /\ a \in {<<t>> : t \in 1..9} \cup {<<1, 2>>, <<9, 3>>}
     /\ \E i \in DOMAIN ts : Tag(ts[i]) \in {a[k] : k \in DOMAIN a}
  \/ op = "prepend" /\ ts \in Lists(0, MaxTypes) /\ \E c \in {3, 10101} : a = <<c>>
  \/ op = "iseq" /\ ts = <<>> /\ \E k \in {0, 1, 2, 3, 7, 20} : a = <<k>>
  \/ op = "same" /\ a = <<>> /\ \E x, y \in {g + q : g \in {1, 2}, q \in Quals} : ts = <<x, y>>
  \* a[1]: 0 function pointer, 1 const and 2 plain call operator, 3 reference to 1, 4 plain and 5 const member,
  \* 6 a pointer already; a[2]: the result
  \/ op = "args" /\ ts \in Lists(0, MaxTypes) /\ \E k \in 0..5, r \in {1, 10102} : a = <<k, r>>
  \/ op = "fptr" /\ ts \in Lists(0, MaxTypes) /\ \E k \in 0..2, r \in {1, 10002, 1103} : a = <<k, r>>
  \/ op = "f2fp" /\ ts \in Lists(0, MaxTypes) /\ \E k \in {0, 6}, r \in {1, 10102} : a = <<k, r>>
  \* a[1]: the number of arguments; a[2]: 0 function pointer, 1 const call operator, 3 function
  \/ op = "calls" /\ \E k \in {0, 1, 3} :
       \/ \E x, y \in {g + q : g \in {1, 2}, q \in {0, 100, 10000, 10100, 20000, 20100}} : ts = <<x, y>> /\ a = <<1, k>>
       \/ \E x, y \in {1, 10001, 10101}, p, q \in {1, 10001, 20001} : ts = <<x, y, p, q>> /\ a = <<2, k>>
       \/ \E n \in 0..3, m \in 0..3 : n # m /\ ts = [i \in 1..(n + m) |-> 1] /\ a = <<n, k>>
\* values: a = <<kind>> \o list, kinds 0 bool, 1 int, 2 size_t, 3 long, 4 double (in halves), 5 unsigned char,
\* 6 size_t in units of 2^33 (of 2^18 in products)
Num(k) == CASE k = 0 -> {0, 1} [] k \in {2, 5, 6} -> {x \in Vals : x >= 0} [] OTHER -> Vals
Small(k, n) == [1..n -> Num(k)]
FoldInit ==
  /\ ts = <<>>
  /\ \/ op \in {"all", "any", "All", "Any"} /\ \E n \in 1..(MaxVals + 2) : \E s \in Small(0, n) : a = <<0>> \o s
     \/ op \in {"max", "min", "sum", "product", "foldl"} /\ \E k \in 1..6, n \in 1..MaxVals : \E s \in Small(k, n) : (op = "foldl" => k \notin {5, 6}) /\ a = <<k>> \o s
     \/ op \in {"Maximum", "Mininum"} /\ \E k \in {1, 2, 3, 6}, n \in 1..MaxVals : \E s \in Small(k, n) : a = <<k>> \o s
\* the ends of every type, by rank: 1 the lowest value, 2 the next, 3 minus one, 4 zero, 5 one, 6 next to the highest, 7 the
\* highest; an unsigned type begins at 4
EndInit ==
  /\ ts = <<>> /\ op \in {"xmax", "xmin"}
  /\ \E k \in {1, 2, 3, 4, 5, 7, 8, 9, 10}, n \in 1..3 : \E s \in [1..n -> IF k \in {2, 5, 9} THEN 4..7 ELSE 1..7] : a = <<k>> \o s
PairInit ==
  /\ ts = <<>>
  \* run-time operators
  /\ \/ \E f \in {"add", "sub", "mul", "div", "mod", "eq", "neq", "gt", "lt", "geq", "leq", "neg", "max", "min"} : op = "o" \o f
        /\ \E k \in {1, 3, 4} : \E x, y \in Vals : /\ (f \in {"div", "mod"} => k # 4 /\ y # 0) /\ (f = "mul" => k # 4)
                                                   /\ a = <<k, x, y>>
     \/ \E f \in {"and", "or", "not"} : op = "o" \o f /\ \E x, y \in {0, 1} : a = <<0, x, y>>
     \* constants
     \/ \E f \in {"add", "sub", "mul", "div", "eq", "neq"} : op = "ct" \o f /\ \E k \in 1..3 : \E x, y \in Num(k) :
           /\ (f = "div" => y # 0) /\ (k = 2 /\ f = "sub" => x >= y) /\ a = <<k, x, y>>
Init == (TypeInit \/ ListInit \/ FoldInit \/ EndInit \/ PairInit) /\ Say
Spec == Init /\ [][FALSE]_vars

\* ---- model: the laws of the definitions ---------------------------------------
LawInit == op = "" /\ (\/ \E c \in Types : ts = <<c>> /\ a = <<>>
                       \/ ts = <<>> /\ a \in SeqsOf(Vals, 1, MaxVals))
LawSpec == LawInit /\ [][FALSE]_vars
Laws == /\ ts # <<>> => TypeLaws(ts[1])
        /\ ts = <<>> => /\ \A t \in SeqsOf(Vals, 0, 2) : FoldLaws(a, t)
                        /\ Len(a) > 1 => PairLaws(a[1], a[2])
=============================================================================
