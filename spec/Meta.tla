-------------------------------- MODULE Meta ---------------------------------
(* Constants and types computed at compile time.  A type is a number: its    *)
(* tag, + 100 when const, + 1000 for a pointer (to const with + 100),        *)
(* + 10000 for an lvalue and + 20000 for an rvalue reference.                *)
EXTENDS Integers, Sequences

\* ---- types --------------------------------------------------------------------
Tag(c) == c % 100
IsC(c) == (c \div 100) % 10 = 1
IsP(c) == (c \div 1000) % 10 = 1
Ref(c) == c \div 10000
NoRef(c) == c % 10000
TopConst(c) == Ref(c) = 0 /\ ~IsP(c) /\ IsC(c)
NoConst(c) == IF TopConst(c) THEN c - 100 ELSE c
NoPtr(c) == IF Ref(c) = 0 /\ IsP(c) THEN c - 1000 ELSE c
Bare(c) == NoConst(NoRef(c))
\* references collapse
AddL(c) == NoRef(c) + 10000
AddR(c) == IF Ref(c) = 0 THEN c + 20000 ELSE c
Bit(b) == IF b THEN 1 ELSE 0

TypeOf(op, c) ==
  CASE op = "noref"   -> NoRef(c)
    [] op = "noconst" -> NoConst(c)
    [] op = "nocv"    -> NoConst(c)
    [] op = "noptr"   -> NoPtr(c)
    [] op = "bare"    -> Bare(c)
    [] op = "decay"   -> Bare(c)
    [] op = "addl"    -> AddL(c)
    [] op = "addr"    -> AddR(c)
    [] op = "islref"  -> Bit(Ref(c) = 1)
    [] op = "isconst" -> Bit(TopConst(c))

\* ---- lists of types -----------------------------------------------------------
\* the first position whose tag is wanted
First(tags, ts) == CHOOSE i \in DOMAIN ts : Tag(ts[i]) \in tags /\ \A j \in 1..(i - 1) : Tag(ts[j]) \notin tags
\* a parameter of a function type has no const of its own
Param(c) == NoConst(c)
Params(ts) == [i \in DOMAIN ts |-> Param(ts[i])]

\* does an argument of type t (an rvalue unless an lvalue reference) initialise a parameter of type p, both classes or
\* references to classes?  An object is copied; a plain lvalue reference takes a plain lvalue, one to const takes
\* everything, an rvalue reference takes no lvalue, and none forgets const
IsConstObj(c) == IsC(NoRef(c))
Binds(p, t) == /\ Tag(p) = Tag(t)
               /\ CASE Ref(p) = 0 -> TRUE
                    [] Ref(p) = 1 -> IsConstObj(p) \/ (Ref(t) = 1 /\ ~IsConstObj(t))
                    [] Ref(p) = 2 -> Ref(t) # 1 /\ (IsConstObj(t) => IsConstObj(p))
Callable(ps, ts) == Len(ps) = Len(ts) /\ \A i \in DOMAIN ps : Binds(ps[i], ts[i])

ListOf(op, a, ts) ==
  CASE op = "packat"  -> <<ts[a[1] + 1]>>
    [] op = "tupleat" -> <<ts[a[1] + 1]>>
    [] op = "find"    -> <<First({a[i] : i \in DOMAIN a}, ts) - 1>>
    [] op = "prepend" -> a \o ts
    [] op = "iseq"    -> [i \in 1..a[1] |-> i - 1]
    [] op = "args"    -> Params(ts)
    [] op = "fptr"    -> <<a[2]>> \o Params(ts)
    [] op = "f2fp"    -> <<a[2]>> \o Params(ts)
    [] op = "same"    -> <<Bit(ts[1] = ts[2])>>
    \* a function of the parameters after the first a[1] types called with the types before them: at all, for its own result,
    \* for no result, for an unrelated result
    [] op = "calls"   -> LET c == Bit(Callable(SubSeq(ts, a[1] + 1, Len(ts)), SubSeq(ts, 1, a[1]))) IN <<c, c, c, 0>>

\* ---- values -------------------------------------------------------------------
RECURSIVE Sum(_), Product(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Product(s) == IF s = <<>> THEN 1 ELSE Head(s) * Product(Tail(s))
Elems(s) == {s[i] : i \in DOMAIN s}
Largest(s) == CHOOSE x \in Elems(s) : \A y \in Elems(s) : x >= y
Smallest(s) == CHOOSE x \in Elems(s) : \A y \in Elems(s) : x <= y
Abs(x) == IF x < 0 THEN -x ELSE x
\* integer division of the machine: towards zero
Quot(a, b) == IF (a < 0) = (b < 0) THEN Abs(a) \div Abs(b) ELSE -(Abs(a) \div Abs(b))

Fold(op, s) ==
  CASE op \in {"all", "All"}     -> Bit(\A i \in DOMAIN s : s[i] # 0)
    [] op \in {"any", "Any"}     -> Bit(\E i \in DOMAIN s : s[i] # 0)
    [] op \in {"max", "Maximum"} -> Largest(s)
    [] op \in {"min", "Mininum"} -> Smallest(s)
    [] op = "sum"                -> Sum(s)
    [] op = "product"            -> Product(s)
    \* a fold from the left that shows its order: a -> 3 a + b
    [] op = "foldl" -> LET F[k \in 0..Len(s)] == IF k = 0 THEN 1 ELSE 3 * F[k - 1] + s[k] IN F[Len(s)]

Pair(op, a, b) ==
  CASE op = "add" -> a + b
    [] op = "sub" -> a - b
    [] op = "mul" -> a * b
    [] op = "div" -> Quot(a, b)
    [] op = "mod" -> a - b * Quot(a, b)
    [] op = "eq"  -> Bit(a = b)
    [] op = "neq" -> Bit(a # b)
    [] op = "gt"  -> Bit(a > b)
    [] op = "lt"  -> Bit(a < b)
    [] op = "geq" -> Bit(a >= b)
    [] op = "leq" -> Bit(a <= b)
    [] op = "and" -> Bit(a # 0 /\ b # 0)
    [] op = "or"  -> Bit(a # 0 \/ b # 0)
    [] op = "not" -> Bit(a = 0)
    [] op = "neg" -> -a
    [] op = "max" -> IF a > b THEN a ELSE b
    [] op = "min" -> IF a < b THEN a ELSE b

\* ---- laws (checked by TLC over MetaGen's types and lists) ---------------------------
TypeLaws(c) == /\ Bare(Bare(c)) = Bare(c)
               /\ NoRef(AddL(c)) = NoRef(c) /\ NoRef(AddR(c)) = NoRef(c)
               /\ AddR(AddL(c)) = AddL(c) /\ AddL(AddR(c)) = AddL(c)
               /\ Tag(Bare(c)) = Tag(c) /\ Param(Param(c)) = Param(c)
FoldLaws(s, t) == /\ Sum(s \o t) = Sum(s) + Sum(t) /\ Product(s \o t) = Product(s) * Product(t)
                  /\ Fold("all", s \o t) = Pair("and", Fold("all", s), Fold("all", t))
                  /\ Fold("any", s \o t) = Pair("or", Fold("any", s), Fold("any", t))
                  /\ (s # <<>> /\ t # <<>>) => /\ Largest(s \o t) = Pair("max", Largest(s), Largest(t))
                                               /\ Smallest(s \o t) = Pair("min", Smallest(s), Smallest(t))
PairLaws(a, b) == b # 0 => /\ a = b * Quot(a, b) + Pair("mod", a, b)
                           /\ Abs(Pair("mod", a, b)) < Abs(b)
=============================================================================
