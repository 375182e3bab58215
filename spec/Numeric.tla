------------------------------- MODULE Numeric -------------------------------
(* Reductions and scalar helpers as mathematics.  Numbers of every type are  *)
(* integers here, counted in a unit of the driver's choice (a power of two,  *)
(* exact in the type), or ranks among the extreme values of the type, which  *)
(* order and negate like the values they stand for.                          *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

SumOf(xs) == FoldLeft(LAMBDA a, b : a + b, 0, xs)
ProductOf(xs) == FoldLeft(LAMBDA a, b : a * b, 1, xs)
Items(xs) == {xs[i] : i \in 1..Len(xs)}
MaxOf(xs) == CHOOSE x \in Items(xs) : \A y \in Items(xs) : y <= x
MinOf(xs) == CHOOSE x \in Items(xs) : \A y \in Items(xs) : x <= y

Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a < b THEN b ELSE a
Min2(a, b) == IF b < a THEN b ELSE a
Clamp(lo, hi, x) == Max2(lo, Min2(hi, x))
\* division as in C: towards zero, the remainder with the sign of the dividend
Div(a, b) == LET q == Abs(a) \div Abs(b) IN IF (a < 0) = (b < 0) THEN q ELSE -q
Mod(a, b) == a - b * Div(a, b)
One(p) == IF p THEN 1 ELSE 0

\* what each function returns; ranks only order and negate
Reduce(fn, xs) ==
  CASE fn = "sum"     -> SumOf(xs)
    [] fn = "product" -> ProductOf(xs)
    [] fn = "max"     -> MaxOf(xs)
    [] fn = "min"     -> MinOf(xs)
    [] OTHER          -> MaxOf(xs) - MinOf(xs)

Scalar(fn, a, b, c) ==
  CASE fn = "min"    -> Min2(a, b)
    [] fn = "max"    -> Max2(a, b)
    [] fn \in {"clamp", "clampi"} -> Clamp(a, b, c)
    [] fn = "abs"    -> Abs(a)
    [] fn = "neg"    -> -a
    [] fn = "square" -> a * a
    [] fn = "add"    -> a + b
    [] fn = "sub"    -> a - b
    [] fn = "mul"    -> a * b
    [] fn = "div"    -> Div(a, b)
    [] fn = "mod"    -> Mod(a, b)
    [] fn = "eq"     -> One(a = b)
    [] fn = "neq"    -> One(a # b)
    [] fn = "lt"     -> One(a < b)
    [] fn = "gt"     -> One(a > b)
    [] fn = "leq"    -> One(a <= b)
    [] fn = "geq"    -> One(a >= b)
    [] fn = "approx" -> One(Abs(a - b) <= 2)       \* the unit is half an epsilon
    [] fn = "not"    -> One(a = 0)
    [] fn = "and"    -> One(a # 0 /\ b # 0)
    [] OTHER         -> One(a # 0 \/ b # 0)
=============================================================================
