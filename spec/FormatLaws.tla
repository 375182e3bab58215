----------------------------- MODULE FormatLaws -----------------------------
(* Format.tla checked against independent definitions, exhaustively over     *)
(* small instances: one state per magnitude and specification.               *)
EXTENDS Format, TLC

CONSTANTS Hexes, Widths

VARIABLE x, sp, done
vars == <<x, sp, done>>

RECURSIVE Nums(_)
Nums(k) == IF k = 0 THEN {<<>>} ELSE {<<d>> \o r : d \in 0..15, r \in Nums(k - 1)}

Init == /\ x \in UNION {Nums(k) : k \in 1..Hexes}
        /\ sp \in [ty : {0, 100, 120, 88, 111, 98, 66}, al : {"", "<", ">", "^"}, sign : {0, 43, 32}, alt : BOOLEAN, zero : BOOLEAN, w : Widths]
        /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<x, sp>>
Spec == Init /\ [][Next]_vars

\* the numeral in a base denotes the number, and has no leading zero
RECURSIVE Denotes(_, _)
Denotes(ds, base) == IF ds = <<>> THEN 0 ELSE Denotes(SubSeq(ds, 1, Len(ds) - 1), base) * base + ds[Len(ds)]
Numerals == \A base \in {2, 8, 10, 16} : LET n == Numeral(x, base)
                                         IN Denotes(n, base) = Value(x) /\ (n[1] # 0 \/ n = <<0>>) /\ \A i \in 1..Len(n) : n[i] < base

Full(s) == [ok |-> TRUE, fill |-> <<42>>, al |-> s.al, sign |-> s.sign, alt |-> s.alt, zero |-> s.zero, w |-> s.w, p |-> -1, ty |-> s.ty, i |-> 0, auto |-> 0]
Out(neg) == IntText(neg, x, Full(sp))
\* exactly as wide as needed, at least as wide as asked; no fill inside
Wide == \A neg \in BOOLEAN : LET o == Out(neg) IN Len(o) >= sp.w /\ (Len(o) > sp.w => \A i \in 1..Len(o) : o[i] # 42)
\* the fill only surrounds the number, which is the same as without a width
RECURSIVE Trim(_)
Trim(s) == IF s = <<>> THEN s ELSE IF s[1] = 42 THEN Trim(Tail(s)) ELSE IF s[Len(s)] = 42 THEN Trim(SubSeq(s, 1, Len(s) - 1)) ELSE s
Core == \A neg \in BOOLEAN : sp.al # "" => Trim(Out(neg)) = IntText(neg, x, [Full(sp) EXCEPT !.w = 0])
\* negation only adds its sign
Neg == sp.w = 0 /\ sp.sign = 0 => Out(TRUE) = <<45>> \o Out(FALSE)
\* rounding: no multiple of 10^-p is nearer, and of two equally near ones the even one is taken
Abs(k) == IF k < 0 THEN -k ELSE k
FloatLaw == sp.sign = 0 /\ ~sp.alt /\ ~sp.zero /\ sp.al = "" /\ sp.w = 0 =>
  \A sh \in 0..7, p \in 0..3 :
    LET v == Decimal([mag |-> x, sh |-> sh])
        r == Denotes(RoundAt(v, -p), 10)
        d == 2 * Abs(r * 2^sh - Value(x) * 10^p)
        l == Leading(v, p + 1)
    IN /\ Denotes(v.d, 10) * 2^sh = Value(x) * 10^(-v.e)
       /\ d <= 2^sh /\ (d = 2^sh => r % 2 = 0)
       /\ Len(l.d) = p + 1 /\ (Value(x) > 0 => l.d[1] # 0)
       /\ Value(x) \in 1..100 => LET u == 10^(7 + l.x - p) IN                     \* the unit of the last digit, in 10^-7
              Abs(Denotes(l.d, 10) * u - (Value(x) * 78125) * 2^(7 - sh)) * 2 <= u
Laws == Numerals /\ FloatLaw /\ Wide /\ Core /\ Neg
=============================================================================
