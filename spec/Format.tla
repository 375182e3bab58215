------------------------------- MODULE Format -------------------------------
(* Formatting as a function: Result(f, args) is the text that format string  *)
(* f gives with these arguments, or an error.  Everything is a sequence of   *)
(* byte codes.  Integers are a sign and a magnitude in hexadecimal digits,   *)
(* so that no width is out of reach.  An argument is a record with field t:  *)
(*   "i" integer (neg, mag, un: unsigned)   "b" truth value (v)              *)
(*   "c" character (v)   "s" text (v)   "q" sequence of arguments (v)        *)
(*   "f" floating point: (-1)^neg * mag / 2^sh (sh may be negative)          *)
(*   "n" infinity or not a number (neg, v: its name)                         *)
EXTENDS Integers, Sequences, FiniteSets

\* ---- numerals -----------------------------------------------------------
RECURSIVE Strip(_)
Strip(d) == IF d # <<>> /\ Head(d) = 0 THEN Strip(Tail(d)) ELSE d

\* one long division of a hexadecimal magnitude by 10: quotient and remainder
RECURSIVE DivTen(_, _, _)
DivTen(d, r, q) == IF d = <<>> THEN <<q, r>>
                   ELSE LET x == r * 16 + Head(d) IN DivTen(Tail(d), x % 10, Append(q, x \div 10))
RECURSIVE Dec(_)
Dec(d) == LET m == Strip(d) IN IF m = <<>> THEN <<>> ELSE LET p == DivTen(m, 0, <<>>) IN Append(Dec(p[1]), p[2])

\* bits, most significant first
RECURSIVE Bits(_)
Bits(d) == IF d = <<>> THEN <<>>
           ELSE <<(Head(d) \div 8) % 2, (Head(d) \div 4) % 2, (Head(d) \div 2) % 2, Head(d) % 2>> \o Bits(Tail(d))
RECURSIVE Threes(_)
Threes(b) == IF b = <<>> THEN <<>> ELSE <<4 * b[1] + 2 * b[2] + b[3]>> \o Threes(SubSeq(b, 4, Len(b)))
Oct(d) == LET b == Bits(d)
              pad == [i \in 1..((3 - (Len(b) % 3)) % 3) |-> 0]
          IN Threes(pad \o b)

Numeral(d, base) == LET n == CASE base = 10 -> Dec(d) [] base = 16 -> d [] base = 8 -> Oct(d) [] OTHER -> Bits(d)
                        m == Strip(n)
                    IN IF m = <<>> THEN <<0>> ELSE m
DigitCode(x, upper) == IF x < 10 THEN 48 + x ELSE (IF upper THEN 55 ELSE 87) + x
Digits(d, base, upper) == LET n == Numeral(d, base) IN [i \in 1..Len(n) |-> DigitCode(n[i], upper)]

\* ---- text ---------------------------------------------------------------
\* bytes of the code point that starts with byte c
Unit(c) == IF c >= 240 THEN 4 ELSE IF c >= 224 THEN 3 ELSE IF c >= 192 THEN 2 ELSE 1
RECURSIVE Points(_)
Points(s) == IF s = <<>> THEN <<>>
             ELSE LET k == IF Unit(s[1]) <= Len(s) THEN Unit(s[1]) ELSE Len(s)
                  IN <<SubSeq(s, 1, k)>> \o Points(SubSeq(s, k + 1, Len(s)))
RECURSIVE Flat(_)
Flat(ps) == IF ps = <<>> THEN <<>> ELSE Head(ps) \o Flat(Tail(ps))
RECURSIVE Times(_, _)
Times(k, s) == IF k <= 0 THEN <<>> ELSE [i \in 1..(k * Len(s)) |-> s[((i - 1) % Len(s)) + 1]]

\* columns a code point takes on a terminal
Ideograph(c) == \/ c \in 4352..4447 \/ c \in 9001..9002 \/ (c \in 11904..42191 /\ c # 12351) \/ c \in 44032..55203 \/ c \in 63744..64255
                \/ c \in 65040..65049 \/ c \in 65072..65135 \/ c \in 65280..65376 \/ c \in 65504..65510 \/ c \in 131072..196605
                \/ c \in 196608..262141 \/ c \in 127744..128591 \/ c \in 129280..129535
Low(b) == b % 64
CodePoint(u) == CASE Len(u) = 1 -> u[1] [] Len(u) = 2 -> (u[1] % 32) * 64 + Low(u[2])
                  [] Len(u) = 3 -> (u[1] % 16) * 4096 + Low(u[2]) * 64 + Low(u[3])
                  [] OTHER -> (u[1] % 8) * 262144 + Low(u[2]) * 4096 + Low(u[3]) * 64 + Low(u[4])
Columns(s) == LET ps == Points(s) IN Len(ps) + Cardinality({i \in 1..Len(ps) : Ideograph(CodePoint(ps[i]))})

\* width columns, filled on the side that alignment al leaves free
Padded(s, w, fill, al) ==
  LET n == w - Columns(s)
      left == IF al = "<" THEN 0 ELSE IF al = "^" THEN n \div 2 ELSE n
  IN IF n <= 0 THEN s ELSE Times(left, fill) \o s \o Times(n - left, fill)

\* ---- format specifications --------------------------------------------------
OpenBr == 123
CloseBr == 125
IsDigit(c) == c \in 48..57
IsAlign(c) == c \in {60, 62, 94}
AlignOf(c) == IF c = 60 THEN "<" ELSE IF c = 62 THEN ">" ELSE "^"
At(f, i) == IF i <= Len(f) THEN f[i] ELSE -1

\* an unsigned number at i: its value (-1: too big) and the position after it
RECURSIVE NumEnd(_, _)
NumEnd(f, i) == IF IsDigit(At(f, i)) THEN NumEnd(f, i + 1) ELSE i
RECURSIVE NumVal(_, _, _)
NumVal(f, i, j) == IF i = j THEN 0 ELSE NumVal(f, i, j - 1) * 10 + (f[j - 1] - 48)
\* at most the largest int: by its first nine digits and the tenth
Fits(f, i, j) == \/ j - i <= 9
                 \/ j - i = 10 /\ LET h == NumVal(f, i, j - 1) IN h < 214748364 \/ (h = 214748364 /\ f[j - 1] <= 55)
Number(f, i) == LET j == NumEnd(f, i) IN [v |-> IF Fits(f, i, j) THEN NumVal(f, i, j) ELSE -1, i |-> j]

\* auto: the next automatic argument number; -1 once arguments were numbered by hand
NoId == [ok |-> FALSE, id |-> 0, i |-> 0, auto |-> 0]
ArgId(f, i, auto) ==
  IF At(f, i) \in {CloseBr, 58} THEN (IF auto = -1 THEN NoId ELSE [ok |-> TRUE, id |-> auto, i |-> i, auto |-> auto + 1])
  ELSE IF IsDigit(At(f, i))
       THEN LET n == IF f[i] = 48 THEN [v |-> 0, i |-> i + 1] ELSE Number(f, i)
            IN IF n.v = -1 \/ auto > 0 \/ At(f, n.i) \notin {CloseBr, 58} THEN NoId
               ELSE [ok |-> TRUE, id |-> n.v, i |-> n.i, auto |-> -1]
       ELSE NoId

\* a width or precision at i: a number, or an argument that is a non-negative integer (any other: error)
Small(d) == LET m == Strip(d) IN Len(m) <= 6
RECURSIVE Value(_)
Value(d) == IF d = <<>> THEN 0 ELSE Value(SubSeq(d, 1, Len(d) - 1)) * 16 + d[Len(d)]
NoSize == [ok |-> FALSE, v |-> 0, i |-> 0, auto |-> 0]
Size(f, i, auto, args) ==
  IF IsDigit(At(f, i)) THEN LET n == Number(f, i) IN IF n.v = -1 THEN NoSize ELSE [ok |-> TRUE, v |-> n.v, i |-> n.i, auto |-> auto]
  ELSE IF At(f, i) = OpenBr
       THEN LET a == ArgId(f, i + 1, auto)
            IN IF ~a.ok \/ At(f, a.i) # CloseBr \/ a.id >= Len(args) THEN NoSize
               ELSE LET x == args[a.id + 1]
                    IN IF x.t # "i" \/ x.neg \/ ~Small(x.mag) THEN NoSize
                       ELSE [ok |-> TRUE, v |-> Value(Strip(x.mag)), i |-> a.i + 1, auto |-> a.auto]
       ELSE NoSize

FloatTypes == {101, 69, 102, 70, 103, 71}       \* e E f F g G
IntTypes == {100, 111, 120, 88, 98, 66, 99}     \* d o x X b B c
Spec0 == [ok |-> TRUE, fill |-> <<32>>, al |-> "", sign |-> 0, alt |-> FALSE, zero |-> FALSE, w |-> 0, p |-> -1, ty |-> 0, i |-> 0, auto |-> 0]
BadSpec == [Spec0 EXCEPT !.ok = FALSE]
Floating(x) == x.t \in {"f", "n"}
Arith(x) == x.t \in {"i", "b", "c", "f", "n"}

\* [[fill]align][sign][#][0][width][.precision][type] at i, for argument x
ParseSpec(f, i, auto, x, args) ==
  LET u == IF i <= Len(f) THEN Unit(f[i]) ELSE 1
      filled == At(f, i) \notin {-1, OpenBr, CloseBr} /\ IsAlign(At(f, i + u))
      i1 == IF filled THEN i + u + 1 ELSE IF IsAlign(At(f, i)) THEN i + 1 ELSE i
      fill == IF filled THEN SubSeq(f, i, i + u - 1) ELSE <<32>>
      al == IF i1 = i THEN "" ELSE AlignOf(f[i1 - 1])
      sg == At(f, i1) \in {43, 45, 32}
      i2 == IF sg THEN i1 + 1 ELSE i1
      alt == At(f, i2) = 35
      i3 == IF alt THEN i2 + 1 ELSE i2
      zero == At(f, i3) = 48
      i4 == IF zero THEN i3 + 1 ELSE i3
      hasW == IsDigit(At(f, i4)) \/ At(f, i4) = OpenBr
      w == IF hasW THEN Size(f, i4, auto, args) ELSE [ok |-> TRUE, v |-> 0, i |-> i4, auto |-> auto]
      hasP == w.ok /\ At(f, w.i) = 46
      p == IF hasP THEN Size(f, w.i + 1, w.auto, args) ELSE [ok |-> w.ok, v |-> -1, i |-> w.i, auto |-> w.auto]
      ty == IF p.ok THEN (IF At(f, p.i) = CloseBr THEN 0 ELSE At(f, p.i)) ELSE -1
      i6 == IF ty = 0 THEN p.i ELSE p.i + 1
  IN IF x.t = "q" THEN (IF At(f, i) = CloseBr THEN [Spec0 EXCEPT !.i = i, !.auto = auto] ELSE BadSpec)
     ELSE IF \/ sg /\ ~Floating(x) /\ (x.t # "i" \/ x.un)
             \/ (alt \/ zero) /\ ~Arith(x)
             \/ hasP /\ x.t # "s" /\ ~Floating(x)
             \/ ~w.ok \/ ~p.ok \/ ty = -1
             \/ ty # 0 /\ ~(\/ ty \in IntTypes /\ Arith(x) /\ ~Floating(x)
                            \/ ty \in FloatTypes /\ Floating(x)
                            \/ ty = 115 /\ x.t \in {"b", "s"})
             \/ x.t = "c" /\ ty \in {0, 99} /\ (alt \/ (zero /\ al = ""))
             \/ At(f, i6) # CloseBr
          THEN BadSpec
          ELSE [ok |-> TRUE, fill |-> fill, al |-> al, sign |-> IF sg THEN f[i1] ELSE 0, alt |-> alt, zero |-> zero,
                w |-> w.v, p |-> p.v, ty |-> ty, i |-> i6, auto |-> p.auto]

\* ---- values ------------------------------------------------------------------
True == <<116, 114, 117, 101>>
False == <<102, 97, 108, 115, 101>>
Nibbles(k) == <<k \div 16, k % 16>>
RECURSIVE Default(_)
RECURSIVE Join(_)

\* sign, prefix, zeros up to the width (only without an alignment), digits
IntText(neg, mag, sp) ==
  LET base == CASE sp.ty \in {120, 88} -> 16 [] sp.ty = 111 -> 8 [] sp.ty \in {98, 66} -> 2 [] OTHER -> 10
      ds == Digits(mag, base, sp.ty = 88)
      sign == IF neg THEN <<45>> ELSE IF sp.sign = 43 THEN <<43>> ELSE IF sp.sign = 32 THEN <<32>> ELSE <<>>
      pre == IF ~sp.alt THEN <<>>
             ELSE CASE base = 16 -> <<48, sp.ty>> [] base = 2 -> <<48, sp.ty>>
                    [] base = 8 -> (IF ds = <<48>> THEN <<>> ELSE <<48>>) [] OTHER -> <<>>
      head == sign \o pre
      zeros == IF sp.zero /\ sp.al = "" THEN Times(sp.w - Len(head) - Len(ds), <<48>>) ELSE <<>>
  IN Padded(head \o zeros \o ds, sp.w, sp.fill, IF sp.al = "" THEN ">" ELSE sp.al)

\* ---- floating point: exact decimal digits d[1] .. d[n] and the power of ten of the last ----
RECURSIVE Small10(_)
Small10(c) == IF c = 0 THEN <<>> ELSE Append(Small10(c \div 10), c % 10)
\* from the last digit on: what is carried out of digit i and the digits from i
RECURSIVE MulAt(_, _, _, _, _)
MulAt(d, m, i, c, r) == IF i = 0 THEN Small10(c) \o r ELSE LET x == d[i] * m + c IN MulAt(d, m, i - 1, x \div 10, <<x % 10>> \o r)
Mul(d, m) == MulAt(d, m, Len(d), 0, <<>>)
\* d * b^k, in steps of b^s
RECURSIVE MulPow(_, _, _, _)
MulPow(d, b, k, s) == IF k = 0 \/ d = <<>> THEN d ELSE IF k >= s THEN MulPow(Mul(d, b^s), b, k - s, s) ELSE Mul(d, b^k)
Decimal(x) == IF x.sh >= 0 THEN [d |-> MulPow(Dec(x.mag), 5, x.sh, 11), e |-> -x.sh] ELSE [d |-> MulPow(Dec(x.mag), 2, -x.sh, 26), e |-> 0]

Nought(k) == [i \in 1..(IF k < 0 THEN 0 ELSE k) |-> 0]
AllZero(d) == \A i \in 1..Len(d) : d[i] = 0
RECURSIVE Bump(_)
Bump(d) == IF d = <<>> THEN <<1>> ELSE IF d[Len(d)] = 9 THEN Append(Bump(SubSeq(d, 1, Len(d) - 1)), 0) ELSE [d EXCEPT ![Len(d)] = @ + 1]
\* the nearest multiple of 10^p, of two equally near ones the even; as the digits in units of 10^p
RoundAt(v, p) ==
  IF v.e >= p THEN (IF v.d = <<>> THEN <<>> ELSE v.d \o Nought(v.e - p))
  ELSE LET k == p - v.e n == Len(v.d) - k
       IN IF n < 0 THEN <<>>
          ELSE LET h == SubSeq(v.d, 1, n) t == SubSeq(v.d, n + 1, Len(v.d))
                   half == t[1] = 5 /\ AllZero(Tail(t))
                   up == t[1] > 5 \/ (t[1] = 5 /\ ~half) \/ (half /\ n > 0 /\ h[n] % 2 = 1)
               IN IF up THEN Bump(h) ELSE h
\* the first k significant digits (rounded) and the power of ten of the first
Leading(v, k) == IF v.d = <<>> THEN [d |-> Nought(k), x |-> 0]
                 ELSE LET x == Len(v.d) - 1 + v.e r == RoundAt(v, x - k + 1)
                      IN IF Len(r) > k THEN [d |-> SubSeq(r, 1, k), x |-> x + 1] ELSE [d |-> r, x |-> x]
RECURSIVE NoTail(_)
NoTail(d) == IF Len(d) > 1 /\ d[Len(d)] = 0 THEN NoTail(SubSeq(d, 1, Len(d) - 1)) ELSE d
Codes(d) == [i \in 1..Len(d) |-> 48 + d[i]]
Point(frac, alt) == IF frac # <<>> \/ alt THEN <<46>> \o Codes(frac) ELSE <<>>
Exponent(x, upper) == LET a == IF x < 0 THEN -x ELSE x IN
  <<IF upper THEN 69 ELSE 101, IF x < 0 THEN 45 ELSE 43>> \o Codes(IF a < 10 THEN <<0, a>> ELSE Small10(a))
Sci(l, alt, upper) == <<48 + l.d[1]>> \o Point(Tail(l.d), alt) \o Exponent(l.x, upper)
Plain0(l, alt) == IF l.x < 0 THEN <<48>> \o Point(Nought(-l.x - 1) \o l.d, alt)
                  ELSE LET d == l.d \o Nought(l.x + 1 - Len(l.d)) IN Codes(SubSeq(d, 1, l.x + 1)) \o Point(SubSeq(d, l.x + 2, Len(d)), alt)
FloatDigits(x, sp) ==
  LET v == Decimal(x) ty == sp.ty upper == ty \in {69, 71}
      p == IF sp.p >= 0 THEN sp.p ELSE 6
      fixed == LET r == RoundAt(v, -p) d == Nought(p + 1 - Len(r)) \o r
               IN Codes(SubSeq(d, 1, Len(d) - p)) \o Point(SubSeq(d, Len(d) - p + 1, Len(d)), sp.alt)
      \* without precision and type: all digits, exact because the generated values have few
      shortest == IF v.d = <<>> THEN [d |-> <<0>>, x |-> 0] ELSE [d |-> NoTail(v.d), x |-> Len(v.d) - 1 + v.e]
      g == IF p = 0 THEN 1 ELSE p
      lead == LET l == Leading(v, g) IN IF sp.alt THEN l ELSE [l EXCEPT !.d = NoTail(@)]
      general == IF ty = 0 /\ sp.p < 0 THEN (IF shortest.x < -4 \/ shortest.x >= 16 THEN Sci(shortest, sp.alt, upper) ELSE Plain0(shortest, sp.alt))
                 ELSE IF lead.x < -4 \/ lead.x >= g THEN Sci(lead, sp.alt, upper) ELSE Plain0(lead, sp.alt)
  IN CASE ty \in {102, 70} -> fixed
       [] ty \in {101, 69} -> Sci(Leading(v, p + 1), sp.alt, upper)
       [] OTHER -> general
Upper(s) == [i \in 1..Len(s) |-> IF s[i] \in 97..122 THEN s[i] - 32 ELSE s[i]]
FloatText(x, sp) ==
  LET ds == IF x.t = "n" THEN (IF sp.ty \in {69, 70, 71} THEN Upper(x.v) ELSE x.v) ELSE FloatDigits(x, sp)
      sign == IF x.neg THEN <<45>> ELSE IF sp.sign = 43 THEN <<43>> ELSE IF sp.sign = 32 THEN <<32>> ELSE <<>>
      zeros == IF sp.zero /\ sp.al = "" /\ x.t = "f" THEN Times(sp.w - Len(sign) - Len(ds), <<48>>) ELSE <<>>
  IN Padded(sign \o zeros \o ds, sp.w, sp.fill, IF sp.al = "" THEN ">" ELSE sp.al)

Text(s, sp) == Padded(s, sp.w, sp.fill, IF sp.al = "" THEN "<" ELSE sp.al)

Shown(x, sp) ==
  CASE x.t = "i" -> IF sp.ty = 99 THEN Text(<<Value(SubSeq(x.mag, Len(x.mag) - 1, Len(x.mag)))>>, sp) ELSE IntText(x.neg, x.mag, sp)
    [] x.t = "b" -> IF sp.ty \in {0, 115} THEN Text(IF x.v = 1 THEN True ELSE False, sp)
                    ELSE IF sp.ty = 99 THEN Text(<<x.v>>, sp) ELSE IntText(FALSE, <<x.v>>, sp)
    [] Floating(x) -> FloatText(x, sp)
    [] x.t = "c" -> IF sp.ty \in {0, 99} THEN Text(<<x.v>>, sp) ELSE IntText(FALSE, Nibbles(x.v), sp)
    [] x.t = "s" -> LET ps == Points(x.v)
                    IN Text(IF sp.p = -1 \/ sp.p >= Len(ps) THEN x.v ELSE Flat(SubSeq(ps, 1, sp.p)), sp)
    [] OTHER     -> <<91>> \o Join(x.v) \o <<93>>

Default(x) == Shown(x, Spec0)
Join(v) == IF v = <<>> THEN <<>> ELSE IF Len(v) = 1 THEN Default(v[1]) ELSE Default(v[1]) \o <<44, 32>> \o Join(Tail(v))

\* ---- whole format strings -------------------------------------------------------
Error == [ok |-> FALSE, out |-> <<>>]
RECURSIVE Scan(_, _, _, _, _)
Scan(f, i, auto, args, out) ==
  IF i > Len(f) THEN [ok |-> TRUE, out |-> out]
  ELSE IF f[i] = CloseBr THEN (IF At(f, i + 1) = CloseBr THEN Scan(f, i + 2, auto, args, Append(out, CloseBr)) ELSE Error)
  ELSE IF f[i] # OpenBr THEN Scan(f, i + 1, auto, args, Append(out, f[i]))
  ELSE IF At(f, i + 1) = OpenBr THEN Scan(f, i + 2, auto, args, Append(out, OpenBr))
  ELSE LET a == ArgId(f, i + 1, auto)
       IN IF ~a.ok \/ a.id >= Len(args) THEN Error
          ELSE LET x == args[a.id + 1]
               IN IF f[a.i] = CloseBr THEN Scan(f, a.i + 1, a.auto, args, out \o Default(x))
                  ELSE LET sp == ParseSpec(f, a.i + 1, a.auto, x, args)
                       IN IF ~sp.ok THEN Error ELSE Scan(f, sp.i + 1, sp.auto, args, out \o Shown(x, sp))

Result(f, args) == Scan(f, 1, 0, args, <<>>)
=============================================================================
