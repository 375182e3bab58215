-------------------------------- MODULE Stats --------------------------------
(* Statistics by their textbook definitions, exactly: a value is a fraction  *)
(* <<numerator, denominator>> of integers, the denominator positive.  Where  *)
(* a definition takes a square root the fraction is of the square, and the   *)
(* sign is given apart.                                                      *)
EXTENDS Numeric

Sq(x) == x * x
Dot(xs, ys) == SumOf([i \in 1..Len(xs) |-> xs[i] * ys[i]])
Squares(xs) == Dot(xs, xs)
Errors(xs, ys) == SumOf([i \in 1..Len(xs) |-> Sq(xs[i] - ys[i])])
Index(n) == [i \in 1..n |-> i - 1]

\* n squared times the variance and the covariance
Var(xs) == Len(xs) * Squares(xs) - Sq(SumOf(xs))
Cov(xs, ys) == Len(xs) * Dot(xs, ys) - SumOf(xs) * SumOf(ys)

Frac(a, b) == IF b < 0 THEN <<-a, -b>> ELSE <<a, b>>

\* sum over pairs lag apart of the products of deviations, times the square of Scale(xs)
Scale(xs) == IF SumOf(xs) = 0 THEN 1 ELSE Len(xs)
Lagged(xs, lag) == LET s == SumOf(xs)
                       k == Scale(xs)
                   IN SumOf([i \in 1..(Len(xs) - lag) |-> (k * xs[i] - s) * (k * xs[i + lag] - s)])
Divisor(n, b, adj, lag) == IF adj = 1 THEN n - lag - b ELSE n - b

\* ---- what is meaningful ---------------------------------------------------------
Defined(fn, b, adj, lag, xs, ys) ==
  LET n == Len(xs)
  IN n >= 1 /\
     CASE fn \in {"var", "sd"} -> n > b
       [] fn = "cov"      -> n > b
       [] fn = "corr"     -> n > b /\ Var(xs) > 0 /\ Var(ys) > 0
       [] fn = "nmean"    -> SumOf(ys) # 0
       [] fn = "nmm"      -> MaxOf(ys) # MinOf(ys)
       [] fn = "acov"     -> lag < n /\ n > b /\ Divisor(n, b, adj, lag) > 0
       [] fn = "acorr"    -> lag < n /\ n > b /\ Divisor(n, b, adj, lag) > 0 /\ Var(xs) > 0
       [] fn \in {"slope", "start"} -> Var(xs) > 0
       [] fn \in {"islope", "istart", "detrend"} -> n >= 2
       [] OTHER           -> TRUE

\* ---- values -----------------------------------------------------------------------
Slope(xs, ys) == Frac(Cov(xs, ys), Var(xs))
Start(xs, ys) == Frac(SumOf(ys) * Var(xs) - Cov(xs, ys) * SumOf(xs), Len(xs) * Var(xs))

Value(fn, b, adj, lag, xs, ys) ==
  LET n == Len(xs)
      d == Divisor(n, b, adj, lag)
  IN CASE fn = "mean"   -> <<SumOf(xs), n>>
       [] fn = "rms"    -> <<Squares(xs), n>>
       [] fn = "sse"    -> <<Errors(xs, ys), 1>>
       [] fn \in {"mse", "rmse"} -> <<Errors(xs, ys), n>>
       [] fn = "nmean"  -> <<Errors(xs, ys) * n, Sq(SumOf(ys))>>
       [] fn = "nmm"    -> <<Errors(xs, ys), n * Sq(MaxOf(ys) - MinOf(ys))>>
       [] fn \in {"var", "sd"} -> <<Var(xs), n * (n - b)>>
       [] fn = "cov"    -> <<Cov(xs, ys), n * (n - b)>>
       [] fn = "corr"   -> <<Sq(Cov(xs, ys)), Var(xs) * Var(ys)>>
       [] fn = "acov"   -> <<Lagged(xs, lag), Sq(Scale(xs)) * d>>
       [] fn = "acorr"  -> IF SumOf(xs) = 0 THEN <<Lagged(xs, lag) * (n - b), d * Squares(xs)>>
                           ELSE <<Lagged(xs, lag) * (n - b), n * d * Var(xs)>>
       [] fn = "slope"  -> Slope(xs, ys)
       [] fn = "start"  -> Start(xs, ys)
       [] fn = "islope" -> Slope(Index(n), xs)
       [] OTHER         -> Start(Index(n), xs)

\* the sign of a root
Rooted == {"rms", "rmse", "sd", "nmean", "nmm", "corr"}
Sign(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
RootSign(fn, xs, ys) == CASE fn = "nmean" -> Sign(SumOf(ys)) [] fn = "corr" -> Sign(Cov(xs, ys)) [] OTHER -> 1

\* values for a whole sequence: numerators, over one denominator
Elements(fn, xs) ==
  LET n == Len(xs)
      s == SumOf(xs)
  IN IF fn = "dc" THEN [num |-> [i \in 1..n |-> n * xs[i] - s], den |-> n]
     ELSE LET v == Var(Index(n))
              c == Cov(Index(n), xs)
              t == SumOf(Index(n))
          IN [num |-> [i \in 1..n |-> n * v * xs[i] - (n * c * (i - 1) + s * v - c * t)], den |-> n * v]
=============================================================================
