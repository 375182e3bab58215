------------------------------ MODULE StatsLaws ------------------------------
(* Stats.tla checked against independent characterisations, over every short *)
(* pair of sequences.                                                        *)
EXTENDS Stats, TLC

CONSTANTS MaxLen, Top

VARIABLES xs, ys
vars == <<xs, ys>>
Vals == (-Top)..Top
Init == xs = <<>> /\ ys = <<>>
Next == Len(xs) < MaxLen /\ \E x, y \in Vals : xs' = Append(xs, x) /\ ys' = Append(ys, y)
Spec == Init /\ [][Next]_vars

n == Len(xs)
Eq(v, w) == v[1] * w[2] = w[1] * v[2]
V(fn, b, adj, lag) == Value(fn, b, adj, lag, xs, ys)
D(fn, b, adj, lag) == Defined(fn, b, adj, lag, xs, ys)

\* deviations sum to nothing, and their squares to the variance
Deviations == n > 0 => /\ SumOf(Elements("dc", xs).num) = 0
                       /\ Eq(V("var", 0, 0, 0), <<Dot([i \in 1..n |-> n * xs[i] - SumOf(xs)], [i \in 1..n |-> n * xs[i] - SumOf(xs)]), n * n * n>>)
NotNegative == n > 0 => Var(xs) >= 0 /\ Errors(xs, ys) >= 0 /\ (Var(xs) = 0 <=> \A i, j \in 1..n : xs[i] = xs[j])
CauchySchwarz == Sq(Cov(xs, ys)) <= Var(xs) * Var(ys)
Symmetric == n > 0 => Cov(xs, ys) = Cov(ys, xs) /\ Cov(xs, xs) = Var(xs)
\* without a lag autocovariance is the variance, and autocorrelation one
NoLag == \A b \in 0..1 : n > b => /\ Eq(V("acov", b, 0, 0), V("var", b, 0, 0)) /\ Eq(V("acov", b, 1, 0), V("var", b, 0, 0))
                                  /\ Var(xs) > 0 => V("acorr", b, 1, 0)[1] = V("acorr", b, 1, 0)[2]
\* least squares: the residuals of the line have no mean and no trend
Normal == D("slope", 0, 0, 0) =>
            LET s == Slope(xs, ys)
                t == Start(xs, ys)
                r == [i \in 1..n |-> ys[i] * t[2] - (s[1] * n * xs[i] + t[1])]
            IN t[2] = n * s[2] /\ SumOf(r) = 0 /\ Dot(r, xs) = 0
Residuals == n >= 2 => LET r == Elements("detrend", xs).num IN SumOf(r) = 0 /\ Dot(r, Index(n)) = 0
=============================================================================
