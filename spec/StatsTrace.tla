----------------------------- MODULE StatsTrace -----------------------------
(* Checks recorded results, each rounded to a multiple of 1/sc, against the  *)
(* fractions of Stats.                                                       *)
EXTENDS Stats, TraceLib

VARIABLE l

Close(r, v, sc) == Abs(r * v[2] - v[1] * sc) <= 2 * v[2]

\* an entry: function, options, lag, result (or its square), sign of the result
Good(q, xs, ys, sc) ==
  /\ Defined(q.fn, q.b, q.adj, q.lag, xs, ys)
  /\ q.fin
  /\ Close(q.r, Value(q.fn, q.b, q.adj, q.lag, xs, ys), sc)
  /\ q.fn \in Rooted /\ Abs(q.r) > 2 => q.sg = RootSign(q.fn, xs, ys)

GoodSeq(q, xs, sc) ==
  q.fin /\ Len(q.r) = Len(xs) /\ LET v == Elements(q.fn, xs) IN \A i \in 1..Len(xs) : Close(q.r[i], <<v.num[i], v.den>>, sc)

\* long sequences: what is left after a line is taken away is a line's distance from the data, with no
\* mean and no trend; this determines it
Trend(ys) == SumOf([i \in 1..Len(ys) |-> (2 * i - Len(ys) - 1) * ys[i]])
Straight(xs, ys, sc) == \A i \in 2..(Len(xs) - 1) : Abs((sc * xs[i - 1] - ys[i - 1]) + (sc * xs[i + 1] - ys[i + 1]) - 2 * (sc * xs[i] - ys[i])) <= 8
GoodLong(q, xs, sc) ==
  /\ q.fin /\ Len(q.r) = Len(xs)
  /\ Abs(SumOf(q.r)) <= 2 * Len(xs)
  /\ IF q.fn = "dc" THEN GoodSeq(q, xs, sc)
     ELSE Straight(xs, q.r, sc) /\ Abs(Trend(q.r)) <= Len(xs) * Len(xs)

\* data on a line a + b i
LineValue(fn, n, a, b) == CASE fn = "islope" -> <<b, 1>> [] fn = "istart" -> <<a, 1>> [] fn = "mean" -> <<2 * a + b * (n - 1), 2>>
                            [] fn = "slope" -> <<1, 1>> [] OTHER -> <<0, 1>>
GoodLine(e) == /\ \A i \in 1..Len(e.q) : e.q[i].fin /\ Close(e.q[i].r, LineValue(e.q[i].fn, e.n, e.a, e.b), e.sc)
               /\ e.worst <= 2

Do(e) == CASE e.op = "case" -> TRUE
           [] e.op = "st"   -> /\ e.st = "ok" /\ e.after = <<e.xs, e.ys>>
                               /\ \A i \in 1..Len(e.q) : Good(e.q[i], e.xs, e.ys, e.sc)
                               /\ \A i \in 1..Len(e.s) : IF Len(e.xs) <= 8 THEN GoodSeq(e.s[i], e.xs, e.sc) ELSE GoodLong(e.s[i], e.xs, e.sc)
           [] e.op = "line" -> e.st = "ok" /\ GoodLine(e)
           [] e.op = "end"  -> TRUE
           [] OTHER         -> FALSE

TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Do(Trace[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
