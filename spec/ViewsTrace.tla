------------------------------ MODULE ViewsTrace ------------------------------
(* Explains recorded histories of the real view types.                        *)
EXTENDS Views, TraceLib
VARIABLES l, set
tvars == <<vvars, l, set>>

\* off: where its data are (-1: no address); a view of no elements may point anywhere,
\* and so may an ArrayView that was never given a place
SeenOne(e, s) ==
  LET k == Slot(set)[s] x == w'[s] o == e.o[s] IN
  /\ o.sz = x.len /\ o.em = (x.len = 0)
  /\ x.len > 0 /\ x.off >= 0 => o.off = x.off /\ Len(o.v) > 0
  /\ x.off >= 0 => \A i \in 1..Len(o.v) : o.v[i] = Show(src', x)
  /\ k[1] \in {"a", "b"} => o.cap = k[2]
\* two views whose places are free may be equal or not
Free(x) == x.len = 0 \/ x.off < 0
EqOk(x, y, r) == IF x.len = y.len /\ (Free(x) \/ Free(y)) THEN r \in {0, 1} ELSE r = IF x = y THEN 1 ELSE 0
Seen(e) == /\ \A s \in DOMAIN w' : SeenOne(e, s)
           /\ \A i \in 1..Len(e.q) : EqOk(w'[e.q[i][1]], w'[e.q[i][2]], e.q[i][3])
Equal(e) == EqOk(w[e.a[1]], w[e.a[2]], e.r) /\ Say(e.r)
Num(x) == IF x < 0 THEN 1000000000 + x ELSE x
Act(e) ==
  CASE e.op = "new" -> New(e.a[1], Slot(set)[e.a[1]])
    [] e.op = "mk"  -> Make(e.a[1], e.a[2], e.a[3])
    [] e.op = "mkc" -> MakeC(e.a[1], e.a[2])
    [] e.op \in {"cp", "as", "mv"} -> Copy(e.a[1], e.a[2])
    [] e.op = "eq"  -> Equal(e)
    [] e.op = "eqc" -> EqChars(e.a[1], Tail(e.a))
    [] e.op \in {"rs", "rv"} -> Fits(Slot(set)[e.a[1]], Num(e.a[2]))
    [] e.op = "wr"  -> Write(e.a[1], e.a[2])
    [] OTHER -> FALSE
Do(e) ==
  CASE e.op = "case"  -> set' = e.set /\ src' = e.src /\ w' = Defaults(e.set) /\ st' = "ok" /\ res' = 0
    [] e.op = "end"   -> UNCHANGED <<vvars, set>>
    [] e.op = "crash" -> FALSE
    [] OTHER -> UNCHANGED set /\ Act(e) /\ st' = e.st /\ res' = e.r /\ Seen(e)
TraceInit == l = 1 /\ set = "int" /\ src = <<>> /\ w = <<>> /\ st = "" /\ res = 0
TraceNext == l <= Len(Trace) /\ Do(Trace[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
