----------------------------- MODULE SlicesTrace -----------------------------
(* Explains recorded chains of views over one source of the real library.    *)
EXTENDS Slices, TraceLib

VARIABLES l, ty
tvars == <<svars, l, ty>>

\* what all views show, the source first
Shown(e) == e.views = [k \in 1..Len(ws') |-> Show(src', ws'[k])]
\* a view shows its elements in place; a view of nothing may point anywhere
InPlace(e) == st' = "ok" => LET w == ws'[Len(ws')] IN e.len = w.len /\ (w.len > 0 => e.off = w.off)
\* the value and the place of a single element
OneAt(e, k) == st' = "ok" => e.off = k /\ e.rc = src[k + 1]

Views == {"take", "drop", "slice", "utake", "udrop", "uslice", "tail", "init", "takew", "dropw"}
Act(e) ==
  CASE e.op \in {"take", "utake"}   -> Take(e.x)
    [] e.op \in {"drop", "udrop"}   -> Drop(e.x)
    [] e.op \in {"slice", "uslice"} -> Slice(e.x, e.y)
    [] e.op = "tail"  -> TailOf
    [] e.op = "init"  -> InitOf
    [] e.op = "takew" -> TakeWhile(e.x)
    [] e.op = "dropw" -> DropWhile(e.x)

Do(e) ==
  CASE e.op = "case"  -> src' = e.xs /\ ws' = <<Win(0, Len(e.xs))>> /\ st' = "ok" /\ ty' = SourceType(e.kd, e.nb)
    [] e.op = "end"   -> UNCHANGED <<svars, ty>>
    [] e.op = "crash" -> FALSE
    [] e.op = "write" -> Write(e.x, e.y) /\ Shown(e) /\ UNCHANGED ty
    [] e.op \in {"head", "last"} ->
         Peek /\ e.st = st' /\ Shown(e) /\ UNCHANGED ty /\ OneAt(e, IF e.op = "head" THEN Top.off ELSE Top.off + Top.len - 1)
    [] e.op \in Views /\ e.st = "absent" ->
         \* what is known to be empty at compile time has no tail
         Top.len = 0 /\ UNCHANGED <<svars, ty>> /\ Shown(e)
    [] e.op \in Views -> /\ Act(e) /\ e.st = st' /\ Shown(e) /\ InPlace(e)
                         /\ ty' = IF st' = "ok" THEN TypeAfter(ty, e.op, e.x, e.y, e.mode) ELSE ty
    [] OTHER -> FALSE

\* C08: the type of every view is as static as its request, and no allocation is needed
KindOk(e) == e.op \in Views /\ e.st = "ok" =>
               /\ e.al = 0
               /\ e.rk = ViewName(ty')
               /\ e.rc = ty'[2]
               /\ ty'[2] >= 0 => e.len <= ty'[2]

TraceInit == l = 1 /\ src = <<>> /\ ws = <<Win(0, 0)>> /\ st = "" /\ ty = <<"d", -1>>
TraceNext == l <= Len(Trace) /\ Do(Trace[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_tvars
KindNext == l <= Len(Trace) /\ Do(Trace[l]) /\ KindOk(Trace[l]) /\ l' = l + 1
KindSpec == TraceInit /\ [][KindNext]_tvars
=============================================================================
