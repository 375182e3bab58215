----------------------------- MODULE FuncPtrTrace -----------------------------
(* Explains recorded histories of func_ptr.                                  *)
EXTENDS FuncPtr, TraceLib

VARIABLE l
Shown(e) == e.r = res' /\ \A k \in Classes, o \in Objects : e.tot[k + 1][o + 1] = tot'[k][o]
Act(e) ==
  CASE e.op = "bind"    -> Bind(e.a[1], e.a[2], e.a[3])
    [] e.op = "via"     -> Via(e.a[1], e.a[2], e.a[3])
    [] e.op = "direct"  -> Direct(e.a[1], e.a[2], e.a[3])
    [] e.op = "copyptr" -> CopyPtr(e.a[1], e.a[2])
    [] e.op = "copyobj" -> CopyObj(e.a[1], e.a[2], e.a[3])
    [] OTHER -> FALSE
TraceInit == l = 1 /\ FpInit
Do(e) ==
  CASE e.op = "case" -> /\ tot' = [k \in Classes |-> [o \in Objects |-> 0]] /\ bound' = [k \in Classes |-> -1]
                        /\ made' = [k \in Classes |-> [s \in Slots |-> FALSE]] /\ res' = 0
    [] e.op = "end"  -> UNCHANGED fpvars
    [] OTHER         -> Act(e) /\ Shown(e)
TraceNext == l <= Len(Trace) /\ Do(Trace[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<fpvars, l>>
=============================================================================
