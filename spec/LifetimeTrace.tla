---------------------------- MODULE LifetimeTrace ----------------------------
(* Explains recorded element and heap events of the real library.           *)
EXTENDS Lifetime, TraceLib

VARIABLE l

None == <<-9, 0>>
Empty == [x \in {} |-> 0]

TraceInit == l = 1 /\ blocks = Empty /\ live = Empty

Do(e) ==
  CASE e.op = "case"   -> blocks' = Empty /\ live' = Empty
    [] e.op = "alloc"  -> Alloc(e.b, e.n, e.form, e.al)
    [] e.op = "free"   -> Release(e.b, e.n, e.form, e.al)
    [] e.op = "make"   -> e.al /\ (IF e.f = None THEN Make(e.x, e.z) ELSE MakeFrom(e.x, e.z, e.f))
    [] e.op = "assign" -> Assign(e.x, e.f)
    [] e.op = "use"    -> Touch(e.x)
    [] e.op = "kill"   -> Kill(e.x)
    [] e.op = "op"     -> UNCHANGED lvars
    [] e.op = "end"    -> Clean /\ UNCHANGED lvars
    [] OTHER           -> FALSE

TraceNext == l <= Len(Trace) /\ Do(Trace[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<lvars, l>>
=============================================================================
