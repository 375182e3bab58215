------------------------------ MODULE MetaTrace ------------------------------
(* Explains what the compiler made of the library's constants and types.     *)
EXTENDS Meta, TraceLib

VARIABLE l
Types == {"noref", "noconst", "nocv", "noptr", "bare", "decay", "addl", "addr", "islref", "isconst"}
Lists == {"packat", "tupleat", "find", "prepend", "iseq", "args", "fptr", "f2fp", "same", "calls"}
Folds == {"all", "any", "All", "Any", "max", "min", "sum", "product", "foldl", "Maximum", "Mininum"}
Ct == [x \in {"ctadd", "ctsub", "ctmul", "ctdiv", "cteq", "ctneq"} |->
         CASE x = "ctadd" -> "add" [] x = "ctsub" -> "sub" [] x = "ctmul" -> "mul" [] x = "ctdiv" -> "div"
           [] x = "cteq" -> "eq" [] x = "ctneq" -> "neq"]
\* max and min are a fold for lists (f) and an operation of two (o)
Right(e) ==
  CASE e.how = "t" -> e.r = <<TypeOf(e.f, e.t[1])>>
    [] e.how = "l" -> e.r = ListOf(e.f, e.a, e.t)
    [] e.how = "v" -> e.r = <<Fold(e.f, Tail(e.a))>>
    [] e.how = "o" -> e.r = <<Pair(e.f, e.a[2], e.a[3])>>
    [] e.how = "c" -> e.r = <<Pair(Ct[e.f], e.a[2], e.a[3])>>
    [] OTHER -> FALSE
TraceInit == l = 1
Do(e) == CASE e.op \in {"case", "end"} -> TRUE
           [] e.op = "expr" -> e.al = 0 /\ Right(e)
           [] OTHER -> FALSE
TraceNext == l <= Len(Trace) /\ Do(Trace[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
