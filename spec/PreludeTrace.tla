----------------------------- MODULE PreludeTrace -----------------------------
(* Explains recorded calls of the sequence functions.  A case is one call:   *)
(* the arguments it was given, every call it made, its result, and what the  *)
(* arguments held afterwards.                                                *)
EXTENDS Prelude, TraceLib

VARIABLE l

Hofs == {"map", "mapi", "fe", "fei", "cfe", "fem", "feim", "cfem", "foldl", "foldr", "fori", "cfi1", "cfi2", "cfi3",
         "comp1", "comp2", "comp3", "comp4", "comp5"}
Builders == {"append", "concat", "intercalate", "cmap", "fromfn", "fromfnct"}
Searches == {"filter", "find", "findi", "findis", "elem", "elemi", "elemis", "isnull"}

Explained(e) ==
  CASE e.fn \in Hofs -> /\ e.r = HofResult(e.fn, e.a, e.xs)
                        /\ e.calls = HofCalls(e.fn, e.a, e.xs)
                        /\ e.after = HofAfter(e.fn, e.xs)
    [] e.fn \in Builders -> /\ e.r = BuildResult(e.fn, e.a, e.xs)
                            /\ e.calls = BuildCalls(e.fn, e.a, e.xs)
                            /\ e.after = e.xs
    [] e.fn \in Searches -> /\ e.r = SearchResult(e.fn, e.a, e.xs)
                            /\ SearchCallsOk(e.fn, e.a, e.xs, e.calls)
                            /\ e.after = e.xs
    [] OTHER -> FALSE

TraceInit == l = 1
Do(e) == CASE e.op = "case" -> TRUE
           [] e.op = "call" -> e.st = "ok" /\ Explained(e)
           [] e.op = "end"  -> TRUE
           [] OTHER -> FALSE
TraceNext == l <= Len(Trace) /\ Do(Trace[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
