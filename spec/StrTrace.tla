------------------------------ MODULE StrTrace ------------------------------
(* Explains recorded histories of the real strings by Str.                   *)
EXTENDS Str, TraceLib

VARIABLE l

\* v: contents by every way of looking (index, nth, iterators, C string, conversions); t: the character after them
\* eq: ==, != of both strings, in both orders, and with each other's C string; cs: sign of compare in both orders
Seen(e) == /\ \A s \in Slots : /\ e.sz[s] = Len(c'[s])
                               /\ e.em[s] = (Len(c'[s]) = 0)
                               /\ e.t[s] = 0
                               /\ \A k \in 1..Len(e.v[s]) : e.v[s][k] = c'[s]
                               /\ e.fb[s] = IF c'[s] = <<>> THEN <<>> ELSE <<c'[s][1], c'[s][Len(c'[s])]>>
           /\ LET a == c'[1]
                  b == c'[2]
              IN /\ e.eq = <<B(a = b), B(b = a), B(a = ToNul(b)), B(b = ToNul(a)), B(a = ToNul(a))>>
                 /\ e.cs = <<Sign(a, b), Sign(b, a), Sign(a, a)>>

TraceInit == l = 1 /\ c = <<>> /\ st = "" /\ res = 0 /\ out = <<>>

Act(e) ==
  LET s == e.s
      a == e.a
  IN CASE e.op = "start"   -> Show(0, <<>>)
       [] e.op = "new"     -> New(s)
       [] e.op = "lit"     -> From(s, a)
       [] e.op = "litn"    -> From(s, a)
       [] e.op = "rng"     -> From(s, a)
       [] e.op = "il"      -> From(s, a)
       [] e.op = "av"      -> From(s, a)
       [] e.op = "arr"     -> From(s, a)
       [] e.op = "fill"    -> From(s, Fill(a[1], a[2]))
       [] e.op = "copy"    -> Copy(s, a[1] + 1)
       [] e.op = "cassign" -> Copy(s, a[1] + 1)
       [] e.op = "move"    -> Move(s, a[1] + 1, e.v[a[1] + 1][1])
       [] e.op = "massign" -> Move(s, a[1] + 1, e.v[a[1] + 1][1])
       [] e.op = "app"     -> AppendTo(s, a)
       [] e.op = "appn"    -> AppendTo(s, Fill(a[1], a[2]))
       [] e.op = "appown"  -> AppendOwn(s, a[1])
       [] e.op = "plus"    -> AppendStr(s, a[1] + 1)
       [] e.op = "asg"     -> Assign(s, a)
       [] e.op = "asgn"    -> Assign(s, Fill(a[1], a[2]))
       [] e.op = "asgown"  -> AssignOwn(s, a[1])
       [] e.op = "ins"     -> Insert(s, a[1], Tail(a))
       [] e.op = "insn"    -> Insert(s, a[1], Tail(a))
       [] e.op = "insown"  -> InsertOwn(s, a[1], a[2])
       [] e.op = "insownn" -> InsertOwnN(s, a[1], a[2], a[3])
       [] e.op = "push"    -> Push(s, a[1])
       [] e.op = "pop"     -> Pop(s)
       [] e.op = "erase"   -> Erase(s, a[1])
       [] e.op = "clear"   -> Clear(s)
       [] e.op = "resize"  -> Resize(s, a[1])
       [] e.op = "reserve" -> Reserve(s, a[1])
       [] e.op = "shrink"  -> Shrink(s)
       [] e.op = "set"     -> Set(s, a[1], a[2])
       [] e.op = "sub"     -> Substr(s, a[1], a[2])
       [] e.op = "subto"   -> SubstrTo(s, a[1] + 1, a[2], a[3])
       [] e.op = "cpy"     -> CopyOut(s, a[1], a[2])
       [] e.op = "at"      -> At(s, a[1])
       [] e.op = "cmp"     -> Compare(s, a[1], a[2], a[3] + 1)
       [] e.op = "eql"     -> EqLit(s, a)
       [] OTHER            -> FALSE

Do(e) ==
  CASE e.op = "case" -> c' = [s \in Slots |-> <<>>] /\ st' = "ok" /\ res' = 0 /\ out' = <<>>
    [] e.op = "end"  -> UNCHANGED svars
    [] e.op = "crash" -> FALSE
    [] OTHER         -> Act(e) /\ st' = e.st /\ res' = e.r /\ out' = e.out /\ e.ref /\ Seen(e)

TraceNext == l <= Len(Trace) /\ Do(Trace[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<svars, l>>
=============================================================================
