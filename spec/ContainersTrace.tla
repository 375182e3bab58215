--------------------------- MODULE ContainersTrace ---------------------------
(* Explains recorded histories of the real Array, ArrVec and Vector.         *)
EXTENDS Containers, TraceLib

VARIABLE l

\* every way of looking at the containers shows the specified contents
Seen(e) == \A s \in Slots :
             /\ e.sz[s] = Len(c'[s])
             /\ e.em[s] = (Len(c'[s]) = 0)
             /\ e.cap[s] >= Len(c'[s])
             /\ kind' # "vector" => e.cap[s] = n'
             /\ \A k \in 1..Len(e.v[s]) : Matches(e.v[s][k], c'[s])

Range(k, x) == [i \in 1..k |-> x + i - 1]

TraceInit == l = 1 /\ kind = "none" /\ n = 0 /\ c = <<>> /\ st = "" /\ res = 0

\* a[1] is the first argument after the slot
Act(e) ==
  LET s == e.s
      a == e.a
  IN CASE e.op = "start"      -> c' = c /\ st' = "ok" /\ res' = 0 /\ Frame
       [] e.op = "new"        -> New(s)
       [] e.op = "init"       -> From(s, Range(a[1], a[2]))
       [] e.op = "initl"      -> From(s, a)
       [] e.op = "conv"       -> From(s, Range(a[1], a[2]))
       [] e.op = "copy"       -> Copy(s, a[1] + 1)
       [] e.op = "cassign"    -> Copy(s, a[1] + 1)
       [] e.op = "move"       -> Move(s, a[1] + 1, e.sz[a[1] + 1])
       [] e.op = "massign"    -> Move(s, a[1] + 1, e.sz[a[1] + 1])
       [] e.op = "swap"       -> Swap(s, a[1] + 1)
       [] e.op = "push"       -> Push(s, a[1])
       [] e.op = "pushrv"     -> Push(s, a[1])
       [] e.op = "emplace"    -> Push(s, a[1])
       [] e.op = "pushmany"   -> PushMany(s, Range(a[1], a[2]))
       [] e.op = "pushself"   -> PushSelf(s, a[1])
       [] e.op = "emplself"   -> PushSelf(s, a[1])
       [] e.op = "pushselfmv" -> PushSelfMove(s, a[1])
       [] e.op = "insert"     -> Insert(s, Num(a[1]), a[2])
       [] e.op = "insertself" -> InsertSelf(s, a[1], a[2])
       [] e.op = "erase"      -> Erase(s, Num(a[1]))
       [] e.op = "pop"        -> Pop(s)
       [] e.op = "clear"      -> Clear(s)
       [] e.op = "resize"     -> Resize(s, Num(a[1]))
       [] e.op = "reserve"    -> Reserve(s, Num(a[1])) /\ (st' = "ok" => e.cap[s] >= a[1])
       [] e.op = "shrink"     -> Shrink(s)
       [] e.op = "set"        -> Set(s, a[1], a[2])
       [] e.op = "eq"         -> IF HasWild(c[s]) \/ HasWild(c[a[1] + 1])
                                 THEN Answer(e.r) ELSE Eq(s, a[1] + 1)
       [] OTHER               -> FALSE

Do(e) ==
  CASE e.op = "case" -> kind' = e.kind /\ n' = e.n /\ c' = [s \in Slots |-> DefaultOf(e.kind, e.n)] /\ st' = "ok" /\ res' = 0
    [] e.op = "end"  -> UNCHANGED cvars
    [] e.op = "crash" -> FALSE
    [] OTHER         -> Act(e) /\ st' = e.st /\ res' = e.r /\ e.ref /\ Seen(e)

TraceNext == l <= Len(Trace) /\ Do(Trace[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<cvars, l>>
=============================================================================
