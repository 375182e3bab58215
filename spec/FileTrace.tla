------------------------------ MODULE FileTrace ------------------------------
(* Explains recorded histories of real Files by FileSys.                     *)
EXTENDS FileSys, TraceLib

VARIABLE l

Names == <<"r", "w", "a", "r+", "w+", "a+", "rb", "wb", "ab", "r+b", "w+b", "a+b", "rb+", "wb+", "ab+", "wx", "q">>

OpenNow == LET n(s) == IF h'[s].st = "open" THEN 1 ELSE 0 IN n(1) + n(2)
DirtyNow(p) == \E s \in Slots : h'[s].st = "open" /\ h'[s].p = p /\ h'[s].dirty

\* fds: handles the process holds; bad: closes of handles that were not open; disk: the bytes on disk
Seen(e) == /\ e.fds = OpenNow
           /\ e.bad = 0
           /\ \A p \in Paths : DirtyNow(p) \/ e.disk[p] = disk'[p]

Fill(k, b) == [i \in 1..k |-> b]

TraceInit == l = 1 /\ disk = <<>> /\ h = <<>> /\ res = 0 /\ out = <<>>

Act(e) ==
  LET s == e.s
      a == e.a
  IN CASE e.op = "open"   -> Open(s, a[1], Names[a[2]])
       [] e.op = "opena"  -> Open(s, a[1], Names[a[2]])
       [] e.op = "opens"  -> Open(s, a[1], Names[a[2]])
       [] e.op = "move"   -> Move(s, a[1] + 1)
       [] e.op = "massign"-> Move(s, a[1] + 1)
       [] e.op = "destroy"-> Destroy(s)
       [] e.op = "close"  -> Close(s)
       [] e.op = "write"  -> Write(s, a)
       [] e.op = "writes" -> Write(s, a)
       [] e.op = "writec" -> Write(s, a)
       [] e.op = "bulk"   -> Write(s, Fill(a[1], a[2]))
       [] e.op = "writehuge" -> WriteHuge(s)
       [] e.op = "line"   -> ReadLine(s)
       [] e.op = "lines"  -> ReadLines(s)
       [] e.op = "flush"  -> Flush(s)
       [] e.op = "seek"   -> Seek(s, a[1])
       [] e.op = "tell"   -> Tell(s)
       [] OTHER           -> FALSE

Do(e) ==
  CASE e.op = "case" -> disk' = [p \in Paths |-> Absent] /\ h' = [s \in Slots |-> None] /\ res' = 0 /\ out' = <<>>
    [] e.op = "over" -> /\ h' = [s \in Slots |-> None] /\ UNCHANGED <<disk, res, out>> /\ Seen(e)
    [] e.op = "end"  -> UNCHANGED fvars
    [] e.op = "crash" -> FALSE
    [] OTHER         -> Act(e) /\ e.st = "ok" /\ res' = e.r /\ out' = e.out /\ Seen(e)

TraceNext == l <= Len(Trace) /\ Do(Trace[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<fvars, l>>
=============================================================================
