------------------------------ MODULE FileSys ------------------------------
(* Files: disk[p] is the contents of path p as the programs see it (<<-1>>:  *)
(* absent), h[s] a File object of the program.  A path has at most one open  *)
(* File at a time; path 8 is a directory, path 9 a device that is full.      *)
EXTENDS Integers, Sequences

VARIABLES disk, h, res, out
fvars == <<disk, h, res, out>>

Slots == {1, 2}
Paths == 1..2
Absent == <<-1>>
Dir == 8
Full == 9

\* the modes of fopen
Modes == {"r", "w", "a", "r+", "w+", "a+", "rb", "wb", "ab", "r+b", "w+b", "a+b", "rb+", "wb+", "ab+", "wx", "q"}
Rd(m) == m \in {"r", "rb", "r+", "w+", "a+", "r+b", "w+b", "a+b", "rb+", "wb+", "ab+"}
Wr(m) == m \notin {"r", "rb", "q"}
Ap(m) == m \in {"a", "a+", "ab", "a+b", "ab+"}
Trunc(m) == m \in {"w", "w+", "wb", "w+b", "wb+", "wx"}
Must(m) == m \in {"r", "r+", "rb", "r+b", "rb+"}         \* the file must exist
MustNot(m) == m = "wx"

None == [st |-> "none", p |-> 0, m |-> "q", pos |-> 0, dirty |-> FALSE, last |-> "n", known |-> FALSE]
Closed == [None EXCEPT !.st = "closed"]
IsOpen(s) == h[s].st = "open"
IsFile(s) == h[s].st # "none"
Busy(p) == \E s \in Slots : IsOpen(s) /\ h[s].p = p
OpenFiles == LET n(s) == IF h[s].st = "open" THEN 1 ELSE 0 IN n(1) + n(2)

Opens(p, m) == IF p = Dir THEN FALSE
               ELSE IF p = Full THEN Wr(m) /\ ~MustNot(m)
               ELSE /\ m # "q"
                    /\ Must(m) => disk[p] # Absent
                    /\ MustNot(m) => disk[p] = Absent

Answer(r, v) == res' = r /\ out' = v

\* open in slot s; whatever File was there is destroyed (its handle closed) or assigned to
Open(s, p, m) ==
  /\ p \in Paths => ~Busy(p)
  /\ IF Opens(p, m)
     THEN /\ h' = [h EXCEPT ![s] = [st |-> "open", p |-> p, m |-> m, pos |-> 0, dirty |-> FALSE, last |-> "n", known |-> ~Ap(m)]]
          /\ disk' = IF p = Full THEN disk
                     ELSE [disk EXCEPT ![p] = IF Trunc(m) \/ @ = Absent THEN <<>> ELSE @]
          /\ Answer(1, <<>>)
     ELSE /\ h' = h /\ disk' = disk /\ Answer(0, <<>>)

Move(s, t) == /\ IsFile(t)
              /\ h' = IF s = t THEN h ELSE [h EXCEPT ![s] = h[t], ![t] = Closed]
              /\ disk' = disk /\ Answer(0, <<>>)

Destroy(s) == IsFile(s) /\ h' = [h EXCEPT ![s] = None] /\ disk' = disk /\ Answer(0, <<>>)

\* closing reports whether everything written has reached the file; the handle is gone either way
Close(s) == /\ IsFile(s)
            /\ IF ~IsOpen(s) THEN h' = h /\ Answer(0, <<>>)
               ELSE /\ h' = [h EXCEPT ![s] = Closed] /\ out' = <<>>
                    /\ IF h[s].last = "x" THEN res' \in {0, 1} ELSE res' = IF h[s].p = Full /\ h[s].dirty THEN 0 ELSE 1
            /\ disk' = disk

Pad(v, k) == IF Len(v) >= k THEN v ELSE v \o [i \in 1..(k - Len(v)) |-> 0]
PutAt(v, k, w) == LET x == Pad(v, k) IN SubSeq(x, 1, k) \o w \o SubSeq(x, k + Len(w) + 1, Len(x))

\* last "x": an operation has failed, and what the C library still holds is its own business
CanWrite(s) == IsFile(s) /\ (IsOpen(s) => h[s].last \in {"n", "w"})
CanRead(s) == IsFile(s) /\ (IsOpen(s) => h[s].last \in {"n", "r"} /\ (Rd(h[s].m) => h[s].known))

\* writing succeeds exactly when the File is open for writing
Write(s, w) ==
  /\ CanWrite(s)
  /\ IF ~IsOpen(s) THEN h' = h /\ disk' = disk /\ Answer(0, <<>>)
     ELSE IF w = <<>> THEN h' = h /\ disk' = disk /\ res' \in {0, 1} /\ out' = <<>> /\ (Wr(h[s].m) => res' = 1)
     ELSE IF ~Wr(h[s].m) THEN h' = h /\ disk' = disk /\ Answer(0, <<>>)
     ELSE IF h[s].p = Full THEN h' = [h EXCEPT ![s].dirty = TRUE, ![s].last = "w"] /\ disk' = disk /\ Answer(1, <<>>)
     ELSE LET p == h[s].p
              at == IF Ap(h[s].m) THEN Len(disk[p]) ELSE h[s].pos
          IN /\ disk' = [disk EXCEPT ![p] = PutAt(@, at, w)]
             /\ h' = [h EXCEPT ![s].pos = at + Len(w), ![s].dirty = TRUE, ![s].last = "w", ![s].known = TRUE]
             /\ Answer(1, <<>>)

\* more than any buffer holds, on the full device: the write itself fails
WriteHuge(s) == /\ IsOpen(s) /\ h[s].last # "x" /\ h[s].p = Full /\ Wr(h[s].m) /\ Answer(0, <<>>) /\ disk' = disk
                /\ h' = [h EXCEPT ![s].dirty = TRUE, ![s].last = "x"]

\* the line that starts at offset k of v: its characters and the offset after it
RECURSIVE LineEnd(_, _)
LineEnd(v, k) == IF k >= Len(v) \/ v[k + 1] = 10 THEN k ELSE LineEnd(v, k + 1)
Line(v, k) == SubSeq(v, k + 1, LineEnd(v, k))
After(v, k) == IF LineEnd(v, k) < Len(v) THEN LineEnd(v, k) + 1 ELSE LineEnd(v, k)
RECURSIVE LinesFrom(_, _)
LinesFrom(v, k) == IF k >= Len(v) THEN <<>> ELSE <<Line(v, k)>> \o LinesFrom(v, After(v, k))

Readable(s) == IsOpen(s) /\ Rd(h[s].m) /\ h[s].p \in Paths

\* the next line, or nothing (result 0) exactly at the end
ReadLine(s) ==
  /\ CanRead(s) /\ disk' = disk
  /\ IF ~Readable(s) THEN h' = h /\ Answer(0, <<>>)
     ELSE LET v == disk[h[s].p]
              k == h[s].pos
          IN IF k >= Len(v) THEN h' = [h EXCEPT ![s].last = "r"] /\ Answer(0, <<>>)
             ELSE h' = [h EXCEPT ![s].pos = After(v, k), ![s].last = "r"] /\ Answer(1, Line(v, k))

\* all remaining lines
ReadLines(s) ==
  /\ CanRead(s) /\ disk' = disk
  /\ IF ~Readable(s) THEN h' = h /\ Answer(0, <<>>)
     ELSE LET v == disk[h[s].p]
              k == h[s].pos
          IN /\ h' = [h EXCEPT ![s].pos = IF k > Len(v) THEN k ELSE Len(v), ![s].last = "r"]
             /\ Answer(Len(LinesFrom(v, k)), LinesFrom(v, k))

Flush(s) == /\ IsFile(s) /\ disk' = disk
            /\ IF ~IsOpen(s) THEN h' = h /\ Answer(-1, <<>>)
               ELSE IF h[s].p = Full /\ h[s].dirty THEN h[s].last # "x" /\ h' = [h EXCEPT ![s].last = "x"] /\ Answer(-1, <<>>)
               ELSE /\ h' = [h EXCEPT ![s].dirty = FALSE, ![s].last = IF @ = "w" THEN "n" ELSE @]
                    /\ Answer(0, <<>>)

Seek(s, k) == /\ IsFile(s) /\ disk' = disk
              /\ IF ~IsOpen(s) THEN h' = h /\ Answer(0, <<>>)
                 ELSE IF k < 0 THEN h[s].p # Full /\ h' = h /\ Answer(0, <<>>)
                 ELSE /\ h[s].p # Full
                      /\ h' = [h EXCEPT ![s].pos = k, ![s].dirty = FALSE, ![s].last = "n", ![s].known = TRUE]
                      /\ Answer(1, <<>>)

Tell(s) == /\ IsFile(s) /\ disk' = disk /\ h' = h
           /\ IF ~IsOpen(s) THEN Answer(-1, <<>>)
              ELSE h[s].p # Full /\ h[s].known /\ Answer(h[s].pos, <<>>)

\* ---- properties of the specification ---------------------------------------
OneOwner == \A s, t \in Slots : (s # t /\ IsOpen(s) /\ IsOpen(t) /\ h[s].p \in Paths) => h[s].p # h[t].p
\* only writes and truncating opens change a file, and a File that is not open changes nothing
Inert == [][(\A s \in Slots : h[s].st # "open") => \A p \in Paths : disk'[p] = disk[p] \/ disk'[p] = <<>>]_fvars
\* the lines and their newlines are the file
RECURSIVE Joined(_)
Joined(ls) == IF ls = <<>> THEN <<>> ELSE Head(ls) \o <<10>> \o Joined(Tail(ls))
LinesAreTheFile == \A p \in Paths : disk[p] # Absent =>
                      LET j == Joined(LinesFrom(disk[p], 0)) IN j = disk[p] \/ j = disk[p] \o <<10>>
=============================================================================
