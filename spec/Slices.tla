-------------------------------- MODULE Slices --------------------------------
(* Views as windows on a source.  The source is a sequence; a view is the    *)
(* pair [off, len] of the part of the source it shows.  Slicing makes a      *)
(* window from a window and moves no element; a write changes the source and *)
(* so what every window shows.                                               *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES src,    \* the contents of the source
          ws,     \* the windows, oldest first; the first one is the whole source
          st      \* outcome of the last call

svars == <<src, ws, st>>

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Win(off, len) == [off |-> off, len |-> len]
Show(s, w) == SubSeq(s, w.off + 1, w.off + w.len)

\* the definitions, on a window of length w.len
TakeOf(w, a) == Win(w.off, Min2(a, w.len))
DropOf(w, a) == Win(w.off + Min2(a, w.len), w.len - Min2(a, w.len))
SliceOf(w, a, b) == LET hi == Min2(b, w.len)
                        lo == Min2(a, hi)
                    IN Win(w.off + lo, hi - lo)
\* the longest prefix of values below b
RECURSIVE Prefix(_, _)
Prefix(x, b) == IF x = <<>> \/ x[1] >= b THEN 0 ELSE 1 + Prefix(Tail(x), b)
TakeWhileOf(w, b) == TakeOf(w, Prefix(Show(src, w), b))
DropWhileOf(w, b) == DropOf(w, Prefix(Show(src, w), b))

Top == ws[Len(ws)]
Push(w) == ws' = Append(ws, w) /\ st' = "ok" /\ UNCHANGED src
Refuse == ws' = ws /\ st' = "error" /\ UNCHANGED src

Take(a)      == Push(TakeOf(Top, a))
Drop(a)      == Push(DropOf(Top, a))
Slice(a, b)  == Push(SliceOf(Top, a, b))
TailOf       == IF Top.len = 0 THEN Refuse ELSE Push(Win(Top.off + 1, Top.len - 1))
InitOf       == IF Top.len = 0 THEN Refuse ELSE Push(Win(Top.off, Top.len - 1))
TakeWhile(b) == Push(TakeWhileOf(Top, b))
DropWhile(b) == Push(DropWhileOf(Top, b))
\* head and last give one element and no view
Peek         == UNCHANGED <<src, ws>> /\ st' = IF Top.len = 0 THEN "error" ELSE "ok"
Write(i, v)  == src' = [src EXCEPT ![i + 1] = v] /\ st' = "ok" /\ UNCHANGED ws

\* within bounds, as the unsafe forms require
InBounds(fn, a, b) == CASE fn \in {"utake", "udrop"} -> a <= Top.len
                        [] OTHER -> a <= b /\ b <= Top.len

\* ---- what every behaviour must keep -------------------------------------------
Inside == \A k \in 1..Len(ws) : ws[k].off >= 0 /\ ws[k].len >= 0 /\ ws[k].off + ws[k].len <= Len(src)
Nested == \A k \in 2..Len(ws) : ws[k].off >= ws[k - 1].off /\ ws[k].off + ws[k].len <= ws[k - 1].off + ws[k - 1].len
\* take and drop split; a slice is a take of a drop; take_while and drop_while split
Laws == LET x == Show(src, Top) IN
        \A a \in 0..(Len(src) + 2) :
          /\ Show(src, TakeOf(Top, a)) \o Show(src, DropOf(Top, a)) = x
          /\ Show(src, TakeWhileOf(Top, a)) \o Show(src, DropWhileOf(Top, a)) = x
          /\ \A b \in 0..(Len(src) + 2) :
               SliceOf(Top, a, b).len > 0 => SliceOf(Top, a, b) = TakeOf(DropOf(Top, a), b - a)

\* ---- C08: what is known at compile time about a view -----------------------------
\* a type is <<kind, bound>>: "s" static size, "b" bounded, "d" dynamic (bound -1)
ViewName(t) == CASE t[1] = "s" -> "arrayview" [] t[1] = "b" -> "arrvecview" [] OTHER -> "vectorview"
SourceType(kd, nb) == IF kd \in {0, 1, 2, 3, 10} THEN <<"s", nb>>
                      ELSE IF kd \in {4, 5, 6, 11} THEN <<"b", nb>> ELSE <<"d", -1>>
Loose(t) == IF t[1] = "s" THEN <<"b", t[2]>> ELSE t
TakeType(t, a, ct) == IF ~ct THEN Loose(t)
                      ELSE IF t[1] = "s" THEN <<"s", Min2(a, t[2])>>
                      ELSE IF t[1] = "b" THEN <<"b", Min2(a, t[2])>> ELSE <<"b", a>>
DropType(t, a, ct) == IF ~ct THEN Loose(t)
                      ELSE IF t[1] = "d" THEN t ELSE <<t[1], Max2(t[2] - a, 0)>>
LessOne(t) == IF t[1] = "d" THEN t ELSE <<t[1], t[2] - 1>>
TypeAfter(t, fn, a, b, mode) ==
  CASE fn = "take"  -> TakeType(t, a, mode = 1)
    [] fn = "utake" -> IF mode = 1 THEN <<"s", a>> ELSE Loose(t)
    [] fn \in {"drop", "udrop"} -> DropType(t, a, mode = 1)
    [] fn = "slice" -> TakeType(DropType(t, a, mode \in {1, 2}), Max2(b - a, 0), mode = 1)
    [] fn = "uslice" -> IF mode = 1 THEN <<"s", b - a>> ELSE Loose(DropType(t, a, FALSE))
    [] fn \in {"takew", "dropw"} -> Loose(t)
    [] fn \in {"tail", "init"} -> LessOne(t)
    [] OTHER -> t
=============================================================================
