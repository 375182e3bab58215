------------------------------ MODULE SlicesGen ------------------------------
(* Model of chains of views over every kind of source, and generation of the *)
(* chains to replay: every call at every length at the first level, then     *)
(* every run-time call on every view obtained, then a write to the source.   *)
EXTENDS Slices, TLC

CONSTANTS MaxLen, MaxArg, Group, Depth2

VARIABLES path, head

I(x) == " " \o ToString(x)
RECURSIVE Join(_)
Join(s) == IF s = <<>> THEN "" ELSE I(s[1]) \o Join(Tail(s))

\* ---- the model -------------------------------------------------------------------
Vals(n) == [i \in 1..n |-> i]
MInit == /\ src \in {Vals(n) : n \in 0..MaxLen}
         /\ ws = <<Win(0, Len(src))>>
         /\ st = "ok" /\ path = "" /\ head = ""
MNext == /\ UNCHANGED <<path, head>>
         /\ \/ /\ Len(ws) < 3
               /\ \/ \E a \in 0..MaxArg : Take(a) \/ Drop(a) \/ TakeWhile(a) \/ DropWhile(a)
                  \/ \E a, b \in 0..MaxArg : Slice(a, b)
                  \/ TailOf \/ InitOf \/ Peek
            \/ \E i \in 0..(Len(src) - 1) : src[i + 1] = i + 1 /\ Write(i, 0)
MSpec == MInit /\ [][MNext]_<<svars, path, head>>
WritesSeen == [][\A k \in 1..Len(ws) : ws' = ws /\ src' # src =>
                   Show(src', ws[k]) # Show(src, ws[k])
                   <=> \E i \in 1..Len(src) : src'[i] # src[i] /\ i > ws[k].off /\ i <= ws[k].off + ws[k].len]_<<svars>>

\* ---- generation ------------------------------------------------------------------
\* <<kind, bound>> by group of the driver
Sources == CASE Group = 0 -> {<<0, 0>>, <<1, 0>>, <<0, 1>>, <<0, 2>>, <<0, 3>>, <<0, 4>>, <<1, 1>>, <<1, 3>>}
             [] Group = 1 -> {<<2, 0>>, <<4, 0>>, <<5, 0>>, <<2, 1>>, <<2, 3>>, <<4, 1>>, <<4, 2>>, <<4, 4>>, <<5, 1>>, <<5, 4>>}
             [] Group = 2 -> {<<3, 1>>, <<3, 3>>, <<6, 1>>, <<6, 3>>}
             [] Group = 3 -> {<<7, 0>>, <<8, 0>>, <<9, 0>>, <<10, 3>>, <<11, 4>>, <<12, 0>>}
             [] Group = 4 -> {<<0, 4>>, <<4, 4>>}
             [] OTHER     -> {<<6, 3>>, <<7, 0>>, <<9, 0>>}
Static(k) == k[1] \in {0, 1, 2, 3, 10}
Bounded(k) == k[1] \in {4, 5, 6, 11}
Lens(k) == IF Static(k) THEN {k[2]} ELSE IF Bounded(k) THEN 0..k[2] ELSE {0, 1, 2, 4, 5}
Rots(k) == IF k[1] \in {3, 6} THEN 0..2 ELSE {0}
Writable(k) == k[1] \in {0, 1, 3, 4, 6, 7, 9}

Ct1 == {0, 1, 2, 3, 4, 6}
Ct2 == {0, 1, 3, 6}
\* stands for the largest run-time count, Huge + 1 for one less
Huge == 1000000000
Rt == {0, 1, 2, 3, 4, 5, 9, 1000}
Txt(fn, a, b, mode, mut) == fn \o I(a) \o I(b) \o I(mode) \o I(mut) \o ";"
\* calls with run-time arguments on a window of length n
RtCalls(n, mut) ==
       {<<fn, a, 0, m, mut>> : fn \in {"take", "drop"}, a \in Rt, m \in {0, 4}}
  \cup {<<fn, a, 0, 0, mut>> : fn \in {"take", "drop"}, a \in {Huge, Huge + 1}}
  \cup {<<"slice", a, b, 0, mut>> : a \in {0, 1, Huge}, b \in {Huge, Huge + 1}}
  \cup {<<"slice", Huge, 1, 0, mut>>}
  \cup {<<fn, a, 0, 0, mut>> : fn \in {"utake", "udrop"}, a \in 0..n}
  \cup {<<"slice", a, b, 0, mut>> : a \in {0, 1, 2, 4, 9}, b \in {0, 1, 2, 3, 5, 9}}
  \cup {<<"uslice", a, b, 0, mut>> : <<a, b>> \in {p \in (0..n) \X (0..n) : p[1] <= p[2]}}
  \cup {<<fn, b, 0, 0, mut>> : fn \in {"takew", "dropw"}, b \in 10..16}
  \cup {<<fn, 0, 0, 0, mut>> : fn \in {"tail", "init", "head", "last"}}
\* and with compile-time ones; cap is the compile-time bound, -1 if none
CtCalls(n, cap, mut) ==
       {<<fn, a, 0, 1, mut>> : fn \in {"take", "drop"}, a \in Ct1}
  \cup {<<fn, a, 0, 1, mut>> : fn \in {"utake", "udrop"}, a \in Ct1 \cap 0..n}
  \cup {<<"slice", a, b, 1, mut>> : a \in Ct2, b \in Ct2}
  \cup {<<"slice", a, b, 2, mut>> : a \in Ct2, b \in {0, 2, 3, 9}}
  \cup {<<"slice", 1, Huge, 2, mut>>, <<"slice", Huge, 3, 3, mut>>}
  \cup {<<"slice", a, b, 3, mut>> : a \in {0, 2, 9}, b \in Ct2}
  \cup {<<"uslice", a, b, 1, mut>> : <<a, b>> \in {p \in (Ct2 \cap 0..n) \X (Ct2 \cap 0..n) : p[1] <= p[2]}}
Second(n) == {<<fn, a, 0, 0, 0>> : fn \in {"take", "drop"}, a \in {0, 1, 2, 9}}
        \cup {<<fn, a, 0, 1, 0>> : fn \in {"take", "drop"}, a \in {0, 1, 3}}
        \cup {<<"take", Huge, 0, 0, 0>>, <<"drop", Huge, 0, 0, 0>>, <<"slice", 1, Huge, 0, 0>>}
        \cup {<<fn, a, 0, 0, 0>> : fn \in {"utake", "udrop"}, a \in {0, n}}
        \cup {<<"slice", a, b, 0, 0>> : a \in {0, 1, 3}, b \in {1, 2, 9}}
        \cup {<<fn, b, 0, 0, 0>> : fn \in {"takew", "dropw"}, b \in {11, 13}}
        \cup {<<fn, 0, 0, 0, 0>> : fn \in {"tail", "init", "head", "last"}}
\* the window after a call, to know its length
After(w, c) == CASE c[1] \in {"take", "utake"} -> TakeOf(w, c[2])
                 [] c[1] \in {"drop", "udrop"} -> DropOf(w, c[2])
                 [] c[1] \in {"slice", "uslice"} -> SliceOf(w, c[2], c[3])
                 [] c[1] = "takew" -> TakeOf(w, Max2(0, Min2(w.len, c[2] - 11 - w.off)))
                 [] c[1] = "dropw" -> DropOf(w, Max2(0, Min2(w.len, c[2] - 11 - w.off)))
                 [] c[1] = "tail" -> DropOf(w, 1)
                 [] OTHER -> TakeOf(w, Max2(w.len - 1, 0))
GivesView(w, c) == c[1] \notin {"head", "last"} /\ ~(c[1] \in {"tail", "init"} /\ w.len = 0)
T(c) == Txt(c[1], c[2], c[3], c[4], c[5])
Write3(k, n) == IF n = 0 \/ ~Writable(k) THEN "" ELSE "write 0 90;write " \o ToString(n - 1) \o " 91;" \o (IF n > 2 THEN "write 1 92;" ELSE "")
Emit(k, n, rot, text) == PrintT("S|" \o ToString(k[1]) \o I(k[2]) \o I(rot) \o Join([i \in 1..n |-> 10 + i]) \o "|" \o text)

Gen1(x0) == \A k \in Sources : \A n \in Lens(k), rot \in Rots(k) :
              \A c \in RtCalls(n, 0) \cup RtCalls(n, 1) \cup CtCalls(n, k[2], 0) \cup CtCalls(n, k[2], 1) :
                 Emit(k, n, rot, T(c) \o Write3(k, n))
Gen2(x0) == \A k \in Sources : \A n \in Lens(k) :
              \A c \in {d \in RtCalls(n, 0) \cup RtCalls(n, 1) \cup CtCalls(n, k[2], 0) : d[2] < 6 \/ d[2] \in 10..14} :
                 GivesView(Win(0, n), c) =>
                   \A d \in Second(After(Win(0, n), c).len) :
                      Emit(k, n, n % 3, T(c) \o T(d) \o Write3(k, n))
GInit == /\ src = <<>> /\ ws = <<Win(0, 0)>> /\ st = "" /\ path = "" /\ head = ""
         /\ IF Depth2 THEN Gen2(path) ELSE Gen1(path)
GSpec == GInit /\ [][FALSE]_<<svars, path, head>>
=============================================================================
