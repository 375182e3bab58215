------------------------------ MODULE FileGen ------------------------------
(* Histories of Files, printed as scripts.                                   *)
EXTENDS FileSys, TLC

CONSTANTS Depth, MaxLen, Few, Calm

Payloads == IF Few THEN {<<97>>, <<10, 98>>} ELSE {<<>>, <<97>>, <<10>>, <<0, 255>>, <<98, 13, 10, 26>>}

VARIABLES hist, steps
gvars == <<disk, h, res, out, hist, steps>>

I(x) == " " \o ToString(x)
RECURSIVE Codes(_)
Codes(v) == IF v = <<>> THEN "" ELSE I(Head(v)) \o Codes(Tail(v))
Log(t, s, rest) == hist' = hist \o t \o I(s - 1) \o rest \o ";"

ModeNo(m) == CHOOSE k \in 1..17 : <<"r", "w", "a", "r+", "w+", "a+", "rb", "wb", "ab", "r+b", "w+b", "a+b", "rb+", "wb+", "ab+", "wx", "q">>[k] = m

Init == /\ disk = [p \in Paths |-> Absent] /\ h = [s \in Slots |-> None]
        /\ res = 0 /\ out = <<>> /\ hist = "" /\ steps = 0

\* in random histories, opens are not to crowd out the rest
MayOpen(s, m) == ~Calm \/ (ModeNo(m) % 5 = steps % 5 /\ (~IsOpen(s) \/ steps % 9 = 0))

Ops(s) ==
  \/ \E p \in Paths, m \in Modes : MayOpen(s, m) /\ ~(IsOpen(s) /\ h[s].p = p) /\ Open(s, p, m)
        /\ (Log("open", s, I(p) \o I(ModeNo(m))) \/ (IsFile(s) /\ Log("opena", s, I(p) \o I(ModeNo(m)))) \/ Log("opens", s, I(p) \o I(ModeNo(m))))
  \/ \E m \in {"w", "a", "r+"} : MayOpen(s, m) /\ Open(s, Dir, m) /\ Log("open", s, I(Dir) \o I(ModeNo(m)))
  \/ \E m \in {"w", "wb", "a", "ab"} : MayOpen(s, m) /\ Open(s, Full, m) /\ Log("open", s, I(Full) \o I(ModeNo(m)))
  \/ \E t \in Slots : (s # t /\ Move(s, t) /\ Log("move", s, I(t - 1))) \/ (IsFile(s) /\ Move(s, t) /\ Log("massign", s, I(t - 1)))
  \/ Destroy(s) /\ Log("destroy", s, "")
  \/ Close(s) /\ Log("close", s, "")
  \/ \E w \in Payloads : /\ IsOpen(s) /\ h[s].p \in Paths => h[s].pos + Len(disk[h[s].p]) + Len(w) <= MaxLen
                         /\ Write(s, w) /\ res' = (IF IsOpen(s) /\ Wr(h[s].m) THEN 1 ELSE 0)
                         /\ (Log("write", s, Codes(w)) \/ Log("writes", s, Codes(w)) \/ ((\A i \in 1..Len(w) : w[i] # 0) /\ Log("writec", s, Codes(w))))
  \/ WriteHuge(s) /\ Log("writehuge", s, "")
  \/ ReadLine(s) /\ Log("line", s, "")
  \/ ReadLines(s) /\ Log("lines", s, "")
  \/ Flush(s) /\ Log("flush", s, "")
  \/ \E k \in {-1, 0, 1, 3} : Seek(s, k) /\ Log("seek", s, I(k))
  \/ Tell(s) /\ Log("tell", s, "")

Next == steps < Depth /\ steps' = steps + 1 /\ \E s \in Slots : Ops(s)
Spec == Init /\ [][Next]_gvars
GenNext == Next /\ PrintT("S|" \o hist')
GenSpec == Init /\ [][GenNext]_gvars
SimNext == Next \/ (steps = Depth /\ steps' = Depth + 1 /\ UNCHANGED <<disk, h, res, out, hist>>)
SimSpec == Init /\ [][SimNext]_gvars
SimEmit == steps = Depth + 1 => PrintT("S|" \o hist)

\* one script per transition between these
Class(m) == IF m = "q" THEN "q" ELSE IF Ap(m) THEN (IF Rd(m) THEN "a+" ELSE "a") ELSE IF Rd(m) THEN (IF Wr(m) THEN "r+" ELSE "r") ELSE "w"
View == <<[s \in Slots |-> [h[s] EXCEPT !.m = Class(@), !.pos = IF @ = 0 THEN 0 ELSE IF h[s].p \in Paths /\ @ >= Len(disk[h[s].p]) THEN 2 ELSE 1]],
          [p \in Paths |-> IF disk[p] = Absent THEN 0 ELSE IF disk[p] = <<>> THEN 1 ELSE 2]>>

\* ---- what is written is read back: every small content, every way to write and read it --------------------
Alphabet == {0, 10, 13, 97, 255}
Contents == UNION {[1..k -> Alphabet] : k \in 0..MaxLen}
W == {"w", "wb", "w+", "a", "ab", "wx", "w+b", "a+"}
R == {"r", "rb", "r+", "rb+"}
BackInit == Init
BackNext ==
  /\ steps = 0 /\ steps' = 1
  /\ \E v \in Contents, m \in W, r \in R, all \in BOOLEAN :
       /\ (ModeNo(m) + ModeNo(r) + Len(v)) % 3 = 0 \/ Len(v) <= 1
       /\ hist' = "open 0 1" \o I(ModeNo(m)) \o ";" \o (IF all THEN "write" ELSE "writes") \o " 0" \o Codes(v) \o (IF Ap(m) /\ v = <<>> THEN ";" ELSE ";tell 0;")
                  \o (IF all THEN "close 0;" ELSE "destroy 0;") \o "open 0 1" \o I(ModeNo(r)) \o ";"
                  \o (IF all THEN "tell 0;lines 0;tell 0;seek 0 1;lines 0;lines 0;" ELSE "line 0;tell 0;line 0;line 0;line 0;seek 0 0;line 0;tell 0;") \o "destroy 0;"
       /\ PrintT("S|" \o hist')
  /\ UNCHANGED <<disk, h, res, out>>
BackSpec == BackInit /\ [][BackNext]_gvars

\* ---- lines around the sizes of buffers ---------------------------------------------------------------------
Sizes == {63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097}
LongNext ==
  /\ steps = 0 /\ steps' = 1
  /\ \E k \in Sizes, b \in {97, 0, 255}, m \in {"w", "wb"}, all \in BOOLEAN :
       /\ hist' = "open 0 1" \o I(ModeNo(m)) \o ";bulk 0" \o I(k) \o I(b) \o ";write 0 10;bulk 0" \o I(k - 1) \o I(98) \o ";write 0 10 99;tell 0;close 0;open 1 1 1;"
                  \o (IF all THEN "lines 1;" ELSE "line 1;tell 1;line 1;tell 1;line 1;line 1;") \o "close 1;"
       /\ PrintT("S|" \o hist')
  /\ UNCHANGED <<disk, h, res, out>>
LongSpec == BackInit /\ [][LongNext]_gvars
=============================================================================
