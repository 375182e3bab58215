-------------------------------- MODULE Long --------------------------------
(* Long sequences.  The arguments are arithmetic progressions, so that what  *)
(* each function shows (its calls, its result, what the arguments hold       *)
(* afterwards) is again a few progressions, however long it is: Expect gives *)
(* those streams.  LongLaws compares Expect with Prelude, Slices and the     *)
(* other definitions on every short length.                                  *)
EXTENDS Integers, Sequences, SequencesExt

LMin(a, b) == IF a < b THEN a ELSE b
LMax(a, b) == IF a > b THEN a ELSE b
R(a, s, k) == [i \in 1..k |-> a + s * (i - 1)]
Ramp(n) == R(0, 1, n)
Far == 1000000
Other(m) == R(Far, 1, m)
Evens(n) == R(0, 2, (n + 1) \div 2)
Odds(n) == R(1, 2, n \div 2)
Win(off, len) == <<R(off, 1, len), <<off, len>>>>
From(p, n) == R(p, 1, n - p)                    \* p, p + 1, ..., n - 1
One(b) == <<IF b THEN 1 ELSE 0>>
\* the last c of n numbers, after k of them were taken from the front
LastOf(c, n, k) == LET kept == LMin(c, n) IN R(n - kept + LMin(k, kept), 1, kept - LMin(k, kept))

Hofs(fn, n, m) ==
  LET k == LMin(n, m) IN
  CASE fn = "fe1"   -> <<Ramp(n)>>
    [] fn = "fe2"   -> <<Ramp(k), Other(k)>>
    [] fn = "fe3"   -> <<Ramp(k), Other(k), Ramp(k)>>
    [] fn = "map1"  -> <<Ramp(n), R(1, 1, n)>>
    [] fn = "map2"  -> <<Ramp(k), Other(k), R(Far, 2, k)>>
    [] fn = "mapi"  -> <<Ramp(k), Ramp(k), Other(k), R(Far, 3, k)>>
    [] fn = "fei"   -> <<Ramp(n), Ramp(n)>>
    [] fn = "fem"   -> <<Ramp(n), R(1, 1, n)>>
    [] fn = "fem2"  -> <<Ramp(k), Other(k), R(1, 1, k) \o From(k, n), R(Far + 2, 1, k) \o R(Far + k, 1, m - k)>>
    [] fn = "feim"  -> <<Ramp(n), Ramp(n), R(1, 1, n)>>
    [] fn = "foldl" -> <<R(-1, 1, n), Ramp(n), <<n - 1>>>>
    [] fn = "foldr" -> <<R(n - 1, -1, n), R(n, -1, n), <<0>>>>
    [] fn = "fori"  -> <<Ramp(n)>>
    [] fn = "cfi"   -> <<R(0, 0, n) \o R(1, 0, n), Ramp(n) \o Ramp(n)>>
    [] fn = "cfin"  -> <<Ramp(n), R(0, 0, n)>>
    [] fn = "cfe"   -> <<R(0, 0, n) \o R(1, 0, n), Other(n) \o Other(n)>>
    [] fn = "cfen"  -> <<Ramp(n), R(Far, 0, n)>>
Builds(fn, n, m) ==
  CASE fn = "append2" -> <<Ramp(n) \o Other(m)>>
    [] fn = "append3" -> <<Ramp(n) \o Other(m) \o Ramp(2)>>
    [] fn = "concat2" -> <<Ramp(n) \o Other(m)>>
    [] fn = "concatn" -> <<Ramp(n)>>
    [] fn = "intern"  -> <<Ramp(n), R(7, 0, LMax(n - 1, 0))>>      \* at the even and at the odd positions
    [] fn = "inter2"  -> <<Ramp(n) \o Other(m) \o Ramp(n)>>
    [] fn = "cmap2"   -> <<R(0, 0, n) \o R(1, 0, n), Ramp(n) \o Ramp(n), Ramp(n) \o Other(n)>>
    [] fn = "cmapn"   -> <<R(0, 1, 2 * n)>>
    [] fn = "fromfn"  -> <<Ramp(n), R(2, 5, n)>>
Searches(fn, n, m) ==
  CASE fn = "filter"   -> <<Ramp(n), Evens(n)>>
    [] fn = "filterge" -> <<Ramp(n), From(m, LMax(n, m))>>
    [] fn = "find"     -> <<Ramp(LMin(n, m + 1)), One(m < n)>>
    [] fn = "findi"    -> <<Ramp(LMin(n, m + 1)), IF m < n THEN <<m>> ELSE <<>>>>
    [] fn = "findis"   -> <<Ramp(n), Evens(n)>>
    [] fn = "elem"     -> <<One(m < n)>>
    [] fn = "elemi"    -> <<IF m < n THEN <<m>> ELSE <<>>>>
    [] fn = "elemis"   -> <<Ramp(n)>>                                \* of a value that is everywhere
    [] fn = "elemis1"  -> <<IF m < n THEN <<m>> ELSE <<>>>>
    [] fn = "isnull"   -> <<One(n = 0)>>
Slicings(fn, n, m) ==
  CASE fn \in {"take", "takew"} -> Win(0, LMin(m, n))
    [] fn \in {"drop", "dropw"} -> Win(LMin(m, n), n - LMin(m, n))
    [] fn = "slice"  -> Win(LMin(m, n), LMin(m + 10, n) - LMin(m, n))
    [] fn = "tail"   -> Win(1, n - 1)
    [] fn = "init"   -> Win(0, n - 1)
    [] fn = "ends"   -> <<<<0, n - 1>>>>
Containers(fn, n, m) ==
  CASE fn = "push"    -> <<Ramp(n)>>
    [] fn = "resize"  -> <<Ramp(LMin(n, m)) \o R(0, 0, m - LMin(n, m))>>
    [] fn = "insert"  -> <<Ramp(LMin(m, n)) \o <<77>> \o From(LMin(m, n), n)>>
    [] fn = "erase"   -> <<Ramp(m) \o From(m + 1, n)>>
    [] fn = "pop"     -> <<Ramp(n - LMin(n, m))>>
    [] fn = "reserve" -> <<Ramp(n)>>
    [] fn = "shrink"  -> <<Ramp(n)>>
    [] fn = "copy"    -> <<Ramp(n), Ramp(n), <<1, 1>>>>
    [] fn = "move"    -> <<Ramp(n)>>
    [] fn = "convert" -> <<Ramp(n)>>
    [] fn = "equal"   -> <<<<1, 0, 0>>>>                              \* itself, the last element changed, one more
Rings(fn, n, m) ==                                                     \* n pushes, then m pops
  CASE fn = "vcq300"   -> <<R(n - LMin(300, n), 1, LMin(LMin(300, n), m)), LastOf(300, n, m)>>
    [] fn = "vcq66000" -> <<R(n - LMin(66000, n), 1, LMin(LMin(66000, n), m)), LastOf(66000, n, m)>>
    [] fn = "vcqcopy"  -> <<LastOf(300, n, m), LastOf(300, n, m) \o <<9>>>>   \* the source, and a copy with one more
    [] fn = "vcb300"   -> <<R(0, 0, 300 - LMin(300, n)) \o LastOf(300, n, 0)>>
    [] fn = "vcb66000" -> <<R(0, 0, 66000 - LMin(66000, n)) \o LastOf(66000, n, 0)>>
Sorts(fn, n, m) ==
  CASE fn \in {"sort", "unstable", "heap", "tim"} -> <<Ramp(n)>>
    [] fn = "down" -> <<R(n - 1, -1, n)>>
    [] fn = "stable" -> <<Evens(n) \o Odds(n)>>
Strings(fn, n, m) ==                                                   \* characters 1, 2, ...
  LET S(k) == R(1, 1, k) IN
  CASE fn = "spush"   -> <<S(n), <<n, 0>>>>                           \* and what the C string shows: length, terminator
    [] fn = "sappend" -> <<S(n) \o S(m), <<n + m, 0>>>>
    [] fn = "splus"   -> <<S(n) \o S(m), <<n + m, 0>>>>
    [] fn = "sfill"   -> <<R(7, 0, n), <<n, 0>>>>
    [] fn = "sassign" -> <<S(m), <<m, 0>>>>
    [] fn = "sinsert" -> <<S(LMin(m, n)) \o <<5, 5>> \o R(LMin(m, n) + 1, 1, n - LMin(m, n)), <<n + 2, 0>>>>
    [] fn = "serase"  -> <<S(m) \o R(m + 2, 1, n - m - 1), <<n - 1, 0>>>>
    [] fn = "ssubstr" -> <<R(m + 1, 1, LMin(40000, n - m)), <<LMin(40000, n - m), 0>>>>
    [] fn = "scompare" -> <<<<0, 1, -1, 1, 0, 1>>>>                   \* equal; one more; one less; last greater; ==
Queues(fn, n, m) ==                                                    \* n in, then everything out
  CASE fn \in {"bq", "nbq"} -> <<Ramp(n)>>
    [] fn \in {"bq300", "nbq300", "db300"} -> <<LastOf(300, n, 0)>>
Files(fn, n, m) ==
  CASE fn = "flines" -> <<Ramp(n)>>                                   \* line i holds the numeral i
    [] fn = "fline"  -> <<<<n, 0>>, <<n>>>>                           \* one line of n characters, no other; position

Expect(fn, n, m) ==
  CASE fn \in {"fe1", "fe2", "fe3", "map1", "map2", "mapi", "fei", "fem", "fem2", "feim", "foldl", "foldr", "fori", "cfi", "cfin", "cfe", "cfen"} -> Hofs(fn, n, m)
    [] fn \in {"append2", "append3", "concat2", "concatn", "intern", "inter2", "cmap2", "cmapn", "fromfn"} -> Builds(fn, n, m)
    [] fn \in {"filter", "filterge", "find", "findi", "findis", "elem", "elemi", "elemis", "elemis1", "isnull"} -> Searches(fn, n, m)
    [] fn \in {"take", "takew", "drop", "dropw", "slice", "tail", "init", "ends"} -> Slicings(fn, n, m)
    [] fn \in {"push", "resize", "insert", "erase", "pop", "reserve", "shrink", "copy", "move", "convert", "equal"} -> Containers(fn, n, m)
    [] fn \in {"vcq300", "vcq66000", "vcqcopy", "vcb300", "vcb66000"} -> Rings(fn, n, m)
    [] fn \in {"sort", "unstable", "heap", "tim", "down", "stable"} -> Sorts(fn, n, m)
    [] fn \in {"spush", "sappend", "splus", "sfill", "sassign", "sinsert", "serase", "ssubstr", "scompare"} -> Strings(fn, n, m)
    [] fn \in {"bq", "nbq", "bq300", "nbq300", "db300"} -> Queues(fn, n, m)
    [] fn \in {"flines", "fline"} -> Files(fn, n, m)

\* a recorded stream is a list of progressions <<first, step, count>>
Expand(runs) == FoldLeft(LAMBDA acc, r : acc \o R(r[1], r[2], r[3]), <<>>, runs)
=============================================================================
