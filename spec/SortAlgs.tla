------------------------------- MODULE SortAlgs -------------------------------
(* The algorithms step by step, over every input: timsort with runs of Run   *)
(* elements (insertion into runs, then in-place merges of doubling width),   *)
(* and quicksort with an explicit stack of ranges that always continues with *)
(* the larger part (so the stack stays logarithmic).                         *)
EXTENDS Sort, TLC

CONSTANTS MaxLen, MaxKey, Run

VARIABLES in, a, alg, pc, i, j, size, left, s1, s2, mid, right, stack, lo, hi, piv
vars == <<in, a, alg, pc, i, j, size, left, s1, s2, mid, right, stack, lo, hi, piv>>
\* a: ids in the current order (0-based positions below, a[p + 1])
N == Len(in)
Key(p) == in[a[p + 1]]
Min2(x, y) == IF x < y THEN x ELSE y
Swap(p, q) == [a EXCEPT ![p + 1] = a[q + 1], ![q + 1] = a[p + 1]]

Init == /\ in \in UNION {[1..n -> 1..MaxKey] : n \in 0..MaxLen}
        /\ a = [k \in 1..Len(in) |-> k]
        /\ alg \in {"tim", "quick"}
        /\ pc = "start" /\ i = 0 /\ j = 0 /\ size = 0 /\ left = 0 /\ s1 = 0 /\ s2 = 0 /\ mid = 0 /\ right = 0
        /\ stack = <<>> /\ lo = 0 /\ hi = 0 /\ piv = 0

\* ---- timsort --------------------------------------------------------------------
TimStart == /\ alg = "tim" /\ pc = "start" /\ pc' = IF N = 0 THEN "done" ELSE "ins"
            /\ i' = 1 /\ j' = 1 /\ left' = 0
            /\ UNCHANGED <<in, a, alg, size, s1, s2, mid, right, stack, lo, hi, piv>>
\* element i moves left within its run
Insert == /\ pc = "ins"
          /\ IF i >= N THEN pc' = "width" /\ size' = Run /\ UNCHANGED <<a, i, j, left>>
             ELSE IF i % Run = 0 \/ j = left \/ ~(Key(j) < Key(j - 1))
             THEN i' = i + 1 /\ j' = i + 1 /\ left' = ((i + 1) \div Run) * Run /\ UNCHANGED <<a, pc, size>>
             ELSE a' = Swap(j, j - 1) /\ j' = j - 1 /\ UNCHANGED <<i, left, pc, size>>
          /\ UNCHANGED <<in, alg, s1, s2, mid, right, stack, lo, hi, piv>>
Width == /\ pc = "width"
         /\ IF size >= N THEN pc' = "done" /\ UNCHANGED left ELSE pc' = "pair" /\ left' = 0
         /\ UNCHANGED <<in, a, alg, i, j, size, s1, s2, mid, right, stack, lo, hi, piv>>
Pair == /\ pc = "pair"
        /\ IF left >= N THEN pc' = "width" /\ size' = 2 * size /\ UNCHANGED <<mid, right, s1, s2, left>>
           ELSE LET m == left + size - 1
                    r == Min2(left + 2 * size - 1, N - 1)
                IN /\ mid' = m /\ right' = r /\ s1' = left /\ s2' = m + 1
                   /\ IF m < r /\ Key(m + 1) < Key(m) THEN pc' = "merge" /\ UNCHANGED left
                      ELSE pc' = "pair" /\ left' = left + 2 * size
                   /\ UNCHANGED size
        /\ UNCHANGED <<in, a, alg, i, j, stack, lo, hi, piv>>
Merge == /\ pc = "merge"
         /\ IF ~(s1 <= mid /\ s2 <= right) THEN pc' = "pair" /\ left' = left + 2 * size /\ UNCHANGED <<a, s1, s2, mid>>
            ELSE IF ~(Key(s2) < Key(s1)) THEN s1' = s1 + 1 /\ UNCHANGED <<a, s2, mid, pc, left>>
            ELSE /\ a' = [k \in 1..N |-> IF k = s1 + 1 THEN a[s2 + 1] ELSE IF k > s1 + 1 /\ k <= s2 + 1 THEN a[k - 1] ELSE a[k]]
                 /\ s1' = s1 + 1 /\ s2' = s2 + 1 /\ mid' = mid + 1 /\ UNCHANGED <<pc, left>>
         /\ UNCHANGED <<in, alg, i, j, size, right, stack, lo, hi, piv>>

\* ---- quicksort ------------------------------------------------------------------
QStart == /\ alg = "quick" /\ pc = "start"
          /\ IF N <= 1 THEN pc' = "done" /\ UNCHANGED <<lo, hi, i, j>> ELSE pc' = "part" /\ lo' = 0 /\ hi' = N - 1 /\ i' = 0 /\ j' = 0
          /\ UNCHANGED <<in, a, alg, size, left, s1, s2, mid, right, stack, piv>>
\* one pass of the partition: i counts what is below the pivot at hi
Part == /\ pc = "part"
        /\ IF j < hi THEN /\ j' = j + 1
                          /\ IF Key(j) < Key(hi) THEN a' = Swap(i, j) /\ i' = i + 1 ELSE UNCHANGED <<a, i>>
                          /\ UNCHANGED <<pc, piv>>
           ELSE a' = Swap(i, hi) /\ piv' = i /\ pc' = "split" /\ UNCHANGED <<i, j>>
        /\ UNCHANGED <<in, alg, size, left, s1, s2, mid, right, stack, lo, hi>>
Begin(l, h, st) == IF l < h THEN pc' = "part" /\ lo' = l /\ hi' = h /\ i' = l /\ j' = l /\ stack' = st
                   ELSE IF st = <<>> THEN pc' = "done" /\ stack' = st /\ UNCHANGED <<lo, hi, i, j>>
                   ELSE pc' = "pop" /\ stack' = st /\ UNCHANGED <<lo, hi, i, j>>
\* the larger part waits, the smaller one is done first
Split == /\ pc = "split"
         /\ IF piv - lo < hi - piv THEN Begin(lo, piv - 1, Append(stack, <<piv + 1, hi>>))
                                   ELSE Begin(piv + 1, hi, Append(stack, <<lo, piv - 1>>))
         /\ UNCHANGED <<in, a, alg, size, left, s1, s2, mid, right, piv>>
Pop == /\ pc = "pop" /\ LET t == stack[Len(stack)] IN Begin(t[1], t[2], SubSeq(stack, 1, Len(stack) - 1))
       /\ UNCHANGED <<in, a, alg, size, left, s1, s2, mid, right, piv>>
Next == TimStart \/ Insert \/ Width \/ Pair \/ Merge \/ QStart \/ Part \/ Split \/ Pop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* ---- what holds ------------------------------------------------------------------
Ks == [k \in 1..N |-> in[a[k]]]
AlwaysPermutation == IsPermutation(in, a)
Done == pc = "done" => Sorted(IF alg = "tim" THEN "tim" ELSE "quick", 0, in, Ks, a, 1, N)
\* the loop invariants of the merge and of the partition
MergeInv == pc = "merge" => /\ \A k \in left..(s1 - 2) : ~(Key(k + 1) < Key(k))
                            /\ \A k \in s1..(mid - 1) : ~(Key(k + 1) < Key(k))
                            /\ \A k \in s2..(right - 1) : ~(Key(k + 1) < Key(k))
PartInv == pc = "part" => (\A k \in lo..(i - 1) : Key(k) < Key(hi)) /\ (\A k \in i..(j - 1) : ~(Key(k) < Key(hi)))
\* every pending range is at least as large as everything stacked above it: 2^depth never exceeds the length
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
Shallow == pc = "part" => Pow2(Len(stack)) <= N
Terminates == <>(pc = "done")
=============================================================================
