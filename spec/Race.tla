--------------------------------- MODULE Race ---------------------------------
(* Happens-before of the C++ memory model, by vector clocks: mutexes, atomics *)
(* with their memory orders (release sequences included) and fences.  Two     *)
(* accesses race when they conflict and neither happens before the other.     *)
EXTENDS Integers, Sequences, TLC

\* memory orders as numbers: relaxed 0, consume 1, acquire 2, release 3, acq_rel 4, seq_cst 5
Acquires(mo) == mo \in {1, 2, 4, 5}
Releases(mo) == mo \in {3, 4, 5}

VARIABLES ts,    \* the threads
          C,     \* C[t]: what thread t knows
          K,     \* K[m]: what the last holder of mutex m knew when it released it
          A,     \* A[x]: what an acquiring load of x learns
          P,     \* P[t]: learned by relaxed loads, in force after an acquire fence
          F,     \* F[t]: what t knew at its last release fence
          Wr, Rd, \* Wr[x][t], Rd[x][t]: time of t's last plain write and read of x
          AW, AR  \* the same for atomic writes and reads
rvars == <<ts, C, K, A, P, F, Wr, Rd, AW, AR>>

Bot == [t \in ts |-> 0]
Join(a, b) == [t \in DOMAIN a |-> IF a[t] > b[t] THEN a[t] ELSE b[t]]
Get(f, x) == IF x \in DOMAIN f THEN f[x] ELSE Bot
Put(f, x, v) == IF x \in DOMAIN f THEN [f EXCEPT ![x] = v] ELSE (x :> v) @@ f
Mark(f, x, t) == Put(f, x, [Get(f, x) EXCEPT ![t] = C[t][t]])
\* every access recorded in f at x happened before what t does now
Before(f, x, t) == x \in DOMAIN f => \A u \in ts : u # t => f[x][u] <= C[t][u]

RaceStart(n) == /\ ts' = 1..n
                /\ C' = [t \in 1..n |-> [u \in 1..n |-> IF t = u THEN 1 ELSE 0]]
                /\ P' = [t \in 1..n |-> [u \in 1..n |-> 0]]
                /\ F' = [t \in 1..n |-> [u \in 1..n |-> 0]]
                /\ K' = <<>> /\ A' = <<>> /\ Wr' = <<>> /\ Rd' = <<>> /\ AW' = <<>> /\ AR' = <<>>

Locked(t, m) == C' = [C EXCEPT ![t] = Join(@, Get(K, m))] /\ UNCHANGED <<ts, K, A, P, F, Wr, Rd, AW, AR>>
Unlocked(t, m) == /\ K' = Put(K, m, Join(Get(K, m), C[t]))
                  /\ C' = [C EXCEPT ![t][t] = @ + 1]
                  /\ UNCHANGED <<ts, A, P, F, Wr, Rd, AW, AR>>

RECURSIVE MarkAll(_, _, _)
MarkAll(f, xs, t) == IF xs = <<>> THEN f ELSE MarkAll(Mark(f, Head(xs), t), Tail(xs), t)
RECURSIVE PutAll(_, _, _)
PutAll(f, xs, g) == IF xs = <<>> THEN f ELSE PutAll(Put(f, Head(xs), g[Head(xs)]), Tail(xs), g)
Cells(xs) == {xs[i] : i \in 1..Len(xs)}
RECURSIVE JoinAll(_, _)
JoinAll(c, xs) == IF xs = <<>> THEN c ELSE JoinAll(Join(c, Get(A, Head(xs))), Tail(xs))

\* a plain read of the cells xs is ordered after every write
Reads(t, xs) == /\ \A x \in Cells(xs) : Before(Wr, x, t) /\ Before(AW, x, t)
                /\ Rd' = MarkAll(Rd, xs, t)
                /\ UNCHANGED <<ts, C, K, A, P, F, Wr, AW, AR>>
\* a plain write is ordered after every access
Writes(t, xs) == /\ \A x \in Cells(xs) : Before(Wr, x, t) /\ Before(Rd, x, t) /\ Before(AW, x, t) /\ Before(AR, x, t)
                 /\ Wr' = MarkAll(Wr, xs, t)
                 /\ UNCHANGED <<ts, C, K, A, P, F, Rd, AW, AR>>
\* atomic accesses do not race with each other
Learn(t, xs, mo) == IF Acquires(mo) THEN C' = [C EXCEPT ![t] = JoinAll(@, xs)] /\ P' = P
                    ELSE P' = [P EXCEPT ![t] = JoinAll(@, xs)] /\ C' = C
ALoad(t, xs, mo) == /\ \A x \in Cells(xs) : Before(Wr, x, t)
                    /\ Learn(t, xs, mo)
                    /\ AR' = MarkAll(AR, xs, t)
                    /\ UNCHANGED <<ts, K, A, F, Wr, Rd, AW>>
AStore(t, xs, mo) == /\ \A x \in Cells(xs) : Before(Wr, x, t) /\ Before(Rd, x, t)
                     /\ A' = PutAll(A, xs, [x \in Cells(xs) |-> IF Releases(mo) THEN C[t] ELSE F[t]])
                     /\ AW' = MarkAll(AW, xs, t)
                     /\ C' = [C EXCEPT ![t][t] = @ + 1]
                     /\ UNCHANGED <<ts, K, P, F, Wr, Rd, AR>>
\* a read-modify-write continues the release sequence it reads from
RMW(t, xs, mo) == /\ \A x \in Cells(xs) : Before(Wr, x, t) /\ Before(Rd, x, t)
                  /\ LET now == IF Acquires(mo) THEN JoinAll(C[t], xs) ELSE C[t]
                     IN  /\ C' = [C EXCEPT ![t] = [now EXCEPT ![t] = @ + 1]]
                         /\ A' = PutAll(A, xs, [x \in Cells(xs) |-> Join(Get(A, x), IF Releases(mo) THEN now ELSE F[t])])
                  /\ P' = IF Acquires(mo) THEN P ELSE [P EXCEPT ![t] = JoinAll(@, xs)]
                  /\ AW' = MarkAll(AW, xs, t) /\ AR' = MarkAll(AR, xs, t)
                  /\ UNCHANGED <<ts, K, F, Wr, Rd>>
Fence(t, mo) == LET now == IF Acquires(mo) THEN Join(C[t], P[t]) ELSE C[t]
                IN  /\ F' = IF Releases(mo) THEN [F EXCEPT ![t] = now] ELSE F
                    /\ C' = [C EXCEPT ![t] = [now EXCEPT ![t] = @ + 1]]
                    /\ UNCHANGED <<ts, K, A, P, Wr, Rd, AW, AR>>
=============================================================================
