------------------------------- MODULE QueueImpl -------------------------------
(* How concurrency.hpp builds its queues: a ring or deque guarded by a mutex, *)
(* a condition variable that may wake spuriously and wakes one waiter per     *)
(* notify, and for the double buffer two rings, two pointers and a spin lock. *)
(* Checked here: it refines QueueAbs, nobody is stranded, and it makes        *)
(* progress under fair scheduling.  Variant plants mistakes, to show that     *)
(* these checks notice them.                                                  *)
EXTENDS Queue, TLC
CONSTANTS Kind, Cap, Threads, Consumer, OpsEach, Spurious, Variant

VARIABLES bufs, rb, wb, tmp,   \* two rings and the pointers to them (queues use bufs[1] only)
          lock,                \* holder of the mutex or spin lock, 0: free
          waiting,             \* threads asleep on the condition variable
          pc, op, arg, res,    \* per thread
          count,               \* calls made per thread
          spur                 \* spurious wake-ups so far
vars == <<bufs, rb, wb, tmp, lock, waiting, pc, op, arg, res, count, spur>>

Q == bufs[rb]
Init == /\ bufs = <<(<<>>), (<<>>)>> /\ rb = 1 /\ wb = 2 /\ tmp = 0 /\ lock = 0 /\ waiting = {} /\ spur = 0
        /\ pc = [t \in Threads |-> "idle"] /\ op = [t \in Threads |-> ""] /\ arg = [t \in Threads |-> 0]
        /\ res = [t \in Threads |-> 0] /\ count = [t \in Threads |-> 0]

Go(t, l) == pc' = [pc EXCEPT ![t] = l]
Keep == UNCHANGED <<op, arg, count, spur>>
OpsOf(t) == CASE Kind = "b" -> {"enq", "deq"}
              [] Kind = "n" -> {"enq", "deq", "empty"}
              [] OTHER -> IF t = Consumer THEN {"deq", "empty", "swap"} ELSE {"enq"}

Call(t) == /\ pc[t] = "idle" /\ count[t] < OpsEach
           /\ \E o \in OpsOf(t) :
                /\ Kind = "d" /\ o = "deq" => Q # <<>>     \* the consumer looks first
                /\ op' = [op EXCEPT ![t] = o]
                /\ arg' = [arg EXCEPT ![t] = IF o = "enq" THEN 10 * t + count[t] ELSE 0]
                /\ Go(t, IF Kind = "d" /\ o \in {"deq", "empty"} THEN "act" ELSE "lock")
           /\ count' = [count EXCEPT ![t] = @ + 1]
           /\ UNCHANGED <<bufs, rb, wb, tmp, lock, waiting, res, spur>>
Lock(t) == /\ pc[t] \in {"lock", "relock"} /\ (lock = 0 \/ (Variant = "nolock" /\ op[t] = "empty"))
           /\ lock' = (IF lock = 0 THEN t ELSE lock)
           /\ Go(t, IF Variant = "nowhile" /\ pc[t] = "relock" THEN "take" ELSE "act")
           /\ UNCHANGED <<bufs, rb, wb, tmp, waiting, res>> /\ Keep
Unlock(t) == /\ pc[t] = "unlock" /\ lock' = (IF lock = t THEN 0 ELSE lock) /\ Go(t, "ret")
             /\ UNCHANGED <<bufs, rb, wb, tmp, waiting, res>> /\ Keep
Put(t) == /\ pc[t] = "act" /\ op[t] = "enq"
          /\ LET k == IF Kind = "d" THEN wb ELSE rb
             IN  bufs' = [bufs EXCEPT ![k] = PushOn(@, arg[t], Cap)]
          /\ res' = [res EXCEPT ![t] = 0]
          /\ Go(t, IF Kind = "b" THEN (IF Variant = "notifyfirst" /\ Len(Q) > 0 THEN "unlock" ELSE "notify") ELSE "unlock")
          /\ UNCHANGED <<rb, wb, tmp, lock, waiting>> /\ Keep
Notify(t) == /\ pc[t] = "notify"
             /\ IF waiting = {} THEN Go(t, "unlock") /\ waiting' = waiting
                ELSE \E u \in waiting : waiting' = waiting \ {u} /\ pc' = [pc EXCEPT ![t] = "unlock", ![u] = "relock"]
             /\ UNCHANGED <<bufs, rb, wb, tmp, lock, res>> /\ Keep
Take(t) == /\ op[t] = "deq" /\ pc[t] \in {"act", "take"}
           /\ Q # <<>> \/ (pc[t] = "take")
           /\ bufs' = [bufs EXCEPT ![rb] = IF @ = <<>> THEN @ ELSE Tail(@)]
           /\ res' = [res EXCEPT ![t] = IF Q = <<>> THEN 0 ELSE Head(Q)]
           /\ Go(t, IF Kind = "d" THEN "ret" ELSE "unlock")
           /\ UNCHANGED <<rb, wb, tmp, lock, waiting>> /\ Keep
Nothing(t) == /\ op[t] = "deq" /\ pc[t] = "act" /\ Q = <<>> /\ Kind = "n"
              /\ res' = [res EXCEPT ![t] = 0] /\ Go(t, "unlock")
              /\ UNCHANGED <<bufs, rb, wb, tmp, lock, waiting>> /\ Keep
Sleep(t) == /\ op[t] = "deq" /\ pc[t] = "act" /\ Q = <<>> /\ Kind = "b"
            /\ lock' = 0 /\ waiting' = waiting \cup {t} /\ Go(t, "asleep")
            /\ UNCHANGED <<bufs, rb, wb, tmp, res>> /\ Keep
Look(t) == /\ op[t] = "empty" /\ pc[t] = "act"
           /\ res' = [res EXCEPT ![t] = IF Q = <<>> THEN 1 ELSE 0] /\ Go(t, IF Kind = "d" THEN "ret" ELSE "unlock")
           /\ UNCHANGED <<bufs, rb, wb, tmp, lock, waiting>> /\ Keep
Swap1(t) == /\ op[t] = "swap" /\ pc[t] = "act" /\ tmp' = wb /\ wb' = rb /\ Go(t, "swap2")
            /\ UNCHANGED <<bufs, rb, lock, waiting, res>> /\ Keep
Swap2(t) == /\ pc[t] = "swap2" /\ rb' = tmp /\ tmp' = 0 /\ res' = [res EXCEPT ![t] = 0] /\ Go(t, "unlock")
            /\ UNCHANGED <<bufs, wb, lock, waiting>> /\ Keep
Ret(t) == /\ pc[t] = "ret" /\ Go(t, "idle") /\ op' = [op EXCEPT ![t] = ""] /\ arg' = [arg EXCEPT ![t] = 0] /\ res' = [res EXCEPT ![t] = 0]
          /\ UNCHANGED <<bufs, rb, wb, tmp, lock, waiting, count, spur>>
Wake(t) == /\ t \in waiting /\ spur < Spurious /\ spur' = spur + 1
           /\ waiting' = waiting \ {t} /\ Go(t, "relock")
           /\ UNCHANGED <<bufs, rb, wb, tmp, lock, op, arg, res, count>>

Step(t) == Call(t) \/ Lock(t) \/ Unlock(t) \/ Put(t) \/ Notify(t) \/ Take(t) \/ Nothing(t) \/ Sleep(t) \/ Look(t)
           \/ Swap1(t) \/ Swap2(t) \/ Ret(t)
Next == \E t \in Threads : Step(t) \/ Wake(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Step(t)) /\ SF_vars(Lock(t))

\* ---- what is checked ---------------------------------------------------------
AbsP == [t \in Threads |-> IF pc[t] = "idle" THEN Idle
                           ELSE IF pc[t] \in {"lock", "relock", "act", "take", "asleep", "swap2"} THEN Pend(op[t], arg[t])
                           ELSE Done(res[t])]
AbsObj == IF Kind # "d" THEN [f |-> bufs[1], b |-> <<>>]
          ELSE [f |-> bufs[rb], b |-> bufs[IF tmp # 0 THEN tmp ELSE wb]]
Abs == INSTANCE QueueAbs WITH obj <- AbsObj, p <- AbsP, Vals <- {10 * t + k : t \in Threads, k \in 0..OpsEach}
Refines == Abs!Spec

Mutex == \A t, u \in Threads : (t # u /\ Kind # "d") => ~(pc[t] \in {"act", "notify", "take"} /\ pc[u] \in {"act", "notify", "take"} /\ op[t] # "empty" /\ op[u] # "empty")
\* when nothing can happen any more, only consumers of an empty queue sleep
NotStranded == (\A t \in Threads : ~ENABLED Step(t)) =>
                  /\ lock = 0
                  /\ \A t \in Threads : pc[t] = "idle" \/ (pc[t] = "asleep" /\ op[t] = "deq" /\ Q = <<>>)
Progress == \A t \in Threads : /\ (pc[t] = "asleep" /\ Q # <<>>) ~> (pc[t] # "asleep" \/ Q = <<>>)
                               /\ (pc[t] \notin {"idle", "asleep"}) ~> (pc[t] \in {"idle", "asleep"})
=============================================================================
