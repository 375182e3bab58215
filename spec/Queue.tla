-------------------------------- MODULE Queue --------------------------------
(* The queues of concurrency.hpp as sequential objects, and what it means for *)
(* a concurrent one to be linearizable to them.                               *)
(*   kind "b": BlockingQ, "n": NonBlockingQ, "d": DoubleBuffer; cap = 0: unbounded *)
(* An object is [f, b]: a double buffer has a front and a back half, the      *)
(* others only use f.  The oldest element comes first.                        *)
EXTENDS Integers, Sequences, FiniteSets

\* a bounded half that is full drops exactly its oldest element
PushOn(q, v, cap) == IF cap > 0 /\ Len(q) = cap THEN Append(Tail(q), v) ELSE Append(q, v)

FreshQ == [f |-> <<>>, b |-> <<>>]

\* the possible effects of one operation: the set of [s: object afterwards, r: result]
\* (none: the operation cannot take effect now)
Effects(kind, cap, s, o, v) ==
  CASE o = "enq" -> {[s |-> IF kind = "d" THEN [s EXCEPT !.b = PushOn(@, v, cap)] ELSE [s EXCEPT !.f = PushOn(@, v, cap)],
                      r |-> 0]}
    [] o = "deq" -> IF s.f # <<>> THEN {[s |-> [s EXCEPT !.f = Tail(@)], r |-> Head(s.f)]}
                    ELSE IF kind = "n" THEN {[s |-> s, r |-> 0]} ELSE {}
    [] o = "empty" -> {[s |-> s, r |-> IF s.f = <<>> THEN 1 ELSE 0]}
    [] o = "swap" -> {[s |-> [f |-> s.b, b |-> s.f], r |-> 0]}
    [] OTHER -> {}

\* what happened before the threads started: values 1..pe go in, a double buffer is swapped, pd come out
RECURSIVE PushAll(_, _, _, _)
PushAll(kind, cap, s, vs) == IF vs = <<>> THEN s
                             ELSE PushAll(kind, cap, (CHOOSE x \in Effects(kind, cap, s, "enq", Head(vs)) : TRUE).s, Tail(vs))
RECURSIVE PopSome(_, _)
PopSome(s, k) == IF k = 0 THEN s ELSE PopSome([s EXCEPT !.f = Tail(@)], k - 1)
Prepared(kind, cap, pe, pd) ==
    LET a == PushAll(kind, cap, FreshQ, [i \in 1..pe |-> i])
        b == IF kind = "d" /\ pe > 0 THEN [f |-> a.b, b |-> a.f] ELSE a
    IN  PopSome(b, pd)

\* ---- linearizability -------------------------------------------------------
\* A configuration is an object and, for each thread, what became of its call: none open, open and not yet in effect, or in
\* effect with a result.  A set of configurations is everything that may have happened so far.
Idle == [st |-> "idle", o |-> "", v |-> 0]
Pend(o, v) == [st |-> "pend", o |-> o, v |-> v]
Done(r) == [st |-> "done", o |-> "", v |-> r]

OneEffect(kind, cap, c) ==
    UNION {{[s |-> x.s, p |-> [c.p EXCEPT ![t] = Done(x.r)]] : x \in Effects(kind, cap, c.s, c.p[t].o, c.p[t].v)}
           : t \in {u \in DOMAIN c.p : c.p[u].st = "pend"}}
RECURSIVE Close(_, _, _, _)
Close(kind, cap, new, all) ==
    IF new = {} THEN all
    ELSE LET nx == (UNION {OneEffect(kind, cap, c) : c \in new}) \ all
         IN  Close(kind, cap, nx, all \cup nx)
May(kind, cap, cs) == Close(kind, cap, cs, cs)

Called(cs, t, o, v) == {[c EXCEPT !.p[t] = Pend(o, v)] : c \in cs}
Returned(kind, cap, cs, t, r) ==
    {[c EXCEPT !.p[t] = Idle] : c \in {d \in May(kind, cap, cs) : d.p[t].st = "done" /\ d.p[t].v = r}}

\* operations that may wait for another thread to do something
MayWait(kind, o) == kind = "b" /\ o = "deq"
\* the threads ts wait for ever: all of them are blocking dequeues, and there is nothing for them
MayStick(kind, cap, cs, ts) ==
    \E c \in May(kind, cap, cs) : /\ c.s.f = <<>>
                                  /\ \A t \in ts : c.p[t].st = "pend" /\ MayWait(kind, c.p[t].o)
=============================================================================
