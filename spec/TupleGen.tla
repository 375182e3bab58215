------------------------------- MODULE TupleGen -------------------------------
(* Histories of two tuples.                                                  *)
EXTENDS Tuple, TLC

CONSTANTS Arities, Vals, Depth

VARIABLE path
I(x) == " " \o ToString(x)
RECURSIVE Join(_)
Join(s) == IF s = <<>> THEN "" ELSE I(s[1]) \o Join(Tail(s))
Emit(mixes, text) == \A m \in mixes : PrintT("S|" \o ToString(m) \o I(n) \o "|" \o text)

Init == n \in Arities /\ t = [s \in Slots |-> [i \in 1..n |-> 0]] /\ st = "ok" /\ res = 0 /\ seen = <<>> /\ path = ""
Op(name, s, rest) == path' = path \o name \o I(s - 1) \o rest \o ";"
\* fresh values: all distinct, or one component changed
Pats == {[i \in 1..n |-> v + i] : v \in Vals}
Step == \E s \in Slots :
          \/ \E vs \in Pats : \/ Make(s, vs) /\ Op("make", s, Join(vs))
                              \/ Make(s, vs) /\ Op("maket", s, Join(vs))
          \/ \E i \in 1..n, v \in Vals, f \in 0..3 : (f = 3 => i <= 2) /\ Set(s, i, v) /\ Op("set", s, I(i - 1) \o I(v) \o I(f))
          \/ \E u \in Slots : \/ Copy(s, u) /\ (Op("cassign", s, I(u - 1)) \/ (s # u /\ Op("copy", s, I(u - 1))))
                              \/ Move(s, u) /\ s # u /\ (Op("massign", s, I(u - 1)) \/ Op("move", s, I(u - 1)))
                              \/ Swap(s, u) /\ s # u /\ Op("swap", s, I(u - 1))
                              \/ ~HasWild(s) /\ ~HasWild(u) /\ (\/ Ask(Same(s, u)) /\ Op("eq", s, I(u - 1))
                                                                \/ Ask(~Same(s, u)) /\ Op("ne", s, I(u - 1)))
          \/ ~HasWild(s) /\ Match(s) /\ Op("match", s, "")
\* model: forget the path
Shape == <<n, t, st, res, seen>>
Spec == Init /\ [][Step]_<<tuvars, path>>
\* one script per transition out of every reachable pair of contents
GenNext == Step /\ Emit({0, 1, 2, 3, 4, 5}, path')
GenSpec == Init /\ [][GenNext]_<<tuvars, path>>
Contents == <<n, t>>
\* random histories
SimEmit == TLCGet("level") = Depth => Emit({n % 2, 2 + (n % 2), 4 + (n % 2)}, path)
SimSpec == Init /\ [][Step]_<<tuvars, path>>
\* every difference of two tuples decides equality: all patterns over two values
EqInit == n \in Arities /\ t \in [Slots -> [1..n -> {0, 2}]] /\ st = "" /\ res = 0 /\ seen = <<>> /\ path = ""
          /\ Emit({0, 1, 2, 3, 4, 5}, "make 0" \o Join(t[1]) \o ";make 1" \o Join(t[2]) \o ";eq 0 1;ne 0 1;eq 1 0;match 0;match 1;cassign 0 1;eq 0 1;")
EqSpec == EqInit /\ [][FALSE]_<<tuvars, path>>
=============================================================================
