------------------------------- MODULE FuncPtr -------------------------------
(* Plain function pointers made from callable objects.  All pointers made    *)
(* from one class of callables stand for the object bound last; classes do   *)
(* not disturb each other.  A call through a pointer is a call of the object. *)
EXTENDS Integers, Sequences

Classes == 0..5
Objects == 0..2
Slots == 0..1

VARIABLES tot,     \* what each object accumulated
          bound,   \* per class, the object bound last (-1: none)
          made,    \* per class and slot: a pointer has been made
          res
fpvars == <<tot, bound, made, res>>

\* the classes: accumulator; writes through a reference parameter (3 times its weight); counter;
\* returns a reference the caller adds 1 through; pointers to functions; takes a container by value
Gain(k, o, x) == CASE k = 0 -> x [] k = 1 -> 1 [] k = 2 -> 1 [] k = 3 -> 2 * x + 1 [] k = 4 -> (10 * o + 1) * x [] k = 5 -> x
Result(k, o, x) == CASE k = 1 -> x + 3 * (o + 1) [] k = 5 -> 100 * x + 2 [] OTHER -> tot[k][o] + Gain(k, o, x)

FpInit == /\ tot = [k \in Classes |-> [o \in Objects |-> 0]] /\ bound = [k \in Classes |-> -1]
          /\ made = [k \in Classes |-> [s \in Slots |-> FALSE]] /\ res = 0

Apply(k, o, x) == tot' = [tot EXCEPT ![k][o] = @ + Gain(k, o, x)] /\ res' = Result(k, o, x) /\ UNCHANGED <<bound, made>>

Bind(k, s, o) == bound' = [bound EXCEPT ![k] = o] /\ made' = [made EXCEPT ![k][s] = TRUE] /\ res' = 0 /\ tot' = tot
Via(k, s, x) == made[k][s] /\ Apply(k, bound[k], x)
Direct(k, o, x) == Apply(k, o, x)
\* a pointer is a value: copied from the other slot
CopyPtr(k, s) == made[k][1 - s] /\ made' = [made EXCEPT ![k][s] = TRUE] /\ res' = 0 /\ UNCHANGED <<tot, bound>>
\* an object takes the state of another
CopyObj(k, o, p) == k # 4 /\ tot' = [tot EXCEPT ![k][o] = tot[k][p]] /\ res' = 0 /\ UNCHANGED <<bound, made>>

\* ---- laws ---------------------------------------------------------------------
BoundWhenMade == \A k \in Classes : (\E s \in Slots : made[k][s]) <=> bound[k] \in Objects
\* one step changes one class at most
OneClass == [][\A k, j \in Classes : k # j => (tot[k] = tot'[k] \/ tot[j] = tot'[j]) /\ (bound[k] = bound'[k] \/ bound[j] = bound'[j])]_fpvars
=============================================================================
