------------------------------ MODULE FuncPtrGen ------------------------------
(* Histories of pointers made from callables.                                *)
EXTENDS FuncPtr, TLC

CONSTANTS Focus, Args, Depth

VARIABLE path
I(x) == " " \o ToString(x)
Op(name, rest) == path' = path \o name \o rest \o ";"
Init == FpInit /\ path = ""
Step == \E k \in Focus :
          \/ \E s \in Slots : \/ \E o \in Objects : Bind(k, s, o) /\ Op("bind", I(k) \o I(s) \o I(o))
                              \/ \E x \in Args : Via(k, s, x) /\ Op("via", I(k) \o I(s) \o I(x))
                              \/ CopyPtr(k, s) /\ Op("copyptr", I(k) \o I(s))
          \/ \E o \in Objects : \/ \E x \in Args : Direct(k, o, x) /\ Op("direct", I(k) \o I(o) \o I(x))
                                \/ \E p \in Objects \ {o} : CopyObj(k, o, p) /\ Op("copyobj", I(k) \o I(o) \o I(p))
Emit(t) == PrintT("S||" \o t)
GenNext == Step /\ Emit(path')
GenSpec == Init /\ [][GenNext]_<<fpvars, path>>
Control == <<bound, made>>
SimEmit == TLCGet("level") = Depth => Emit(path)
SimSpec == Init /\ [][Step]_<<fpvars, path>>
=============================================================================
