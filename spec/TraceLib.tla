------------------------------ MODULE TraceLib ------------------------------
(* Shared by every trace specification: the recorded trace, the position in  *)
(* it, and acceptance.  TRACE names an ndjson file, one event per line.      *)
EXTENDS Json, IOUtils, TLC, Sequences, Naturals

Trace == ndJsonDeserialize(IOEnv.TRACE)

\* every event is one step of a deterministic trace specification
Accepted ==
    LET d == TLCGet("stats").diameter - 1
    IN  IF d = Len(Trace) /\ Trace[Len(Trace)].op = "end"
        THEN TRUE
        ELSE /\ PrintT(<<"REJECTED_AT", IF d = Len(Trace) THEN d ELSE d + 1>>)
             /\ FALSE
=============================================================================
