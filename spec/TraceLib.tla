------------------------------ MODULE TraceLib ------------------------------
(* Reading a recorded behaviour of the real code and following it in the     *)
(* specification.  A trace module conjoins its actions with IsEvent and ends *)
(* with the postcondition Accepted: every record was matched by a step.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
NRec  == Len(Trace)

Has(r, k) == k \in DOMAIN r

Accepted ==
  LET d == TLCGet("stats").diameter
  IN  IF d = NRec + 1 THEN TRUE
      ELSE /\ PrintT(<<"STUCK", d>>)
           /\ FALSE
=============================================================================
