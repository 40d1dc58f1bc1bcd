------------------------------ MODULE CaseTrace ------------------------------
(* Reading a recorded trace (a JSON array of cases) and writing the verdict.  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == JsonDeserialize(IOEnv.TRACE)
Bad(case, clause, info) == [case |-> case, clause |-> clause, info |-> info]
WriteVerdict(consumed, bad) ==
    JsonSerialize(IOEnv.VERDICT, [consumed |-> consumed, bad |-> bad])
=============================================================================
