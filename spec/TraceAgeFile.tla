---------------------------- MODULE TraceAgeFile ----------------------------
(* Conformance of recorded encrypt/edit/decrypt runs with AgeFile.  For each  *)
(* case the specification's own writer and attacker rebuild the file; its     *)
(* judgement decides about the recorded reaction.                             *)
EXTENDS CaseTrace

F == INSTANCE AgeFile WITH ChunkSize <- 65536

VARIABLES l, bad
vars == <<l, bad>>

Verdict(c) ==
    IF c.r = "unproduced" THEN "encryption_failed" ELSE
    LET lens == [k \in 1 .. Len(c.files) |-> c.files[k].len]
        pool == [k \in 1 .. Len(c.files) |-> F!Produce(k, c.files[k].rcpts, lens[k])]
        \* (edits that cancel out in the bytes leave the genuine file)
        f == IF c.same > 0 THEN pool[c.same] ELSE F!EditAll(pool[1], c.edits, pool)
    IN  F!Judge(f, F!Range(c.ids), F!Range(pool), lens, c.r, c.src, c.n)

TraceInit == l = 1 /\ bad = <<>>
Consume ==
    /\ l <= Len(Trace)
    /\ LET v == Verdict(Trace[l]) IN
       bad' = IF v = "" THEN bad ELSE Append(bad, Bad(Trace[l].id, v, Trace[l].r))
    /\ l' = l + 1
Report == l = Len(Trace) + 1 /\ WriteVerdict(l - 1, bad) /\ l' = l + 1 /\ UNCHANGED bad
TraceSpec == TraceInit /\ [][Consume \/ Report]_vars
=============================================================================
