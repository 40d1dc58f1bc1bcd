-------------------------- MODULE TraceAgeSessions --------------------------
(* Recorded call histories must be behaviours of AgeSessions: every call    *)
(* answers as Result says, and at the end every output reads as its writer's *)
(* state says.  Secrets drawn are fresh over all histories of the trace.     *)
EXTENDS CaseTrace, SequencesExt

S == INSTANCE AgeSessions WITH Handles <- 1 .. 4, Readers <- 1 .. 3, Weak <- {}

CheckSecrets == IOEnv.SECRETS = "yes"

VARIABLES l,     \* case
          k,     \* call within the case
          s,     \* state of the specification
          seen,  \* secrets (and their halves) of earlier files
          bad
vars == <<l, k, s, seen, bad>>

Cur == Trace[l]
Note(clause, info) == Append(bad, Bad(Cur.id, clause, info))

TraceInit == l = 1 /\ k = 1 /\ s = S!State0 /\ seen = {} /\ bad = <<>>

Mismatch(o, a) ==
    IF o.r \in {"hang", "exit", "swallowed", "badlines"} THEN "abnormal_" \o o.op
    ELSE IF o.r # a.r
    THEN CASE o.op = "write" /\ a.r = "error" -> "write_after_close_accepted"
           [] o.op = "newbad" -> "bad_creation_accepted"
           [] o.op = "open" /\ a.r = "error" -> "incomplete_file_decrypts"
           [] o.op = "open" -> "complete_file_rejected"
           [] OTHER -> o.op \o "_failed"
    ELSE IF o.op = "write" /\ o.cnt # a.n THEN "short_write"
    ELSE IF o.op = "line" /\ ~S!LineFits(s, o) THEN "wrong_line"
    ELSE IF o.op \in {"read", "line"} /\ <<o.src, o.frm, o.cnt>> # <<a.src, a.from, a.n>> THEN "wrong_bytes_read"
    ELSE ""

Call ==
    /\ l <= Len(Trace) /\ k <= Len(Cur.ops)
    /\ LET o == Cur.ops[k]
           m == IF S!Enabled(s, o) THEN Mismatch(o, S!Result(s, o)) ELSE "not_enabled"
       IN  /\ bad' = IF m = "" THEN bad ELSE Note(m, ToString(k))
           /\ s' = S!Apply(s, o)
    /\ k' = k + 1 /\ UNCHANGED <<l, seen>>

FinalBad(f) ==
    LET readable == S!Readable(s, f.h)
        len == S!Total(S!Content(s, f.h))
    IN  IF f.r = "hang" THEN "abnormal_final"
        ELSE IF readable /\ f.r # "ok" THEN "complete_file_rejected"
        ELSE IF ~readable /\ f.r = "ok" THEN "incomplete_file_decrypts"
        ELSE IF readable /\ f.n # len THEN "file_has_wrong_length"
        ELSE IF readable /\ f.n > 0 /\ f.src # f.h THEN "file_has_foreign_bytes"
        ELSE ""

Halves(v) == IF Len(v) >= 32 THEN {SubSeq(v, 1, 16), SubSeq(v, 17, 32)} ELSE {v}

(* the purposes of secrets of which a half occurred before, in earlier files or in this list *)
Reused(ss, old) ==
    LET hs == UNION {Halves(ss[i].v) : i \in DOMAIN ss}
        parts(i) == IF Len(ss[i].v) >= 32 THEN 2 ELSE 1
        size == Len(ss) + Cardinality({i \in DOMAIN ss : parts(i) = 2})
    IN  IF hs \cap old = {} /\ Cardinality(hs) = size THEN {}
        ELSE {ss[i].p : i \in {x \in DOMAIN ss : \/ Halves(ss[x].v) \cap old # {} \/ Cardinality(Halves(ss[x].v)) < parts(x)
                                               \/ \E y \in 1 .. x - 1 : Halves(ss[x].v) \cap Halves(ss[y].v) # {}}}
SecretBad(ss, old) ==
    LET drawn == SelectSeq(ss, LAMBDA x : x.p # "unreadable")
        bads == {"reused_" \o p : p \in Reused(drawn, old)} \cup (IF Len(drawn) < Len(ss) THEN {"unreadable_file"} ELSE {})
    IN  <<old \cup UNION {Halves(drawn[i].v) : i \in DOMAIN drawn}, SetToSeq(bads)>>

EndCase ==
    /\ l <= Len(Trace) /\ k = Len(Cur.ops) + 1
    /\ LET fb == SelectSeq([i \in 1 .. Len(Cur.final) |-> FinalBad(Cur.final[i])], LAMBDA x : x # "")
           sb == IF CheckSecrets THEN SecretBad(Cur.secrets, seen) ELSE <<seen, <<>>>>
           all == fb \o sb[2]
       IN  /\ bad' = bad \o [i \in 1 .. Len(all) |-> Bad(Cur.id, all[i], "final")]
           /\ seen' = sb[1]
    /\ l' = l + 1 /\ k' = 1 /\ s' = S!State0

Report == l = Len(Trace) + 1 /\ WriteVerdict(l - 1, bad) /\ l' = l + 1 /\ UNCHANGED <<k, s, seen, bad>>
TraceSpec == TraceInit /\ [][Call \/ EndCase \/ Report]_vars
=============================================================================
