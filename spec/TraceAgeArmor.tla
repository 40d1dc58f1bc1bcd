---------------------------- MODULE TraceAgeArmor ----------------------------
(* A01, A02: recorded runs of the armor streams against AgeArmor. *)
EXTENDS CaseTrace
A == INSTANCE AgeArmor WITH Columns <- 64, Weak <- {}
VARIABLES l, bad
vars == <<l, bad>>

(* c.ops[i], c.res[i] = [r, from, n]; after "close": text = lines delivered, *)
(* b64 = base64 of what was written, sinkopen                                *)
RECURSIVE Replay(_, _, _)
Replay(c, i, s) ==
    IF i > Len(c.ops) THEN ""
    ELSE LET o == c.ops[i]
             e == A!OpResult(s, o)
             x == c.res[i]
         IN  IF x.r # e.r THEN "call_outcome"
             ELSE IF o.op = "read" /\ (x.n # e.n \/ x.from # e.from) THEN "bytes_read"
             ELSE IF o.op = "write" /\ e.r = "ok" /\ x.n # e.n THEN "write_count"
             ELSE IF o.op = "close" /\ ~x.sinkopen THEN "closed_underlying_stream"
             ELSE IF o.op = "close" /\ (x.text # A!Section(c.label, x.b64) \/ ~x.term) THEN "armored_text"
             ELSE Replay(c, i + 1, A!OpApply(s, o))

Doc(c) ==
    LET s == A!Sections(c.lines, c.term, c.mode # "lenient")
        v == A!Lookup(s, "AGE ENCRYPTED FILE")
    IN  IF c.r \notin {"ok", "error"} THEN "no_answer"
        ELSE IF c.mode = "input"
        THEN IF c.strange THEN (IF c.r = "ok" /\ c.hit = <<>> THEN "wrong_data" ELSE "")
             ELSE IF v.v = "reject" /\ c.r = "ok" THEN "damaged_armor_accepted"
             ELSE IF v.v = "accept" /\ c.r # "ok" /\ ~c.bytes THEN "valid_armor_rejected"
             ELSE IF c.r = "ok" /\ ~\E k \in DOMAIN c.hit : c.hit[k] = <<v.from, v.to>> THEN "wrong_data"
             ELSE ""
        ELSE LET allgood == \A k \in DOMAIN s.sects : s.sects[k].q = "good"
                 somebad == \E k \in DOMAIN s.sects : s.sects[k].q = "bad"
             IN  IF c.strange THEN ""
                 ELSE IF (s.err \/ somebad) /\ c.r = "ok" THEN "damaged_armor_accepted"
                 ELSE IF ~s.err /\ allgood /\ c.r # "ok" THEN "valid_armor_rejected"
                 ELSE IF c.r = "ok" /\ (Len(c.labels) # Len(s.sects) \/ \E k \in DOMAIN s.sects :
                          \/ c.labels[k] # s.sects[k].label
                          \/ ~\E m \in DOMAIN c.hits[k] : c.hits[k][m] = <<s.sects[k].from, s.sects[k].to>>)
                 THEN "wrong_data"
                 ELSE ""

Verdict(c) == IF c.kind = "hist" THEN Replay(c, 1, A!StreamState) ELSE Doc(c)

TraceInit == l = 1 /\ bad = <<>>
Consume ==
    /\ l <= Len(Trace)
    /\ LET v == Verdict(Trace[l]) IN
       bad' = IF v = "" THEN bad ELSE Append(bad, Bad(Trace[l].id, v, ""))
    /\ l' = l + 1
Report == l = Len(Trace) + 1 /\ WriteVerdict(l - 1, bad) /\ l' = l + 1 /\ UNCHANGED bad
TraceSpec == TraceInit /\ [][Consume \/ Report]_vars
=============================================================================
