---------------------------- MODULE TraceAgeGenerate ----------------------------
(* L04: recorded runs of generate, each judged as AgeGenerate judges a run.    *)
EXTENDS CaseTrace, AgeGenerate
VARIABLES l, bad
vars == <<l, bad>>

RangeOf(q) == {q[i] : i \in DOMAIN q}
(* permission bits of a mode *)
Bit(who, what) == (CASE who = "u" -> 64 [] who = "g" -> 8 [] who = "o" -> 1) * (CASE what = "r" -> 4 [] what = "w" -> 2 [] what = "x" -> 1)
PermOf(mode) == {b \in Bits : (mode \div Bit(b[1], b[2])) % 2 = 1}
(* c.lines: the lines of the output, secrets and public keys numbered by the driver: n for a secret, -n for its public half *)
State(c) == [pc |-> "end", key |-> 0, held |-> <<>>, out |-> c.lines, err |-> RangeOf(c.said), rc |-> c.rc]
Cfg(c) == [type |-> c.type, opt |-> c.opt, perm |-> PermOf(c.perm), room |-> 3, err |-> IF c.err = "pipe" THEN "open" ELSE "closed"]
Run(c) ==
    LET s == State(c)
        d == Cfg(c)
    IN  IF c.rc = 999 THEN "hang"
        ELSE IF ~Silent(s) \/ c.leak THEN "secret_elsewhere"
        ELSE IF c.must = "fail" THEN (IF c.rc = 0 THEN "failure_not_reported" ELSE "")
        ELSE IF c.rc # 0 THEN (IF c.must = "any" THEN "" ELSE "spurious_failure")
        ELSE IF c.seen /\ ~Reads(s.out) THEN "not_an_identity_file"
        ELSE IF c.seen /\ ~Faithful(s) THEN "wrong_public_key"
        ELSE IF ~Reported(s, d) THEN "public_key_not_reported"
        ELSE IF c.seen /\ c.works # "yes" THEN "key_does_not_work"
        ELSE IF ~Warned(s, d) THEN (IF MustWarn(d) THEN "no_warning" ELSE "spurious_warning")
        ELSE ""
(* the keys of all runs *)
History(c) == IF Fresh([i \in DOMAIN c.keys |-> <<[k |-> "secret", n |-> c.keys[i]]>>]) THEN "" ELSE "key_repeated"
Verdict(c) == CASE c.k = "run" -> Run(c) [] c.k = "history" -> History(c)

TraceInit == l = 1 /\ bad = <<>>
Consume ==
    /\ l <= Len(Trace)
    /\ LET v == Verdict(Trace[l]) IN
       bad' = IF v = "" THEN bad ELSE Append(bad, Bad(Trace[l].id, v, ToString(Trace[l].id)))
    /\ l' = l + 1
Report == l = Len(Trace) + 1 /\ WriteVerdict(l - 1, bad) /\ l' = l + 1 /\ UNCHANGED bad
TraceSpec == TraceInit /\ [][Consume \/ Report]_vars
=============================================================================
