-------------------------- MODULE TraceAgePassword --------------------------
(* C09: recorded runs of the real reader and writer against AgePassword. *)
EXTENDS CaseTrace
P == INSTANCE AgePassword WITH Lo <- 1, Hi <- 22, Weak <- {}
VARIABLES l, bad
vars == <<l, bad>>

(* kind "own": the file was written by the code for the passwords pws; its *)
(* stanzas' work factor texts are c.st[i].wf, work done while writing: wwork *)
Verdict(c) ==
    IF c.kind = "own" /\ c.made # "ok" THEN "encryption_failed"
    ELSE IF c.kind = "own" /\ (\/ Len(c.st) # Len(c.pws)
                               \/ \E x \in P!Range(c.st) : ~P!Canonical(x.wf) \/ ~P!InRange(P!Value(x.wf)))
         THEN "written_work_factor"
    ELSE IF c.kind = "own" /\ ~P!WorkAllowed(c.st, <<1>>, c.wwork) THEN "writer_work"
    ELSE IF c.r \notin {"ok", "noid", "fail"} THEN "no_answer"
    ELSE IF ~P!WorkAllowed(c.st, c.ids, c.work) THEN "work_done_for_refused_factor"
    ELSE IF ~c.idle THEN "effort_for_refused_factor"
    ELSE IF c.r = "ok" /\ ~c.plain THEN "wrong_plaintext"
    ELSE IF c.r = "ok" /\ ~P!MayOpen(c.st, c.ids) THEN "opened_wrongly"
    ELSE IF c.r # "ok" /\ P!MustOpen(c.st, c.ids) /\ c.honest THEN "valid_stanza_refused"
    ELSE ""

TraceInit == l = 1 /\ bad = <<>>
Consume ==
    /\ l <= Len(Trace)
    /\ LET v == Verdict(Trace[l]) IN
       bad' = IF v = "" THEN bad ELSE Append(bad, Bad(Trace[l].id, v, Trace[l].r))
    /\ l' = l + 1
Report == l = Len(Trace) + 1 /\ WriteVerdict(l - 1, bad) /\ l' = l + 1 /\ UNCHANGED bad
TraceSpec == TraceInit /\ [][Consume \/ Report]_vars
=============================================================================
