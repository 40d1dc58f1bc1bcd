---------------------------- MODULE TraceAgeCommand ----------------------------
(* L01, L02, L03, L05: recorded runs of the real commands.                  *)
EXTENDS CaseTrace, AgeCommand
VARIABLES l, bad
vars == <<l, bad>>

World(c) == [aliases |-> c.aliases, files |-> c.files, urls |-> c.urls]
NameSet(c, x) == LET m == Meaning(World(c), x) IN IF ~m.ok THEN {"error"} ELSE RangeOf(m.keys)
Names(c) == [i \in DOMAIN c.x |-> NameSet(c, c.x[i])]
Clean == {"file", "stdin", "dash", "pipe", "offset", "fifo", "devin", "proc"}
BadInput(c) == c.src \notin Clean
Sinkless == {"full", "stdoutfull", "nodir", "epipe", "closed"}
EncCfg(c) == [names |-> Names(c), pw |-> c.pw # "", armor |-> c.armor, tty |-> c.dst \in {"tty", "ttydash"}, plain |-> <<"p1">>,
              place |-> "other", bad |-> IF BadInput(c) THEN 0 ELSE 99, room |-> IF c.fits /\ c.dst \notin Sinkless THEN 99 ELSE 1, err |-> c.way.err]
RECURSIVE EncEnd(_, _)
EncEnd(s, cfg) == IF s.pc \in Ended THEN s.pc ELSE EncEnd(EncStep(s, cfg), cfg)
Owners(c) == UNION {Names(c)[i] : i \in DOMAIN c.x} \cup (IF c.pw = "" THEN {} ELSE {c.pw})
Got(c, how) == {c.opens[i][1] : i \in {j \in DOMAIN c.opens : c.opens[j][2] = how}}
Pool(c) == {c.opens[i][1] : i \in DOMAIN c.opens}
Untouched(c) == c.stdout # "data" /\ c.after \in {"absent", "old"}
Hangs(c) == c.rc = 999

Enc(c) ==
    LET e == EncEnd(EncStart(EncCfg(c)), EncCfg(c))
        toFile == c.dst \in {"file", "new", "link"}
    IN  IF Hangs(c) THEN "hang"
        ELSE IF c.own # "fine" \/ Got(c, "other") # {} THEN "truncated_file_decrypts"
        ELSE IF e = "refused" THEN
             (IF c.rc = 0 THEN "not_refused" ELSE IF ~Untouched(c) THEN "output_touched_by_refusal" ELSE "")
        ELSE IF e = "failed" THEN
             (IF c.rc = 0 THEN "failure_not_reported"
              (* nothing can be written before everything is read *)
              ELSE IF BadInput(c) /\ Got(c, "same") # {} THEN "output_of_failed_run"
              ELSE "")
        ELSE IF c.rc # 0 THEN "spurious_failure"
        ELSE IF toFile /\ c.stdout = "data" THEN "output_elsewhere"
        ELSE IF c.after # "data" THEN "no_output"
        ELSE IF ~((Owners(c) \cap Pool(c)) \subseteq Got(c, "same")) THEN "recipient_locked_out"
        ELSE IF ~(Got(c, "same") \subseteq Owners(c)) THEN "opens_for_others" ELSE ""

Ids(c) == RangeOf(c.keystxt) \cup UNION {RangeOf(c.keyfiles[i]) : i \in DOMAIN c.keyfiles} \cup RangeOf(c.ssh)
          \cup (IF c.pw = "" THEN {} ELSE {c.pw})
Fits(c, owners) == Ids(c) \cap owners # {}
Whole == Sealed(<<"p1">>, FALSE)
DecCfg(c, changed) ==
    [content |-> IF changed \/ c.armor # c.asarmor THEN <<"bad">> \o Whole ELSE Whole, armor |-> FALSE,
     fits |-> Fits(c, RangeOf(c.rcpts)), room |-> IF c.fits /\ c.dst \notin Sinkless THEN 99 ELSE 0,
     err |-> c.way.err, talks |-> "broken" \in RangeOf(c.ssh) \/ "?" \in RangeOf(c.rcpts)]
RECURSIVE DecEnd(_, _)
DecEnd(s, cfg) == IF s.pc \in Ended THEN s ELSE DecEnd(DecStep(s, cfg), cfg)
Released(c) == c.stdout = "data" \/ c.after \notin {"absent", "old"}
DecFor(c, changed) ==
    LET e == DecEnd(DecStart(DecCfg(c, changed)), DecCfg(c, changed)) IN
    IF e.pc = "zero" THEN
         (IF c.rc # 0 THEN "spurious_failure" ELSE IF c.after # "same" THEN "wrong_output"
          ELSE IF c.stdout = "data" /\ c.dst \in {"file", "new", "link"} THEN "output_elsewhere" ELSE "")
    ELSE IF c.rc = 0 THEN "failure_not_reported"
    (* opening the output is the machine's step between "check" and "write" *)
    ELSE IF e.out = Old /\ Released(c) THEN "output_of_failed_run"
    ELSE ""
Dec(c) ==
    IF Hangs(c) THEN "hang"
    ELSE IF BadInput(c) THEN (IF c.rc = 0 THEN "failure_not_reported" ELSE IF Released(c) THEN "output_of_failed_run" ELSE "")
    ELSE IF c.changed = "no" THEN DecFor(c, FALSE)
    ELSE IF c.changed = "yes" THEN DecFor(c, TRUE)
    (* the text is not what a writer produces, but may still be read as the file *)
    ELSE IF DecFor(c, FALSE) = "" THEN "" ELSE DecFor(c, TRUE)

Round(c) ==
    LET e == EncEnd(EncStart([EncCfg(c) EXCEPT !.room = 99]), [EncCfg(c) EXCEPT !.room = 99])
        owners == UNION {Names(c)[i] : i \in DOMAIN c.x} \cup (IF c.pw = "" THEN {} ELSE {c.pw})
        ids == RangeOf(c.keystxt) \cup UNION {RangeOf(c.keyfiles[i]) : i \in DOMAIN c.keyfiles} \cup RangeOf(c.ssh)
               \cup (IF c.pw2 = "" THEN {} ELSE {c.pw2})
    IN  IF c.rc = 999 \/ c.rc2 = 999 THEN "hang"
        ELSE IF e # "zero" THEN (IF c.rc = 0 THEN "not_refused" ELSE "")
        ELSE IF c.rc # 0 THEN "spurious_failure"
        ELSE IF ids \cap owners = {} THEN (IF c.rc2 = 0 THEN "opens_for_others" ELSE "")
        ELSE IF c.rc2 # 0 THEN "not_inverse"
        ELSE IF c.after # "same" THEN "wrong_output" ELSE IF c.stdout = "data" THEN "output_elsewhere" ELSE ""
Verdict(c) == CASE c.k = "enc" -> Enc(c) [] c.k = "dec" -> Dec(c) [] c.k = "round" -> Round(c @@ [fits |-> TRUE])

TraceInit == l = 1 /\ bad = <<>>
Consume ==
    /\ l <= Len(Trace)
    /\ LET v == Verdict(Trace[l]) IN
       bad' = IF v = "" THEN bad ELSE Append(bad, Bad(Trace[l].id, v, ToString(Trace[l].rc)))
    /\ l' = l + 1
Report == l = Len(Trace) + 1 /\ WriteVerdict(l - 1, bad) /\ l' = l + 1 /\ UNCHANGED bad
TraceSpec == TraceInit /\ [][Consume \/ Report]_vars
=============================================================================
