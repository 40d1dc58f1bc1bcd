---------------------------- MODULE TraceAgeResolve ----------------------------
(* R01, R02: recorded resolutions of the real code with every file opened   *)
(* and every address fetched on the way.                                    *)
EXTENDS CaseTrace, AgeResolve
CONSTANT Prop
VARIABLES l, bad
vars == <<l, bad>>

World(c) == [aliases |-> c.aliases, files |-> c.files, urls |-> c.urls]
Names(c) ==
    LET m == Meaning(World(c), c.x) IN
    IF c.r \notin {"ok", "error"} THEN "does_not_end"
    ELSE IF ~m.ok THEN (IF c.r = "error" THEN "" ELSE "defect_ignored")
    ELSE IF c.r = "error" THEN "meaning_refused"
    ELSE IF c.keys = m.keys THEN ""
    ELSE IF RangeOf(c.keys) \ RangeOf(m.keys) # {} THEN "foreign_key"
    ELSE IF RangeOf(m.keys) \ RangeOf(c.keys) # {} THEN "key_omitted" ELSE "keys_differ"
(* R02 *)
Expansion(c) ==
    LET extra == RangeOf(c.touched) \ Touches(World(c), c.x) IN
    IF c.r \notin {"ok", "error"} THEN "does_not_end"
    ELSE IF \E t \in extra : SubSeq(t, 1, 5) = "file:" THEN "file_accessed"
    ELSE IF extra # {} THEN "network_accessed"
    ELSE LET m == Meaning(World(c), c.x) IN
         IF c.r = "ok" /\ RangeOf(c.keys) \ RangeOf(m.keys) # {} THEN "foreign_key"
         (* a list whose lines are all literal keys or nothing must not be refused *)
         ELSE IF c.r = "error" /\ m.ok THEN "list_refused" ELSE ""
Verdict(c) == IF Prop = "R01" THEN Names(c) ELSE Expansion(c)

TraceInit == l = 1 /\ bad = <<>>
Consume ==
    /\ l <= Len(Trace)
    /\ LET v == Verdict(Trace[l]) IN
       bad' = IF v = "" THEN bad ELSE Append(bad, Bad(Trace[l].id, v, Trace[l].r))
    /\ l' = l + 1
Report == l = Len(Trace) + 1 /\ WriteVerdict(l - 1, bad) /\ l' = l + 1 /\ UNCHANGED bad
TraceSpec == TraceInit /\ [][Consume \/ Report]_vars
=============================================================================
