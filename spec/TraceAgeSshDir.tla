---------------------------- MODULE TraceAgeSshDir ----------------------------
(* K04: recorded directory scans and decryptions of the real code. *)
EXTENDS CaseTrace, AgeSshDir
VARIABLES l, bad
vars == <<l, bad>>

RangeOf(q) == {q[i] : i \in DOMAIN q}
Dir(c) == RangeOf(c.files)
Empty == {"missing", "isfile", "dangling"}
Scan(c) ==
    LET got == RangeOf(c.keys) IN
    IF c.r # "ok" THEN "scan_fails"
    ELSE IF c.root \in Empty /\ c.keys # <<>> THEN "keys_from_nowhere"
    ELSE IF ~(Wanted(Dir(c)) \subseteq got) THEN "usable_key_hidden"
    ELSE IF ~(got \subseteq Tolerated(Dir(c))) THEN "unexpected_key"
    ELSE ""
Decrypt(c) ==
    LET others == IF c.others = "none" THEN {} ELSE {"age"} IN
    IF c.d = "skip" THEN ""
    ELSE IF Opens(Dir(c), others, {c.target}) THEN (IF c.d = "same" THEN "" ELSE "decryption_stopped")
    ELSE IF c.d = "other" THEN "wrong_plaintext"
    ELSE IF c.d = "same" /\ c.target \notin Tolerated(Dir(c)) THEN "opened_by_nobody" ELSE ""
Verdict(c) ==
    LET a == Scan(c) IN IF a # "" THEN a ELSE Decrypt(c)

TraceInit == l = 1 /\ bad = <<>>
Consume ==
    /\ l <= Len(Trace)
    /\ LET v == Verdict(Trace[l]) IN
       bad' = IF v = "" THEN bad ELSE Append(bad, Bad(Trace[l].id, v, Trace[l].r))
    /\ l' = l + 1
Report == l = Len(Trace) + 1 /\ WriteVerdict(l - 1, bad) /\ l' = l + 1 /\ UNCHANGED bad
TraceSpec == TraceInit /\ [][Consume \/ Report]_vars
=============================================================================
