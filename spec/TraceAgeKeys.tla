----------------------------- MODULE TraceAgeKeys -----------------------------
(* K01, K02: recorded calls of the real key readers against AgeKeys. *)
EXTENDS CaseTrace, AgeKeys
VARIABLES l, bad
vars == <<l, bad>>

Text(c) ==
    LET want == ReadKey(c.kind, c.text) IN
    IF want.v = "key" /\ c.r # "ok" THEN "valid_key_rejected"
    ELSE IF want.v = "none" /\ c.r = "ok" THEN "damaged_key_accepted"
    ELSE IF c.r = "ok" /\ c.bytes # want.bytes THEN "different_key"
    ELSE ""
Unbech(c) ==
    LET want == Decode(c.text) IN
    IF want.ok # (c.r = "ok") THEN "bech32_accepts"
    ELSE IF want.ok /\ (c.bytes # want.bytes \/ c.hrp # want.hrp) THEN "bech32_value"
    ELSE ""
File(c) ==
    IF c.how = "dir" THEN (IF c.r = "ok" /\ c.keys # <<>> THEN "keys_from_nowhere" ELSE "")
    ELSE IF c.how \in {"missing", "missinghome", "missingtilde"}
    THEN (IF c.r # "ok" \/ c.keys # <<>> THEN "missing_file" ELSE "")
    ELSE LET want == ReadFile(c.lines, c.sep) IN
         IF want.err /\ c.r = "ok" THEN "damaged_line_ignored"
         ELSE IF ~want.err /\ ~want.loose /\ c.r # "ok" THEN "valid_file_rejected"
         ELSE IF c.r = "ok" /\ c.keys # want.keys THEN "wrong_keys"
         ELSE ""
Verdict(c) ==
    IF c.r \notin {"ok", "error"} THEN "no_answer"
    ELSE CASE c.kind \in {"pub", "priv"} -> Text(c)
           [] c.kind = "writepub" -> IF c.r # "ok" \/ c.text # KeyText("pub", c.bytes) \/ ~c.same THEN "key_text" ELSE ""
           [] c.kind = "writepriv" -> IF c.r # "ok" \/ c.text # KeyText("priv", c.bytes) \/ ~c.same THEN "key_text" ELSE ""
           [] c.kind = "bech" -> IF c.r # "ok" \/ c.text # Encode(c.hrp, c.bytes) THEN "bech32_text" ELSE ""
           [] c.kind = "unbech" -> Unbech(c)
           [] c.kind = "file" -> File(c)

TraceInit == l = 1 /\ bad = <<>>
Consume ==
    /\ l <= Len(Trace)
    /\ LET v == Verdict(Trace[l]) IN
       bad' = IF v = "" THEN bad ELSE Append(bad, Bad(Trace[l].id, v, Trace[l].r))
    /\ l' = l + 1
Report == l = Len(Trace) + 1 /\ WriteVerdict(l - 1, bad) /\ l' = l + 1 /\ UNCHANGED bad
TraceSpec == TraceInit /\ [][Consume \/ Report]_vars
=============================================================================
