---------------------------- MODULE TraceAgeWire ----------------------------
(* C05: files the code wrote, taken apart by the reference reader, must be    *)
(* what AgeWire prescribes.  C06: files the reference writer made (shown to   *)
(* be well-formed by rendering them from the specification) must be read.     *)
EXTENDS CaseTrace, Naturals

W == INSTANCE AgeWire WITH Columns <- 64, ChunkSize <- 65536

VARIABLES l, bad
vars == <<l, bad>>

Wrote(c) ==
    IF c.r # "ok" THEN "encryption_failed"
    ELSE IF Len(c.stanzas) # Len(c.rcpts) THEN "stanza_count"
    ELSE IF c.header # W!RenderHeader(c.stanzas, c.mac) THEN "header_text"
    ELSE IF \E i \in 1 .. Len(c.rcpts) : ~W!ShapeOK(c.rcpts[i], c.stanzas[i], c.modulus[i]) THEN "stanza_shape"
    ELSE IF \E i \in 1 .. Len(c.rcpts) : ~c.opens[i] THEN "stanza_does_not_open"
    ELSE IF ~c.onekey \/ c.keylen # 16 THEN "file_key"
    ELSE IF Len(c.mac) # W!B64Len(32) \/ ~c.macok THEN "header_mac"
    ELSE IF c.chunks # W!Layout(c.len) THEN "chunk_layout"
    ELSE IF ~c.plain THEN "chunk_contents"
    ELSE ""

Read(c) ==
    IF c.header # W!RenderHeader(c.fields, c.mac) THEN "reference_writer_not_well_formed"
    ELSE IF c.r # "ok" THEN "valid_file_rejected"
    ELSE IF c.n # c.len \/ (c.n > 0 /\ c.src # 1) THEN "wrong_plaintext"
    ELSE ""

Verdict(c) == IF c.dir = "wrote" THEN Wrote(c) ELSE Read(c)

TraceInit == l = 1 /\ bad = <<>>
Consume ==
    /\ l <= Len(Trace)
    /\ LET v == Verdict(Trace[l]) IN
       bad' = IF v = "" THEN bad ELSE Append(bad, Bad(Trace[l].id, v, Trace[l].r))
    /\ l' = l + 1
Report == l = Len(Trace) + 1 /\ WriteVerdict(l - 1, bad) /\ l' = l + 1 /\ UNCHANGED bad
TraceSpec == TraceInit /\ [][Consume \/ Report]_vars
=============================================================================
