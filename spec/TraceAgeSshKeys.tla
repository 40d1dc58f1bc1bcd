---------------------------- MODULE TraceAgeSshKeys ----------------------------
(* K03: recorded calls of the real SSH key loaders against AgeSshKeys. *)
EXTENDS CaseTrace, AgeSshKeys, SshNames
VARIABLES l, bad
vars == <<l, bad>>

Right(entry, type) ==
    CASE entry = "rsapem" -> type = NRsa
      [] entry = "edpem" -> type = NEd
      [] entry = "file" -> type \in {NRsa, NEd}
      [] OTHER -> TRUE
(* what was wanted of a container: its own judgement, then that of the text around it *)
Want(c) ==
    LET D(o) == c.dec
        Good(t, f) == c.orig = <<>> \/ f = c.orig
        k == Load(c.bytes, c.given, D, Good)
    IN IF c.text = "refuse" THEN Refuse("text")
       ELSE IF k.v # "refuse" /\ ~Right(c.entry, k.type) THEN Refuse("entry")
       ELSE IF k.v = "key" /\ c.text = "loose" THEN [k EXCEPT !.v = "loose"]
       ELSE k
Container1(c) ==
    LET k == Want(c) IN
    IF k.v = "key" /\ c.r # "ok" THEN "valid_key_rejected"
    ELSE IF k.v = "refuse" /\ c.r = "ok" THEN
        (IF k.why \in {"numbers", "body"} THEN "different_key" ELSE "damaged_" \o k.why \o "_accepted")
    ELSE IF c.r = "ok" /\ ~c.same THEN "different_key"
    ELSE IF c.r = "ok" /\ c.entry = "openssh" /\ c.got # k.fields THEN "different_key"
    ELSE ""
Pem(c) ==
    IF c.want = "key" /\ c.r # "ok" THEN "valid_key_rejected"
    ELSE IF c.want = "refuse" /\ c.r = "ok" THEN "damaged_pem_accepted"
    ELSE IF c.r = "ok" /\ ~c.same THEN "different_key"
    ELSE ""
Verdict(c) ==
    IF c.r \notin {"ok", "error", "none"} THEN "no_answer"
    ELSE IF c.kind = "pem" THEN Pem(c)
    ELSE Container1(c)

TraceInit == l = 1 /\ bad = <<>>
Consume ==
    /\ l <= Len(Trace)
    /\ LET v == Verdict(Trace[l]) IN
       bad' = IF v = "" THEN bad ELSE Append(bad, Bad(Trace[l].id, v, Trace[l].r))
    /\ l' = l + 1
Report == l = Len(Trace) + 1 /\ WriteVerdict(l - 1, bad) /\ l' = l + 1 /\ UNCHANGED bad
TraceSpec == TraceInit /\ [][Consume \/ Report]_vars
=============================================================================
