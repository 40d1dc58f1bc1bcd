-------------------------- MODULE TraceAgeSshPublic --------------------------
(* K05: recorded behaviour of the real SSH key classes against AgeSshPublic.  *)
EXTENDS CaseTrace, AgeSshPublic, SshNames
VARIABLES l, bad
vars == <<l, bad>>

NameOf(t) == IF t = "rsa" THEN NRsa ELSE NEd
(* what is said about a key that was loaded *)
Said(c, type, f) ==
    IF c.blob # Blob(type, f) THEN "different_key"
    ELSE IF c.fpm # Md5Text(c.md5) \/ c.fps # ShaText(c.sha) THEN "fingerprint"
    ELSE IF c.flm # FingerprintLine(type, f, Md5Text(c.md5), c.remark) \/ c.fls # FingerprintLine(type, f, ShaText(c.sha), c.remark) THEN "fingerprint_line"
    ELSE IF ~c.unknown THEN "unknown_fingerprint_algorithm"
    ELSE IF c.half = "other" \/ (c.half = "none" /\ c.point) THEN "x25519_half"
    ELSE ""
LineCase(c) ==
    (* a name is read by what it begins with *)
    LET want == NameOf(IF c.r = "ok" /\ c.how # "direct" THEN c.type ELSE c.want)
        j == Read(c.line, want)
        fits == {f \in j.may : c.blob = Blob(want, f)}
    IN  IF c.r # "ok" THEN (IF j.v = "key" THEN "valid_key_rejected" ELSE "")
        ELSE IF c.type # (IF want = NRsa THEN "rsa" ELSE "ed") THEN "wrong_type"
        ELSE IF j.v = "refuse" THEN "damaged_key_accepted"
        ELSE IF fits = {} THEN "different_key"
        ELSE Said(c, want, CHOOSE f \in fits : TRUE)
Pair(c) ==
    LET A == Words(c.a).type
        B == Words(c.b).type
        fa == CHOOSE f \in Read(c.a, A).may : TRUE
        fb == CHOOSE f \in Read(c.b, B).may : TRUE
        same == Same(A, fa, B, fb)
        loose == Read(c.a, A).v # "key" \/ Read(c.b, B).v # "key"
    IN  IF c.r # "ok" THEN (IF loose THEN "" ELSE "valid_key_rejected")
        ELSE IF c.eq # same \/ c.ne = c.eq THEN "equality"
        ELSE IF c.eq /\ ~c.hash THEN "hash"
        ELSE IF c.stranger THEN "equals_a_stranger"
        ELSE ""
(* private keys *)
TypeOfKey(k) == IF k \in {"ec1", "dsa1", "x25519", "ed448", "ec384"} THEN "none" ELSE IF SubSeq(k, 1, 1) = "r" THEN "rsa" ELSE "ed"
Locked(c) == c.fmt \in {"pkcs1-enc", "pkcs8-enc", "openssh-enc"}
Opens(c) == IF Locked(c) THEN (IF c.given = "right" THEN "yes" ELSE "no") ELSE IF c.given = "none" THEN "yes" ELSE "either"
Usable(c) == TypeOfKey(c.key) # "none" /\ c.cls \in {"load", TypeOfKey(c.key)} /\ c.cut = 0 /\ c.dress # "public"
Pem(c) ==
    IF ~c.made THEN ""            \* there is no such file
    ELSE IF c.r = "ok" THEN
        (IF ~Usable(c) \/ Opens(c) = "no" THEN "loaded_from_nothing"
         ELSE IF c.type # TypeOfKey(c.key) THEN "wrong_type"
         ELSE IF ~c.same THEN "different_key"
         ELSE IF c.works # "yes" THEN "key_does_not_work"
         ELSE IF c.half = "other" \/ c.half = "none" THEN "x25519_half" ELSE "")
    ELSE IF Usable(c) /\ Opens(c) = "yes" /\ c.dress \in {"none", "nofinal"} THEN "valid_key_rejected"
    ELSE ""
Made(c) ==
    IF c.r # "ok" THEN "no_key"
    ELSE IF Cardinality({c.blobs[i] : i \in DOMAIN c.blobs}) # c.n THEN "key_repeated"
    ELSE IF c.works # "yes" THEN "key_does_not_work"
    ELSE IF c.cls = "rsa" /\ \E i \in DOMAIN c.sizes : c.sizes[i] # c.size THEN "key_size"
    ELSE ""
Verdict(c) ==
    IF c.r = "hang" THEN "hang"
    ELSE CASE c.k = "line" -> LineCase(c) [] c.k = "pair" -> Pair(c) [] c.k = "pem" -> Pem(c) [] c.k = "made" -> Made(c)

TraceInit == l = 1 /\ bad = <<>>
Consume ==
    /\ l <= Len(Trace)
    /\ LET v == Verdict(Trace[l]) IN
       bad' = IF v = "" THEN bad ELSE Append(bad, Bad(Trace[l].id, v, Trace[l].r))
    /\ l' = l + 1
Report == l = Len(Trace) + 1 /\ WriteVerdict(l - 1, bad) /\ l' = l + 1 /\ UNCHANGED bad
TraceSpec == TraceInit /\ [][Consume \/ Report]_vars
=============================================================================
