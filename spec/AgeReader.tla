------------------------------ MODULE AgeReader ------------------------------
(***************************************************************************)
(* Design check: the decryption algorithm of src/age/file.py and           *)
(* recipients/helpers.py, step by step, against an attacker who edits      *)
(* files.  Requirement: its result is always one AgeFile!Allowed permits.  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Ids,        \* identities
          RcptLists,  \* recipient list of each produced file
          LenChoices, \* plaintext lengths (in units scaled by ChunkSize)
          EditSet,    \* edits the attacker may apply
          MaxEdits,
          Weak        \* mechanisms switched off (for the vacuity check)

CS == 2               \* chunk size used in the model
F == INSTANCE AgeFile WITH ChunkSize <- CS

VARIABLES lens, pool,       \* produced files
          file, nedits,        \* the file under attack
          ids,              \* identities of the reader
          pc, si, cand, fk, ci, released, result
vars == <<lens, pool, file, nedits, ids, pc, si, cand, fk, ci, released, result>>

Init ==
    /\ lens \in [DOMAIN RcptLists -> LenChoices]
    /\ pool = [k \in DOMAIN RcptLists |-> F!Produce(k, RcptLists[k], lens[k])]
    /\ file = pool[1]
    /\ nedits = 0
    /\ ids \in SUBSET Ids
    /\ pc = "attack" /\ si = 1 /\ cand = {} /\ fk = 0 /\ ci = 1
    /\ released = <<>> /\ result = "none"

Attack ==
    /\ pc = "attack" /\ nedits < MaxEdits
    /\ \E e \in EditSet : file' = F!Edit(file, e, pool) /\ file' # file
    /\ nedits' = nedits + 1
    /\ UNCHANGED <<lens, pool, ids, pc, si, cand, fk, ci, released, result>>

Finish(r) == pc' = "done" /\ result' = r

(* load_header + get_recipient: version line, then stanzas *)
ParseErrors == {"arg:drop", "type:known"}
RdParse ==
    /\ pc = "attack"
    /\ IF file.intro # <<>> /\ \E w \in F!Range(file.intro) : w \notin {"trail", "crlf"}
       THEN Finish("fail") /\ UNCHANGED <<cand>>
       ELSE IF \E s \in F!Range(file.st) : \E t \in F!Range(s.ed) : t \in ParseErrors
       THEN Finish("fail") /\ UNCHANGED <<cand>>
       ELSE pc' = "stanza" /\ UNCHANGED <<cand, result>>
    /\ UNCHANGED <<lens, pool, file, nedits, ids, si, fk, ci, released>>

(* decrypt_file_key: for every stanza, every key of its type, in any order *)
Unknown(s) == "type:unknown" \in F!Range(s.ed)
RdStanza ==
    /\ pc = "stanza"
    /\ IF si > Len(file.st) THEN Finish("noid") /\ UNCHANGED <<cand>>
       ELSE /\ cand' = IF Unknown(file.st[si]) THEN {}
                       ELSE {id \in ids : F!KindOf(id) = F!KindOf(file.st[si].to)}
            /\ pc' = "try" /\ UNCHANGED result
    /\ UNCHANGED <<lens, pool, file, nedits, ids, si, fk, ci, released>>

Opens(s, id) == s.to = id /\ F!Soft(s)
RdTry ==
    /\ pc = "try"
    /\ IF cand = {}
       THEN si' = si + 1 /\ pc' = "stanza" /\ UNCHANGED <<cand, fk, result>>
       ELSE \E id \in cand :
              IF Opens(file.st[si], id) \/ ("openAny" \in Weak /\ F!Soft(file.st[si]))
              THEN fk' = file.st[si].k /\ pc' = "mac" /\ UNCHANGED <<cand, si, result>>
              ELSE IF "stopAtMismatch" \in Weak
              THEN Finish("fail") /\ UNCHANGED <<cand, si, fk>>
              ELSE cand' = cand \ {id} /\ UNCHANGED <<fk, pc, si, result>>
    /\ UNCHANGED <<lens, pool, file, nedits, ids, ci, released>>

(* the MAC covers the header as received; weakenings: not checked at all,  *)
(* or computed over what was parsed instead of what was received           *)
Parsed(h) == <<h.st>>
Reserialised(st) == [k \in DOMAIN st |-> [st[k] EXCEPT !.ed = SelectSeq(@, LAMBDA t : t \notin F!SoftEdits)]]
MacOK ==
    \/ F!HeaderOK(file, fk)
    \/ "noMac" \in Weak
    \/ "macReserialised" \in Weak /\ file.mac.k = fk /\ file.mac.over # <<>> /\ Reserialised(file.st) = file.mac.over[3]
RdMac ==
    /\ pc = "mac"
    /\ IF MacOK THEN pc' = "payload" /\ UNCHANGED result ELSE Finish("fail")
    /\ UNCHANGED <<lens, pool, file, nedits, ids, si, cand, fk, ci, released>>

ChunkOK(p, k) ==
    /\ p.dmg = <<>>
    /\ p.k = fk \/ "noKey" \in Weak
    /\ p.n = file.nonce \/ "noNonce" \in Weak
    /\ p.ctr = k - 1 \/ "noCtr" \in Weak
    /\ p.last = (k = Len(file.pay)) \/ "noLast" \in Weak
RdChunk ==
    /\ pc = "payload"
    /\ IF Len(file.pay) = 0
       THEN Finish(IF "emptyOk" \in Weak THEN "ok" ELSE "fail") /\ UNCHANGED <<ci, released>>
       ELSE IF ~ChunkOK(file.pay[ci], ci)
       THEN Finish("fail") /\ UNCHANGED <<ci, released>>
       ELSE /\ released' = Append(released, <<file.pay[ci].src, file.pay[ci].ctr, file.pay[ci].len>>)
            /\ IF ci = Len(file.pay) THEN Finish("ok") /\ UNCHANGED ci
               ELSE ci' = ci + 1 /\ UNCHANGED <<pc, result>>
    /\ UNCHANGED <<lens, pool, file, nedits, ids, si, cand, fk>>

Next == Attack \/ RdParse \/ RdStanza \/ RdTry \/ RdMac \/ RdChunk
Spec == Init /\ [][Next]_vars /\ WF_vars(RdParse \/ RdStanza \/ RdTry \/ RdMac \/ RdChunk)

---------------------------------------------------------------------------
Produced == {pool[k] : k \in DOMAIN pool}
Done == pc = "done"

ResultAllowed == Done => result \in F!Allowed(file, ids, Produced)

(* C01: untouched file, matching identity: the whole plaintext *)
RoundTrip == Done /\ file = pool[1] /\ (\E s \in F!Range(file.st) : s.to \in ids)
                => /\ result = "ok"
                   /\ released = [k \in 1 .. F!ChunkCount(lens[1]) |-> <<1, k - 1, F!ChunkLen(lens[1], k)>>]
(* C02 *)
OnlyHolders == Done /\ (\A s \in F!Range(file.st) : s.to \notin ids) => result # "ok"
NoIdError == Done /\ file \in Produced /\ (\A s \in F!Range(file.st) : s.to \notin ids) => result = "noid"
(* C03 + C04: acceptance implies a file some key holder produced *)
Integrity == Done /\ result = "ok" =>
    \E g \in Produced : F!Content(file) = F!Content(g) /\ file.mac = g.mac /\ file.nonce = g.nonce /\ file.pay = g.pay
(* plaintext handed out is all of one file's *)
WholePlaintext == Done /\ result = "ok" =>
    \E k \in DOMAIN pool : released = [x \in 1 .. F!ChunkCount(lens[k]) |-> <<k, x - 1, F!ChunkLen(lens[k], x)>>]
Termination == <>Done
=============================================================================
