------------------------------ MODULE AgeFile ------------------------------
(***************************************************************************)
(* Symbolic age files: what a writer produces, what an attacker without    *)
(* keys can turn it into, and which reactions of a reader the properties   *)
(* C01..C04 allow.                                                         *)
(*                                                                         *)
(* Cryptography is ideal (Dolev-Yao): a wrapped file key opens only for    *)
(* its recipient, a MAC equals another only if key and text are equal, a   *)
(* sealed chunk opens only under the file key, nonce, counter and flag it  *)
(* was sealed with.  Everything else (structure, order, boundaries) is     *)
(* explicit.                                                               *)
(*                                                                         *)
(* A file key is named by the index of the file it was drawn for; file     *)
(* indices are positive, 0 stands for "nobody's".                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANT ChunkSize      \* 65536; small in the design model
TagSize == 16

---------------------------------------------------------------------------
(* Identities are named <kind letter><number>: x1 r2 e1 p3                 *)
KindOf(id) == SubSeq(id, 1, 1)
(* u1 u2 ... are stanzas of a type this reader does not know; nobody here holds their keys. *)
TypeName == [x |-> "X25519", r |-> "ssh-rsa", e |-> "ssh-ed25519", p |-> "scrypt", u |-> "unknown"]
TypeOf(id) == TypeName[KindOf(id)]

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
RemoveAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
InsertAt(s, i, e) == SubSeq(s, 1, i - 1) \o <<e>> \o SubSeq(s, i, Len(s))
ReplaceAt(s, i, e) == [s EXCEPT ![i] = e]
SwapAt(s, i, j) == [s EXCEPT ![i] = s[j], ![j] = s[i]]
Range(s) == {s[i] : i \in DOMAIN s}

---------------------------------------------------------------------------
(* The writer                                                              *)

(* An empty plaintext still has one chunk. *)
ChunkCount(len) == Max(1, (len + ChunkSize - 1) \div ChunkSize)
ChunkLen(len, i) == IF i < ChunkCount(len) THEN ChunkSize
                    ELSE len - ChunkSize * (ChunkCount(len) - 1)

Seal(k, n, ctr, last, src, len) ==
    [k |-> k, n |-> n, ctr |-> ctr, last |-> last, src |-> src, len |-> len, dmg |-> <<>>]

SealAll(k, n, len) ==
    [i \in 1 .. ChunkCount(len) |->
        Seal(k, n, i - 1, i = ChunkCount(len), k, ChunkLen(len, i))]

Foreign(i, w) == [to |-> "u0", k |-> 0, uid |-> <<0, i>>, ed |-> <<w>>]     \* a made-up stanza
Wrap(id, k, i) == [to |-> id, k |-> k, uid |-> <<k, i>>, ed |-> <<>>]

Content(f) == <<f.intro, f.pre, f.st>>
Mac(k, f) == [k |-> k, over |-> Content(f)]
NoMac == [k |-> 0, over |-> <<>>]

(* File number k for the recipients rcpts, with a plaintext of len bytes. *)
Produce(k, rcpts, len) ==
    LET h == [intro |-> <<>>, pre |-> <<>>,
              st |-> [i \in 1 .. Len(rcpts) |-> Wrap(rcpts[i], k, i)]]
    IN  [intro |-> h.intro, pre |-> h.pre, st |-> h.st,
         mac |-> [k |-> k, over |-> <<h.intro, h.pre, h.st>>],
         macenc |-> <<>>,           \* re-encodings of the MAC text (same MAC)
         nonce |-> [f |-> k, dmg |-> <<>>],
         pay |-> SealAll(k, [f |-> k, dmg |-> <<>>], len)]

---------------------------------------------------------------------------
(* The attacker.  e = [op, i, j, g, w]; pool = produced files by index;    *)
(* an edit whose indices do not exist leaves the file as it is.            *)

(* Edits of a stanza that keep what a lenient parser reads from it. *)
SoftEdits == {"fmt:trail", "fmt:dbl", "fmt:tab", "fmt:lead", "fmt:rewrap", "fmt:crlf",
              "fmt:blank", "arg:pad", "arg:add", "body:pad", "body:noise", "arg:bits", "body:bits"}

Tag(e) == CASE e.op = "H.type" -> "type:" \o e.w
            [] e.op = "H.arg"  -> "arg:" \o e.w
            [] e.op = "H.body" -> "body:" \o e.w
            [] e.op = "H.fmt"  -> "fmt:" \o e.w

Edit(f, e, pool) ==
    LET n == Len(f.st)
        m == Len(f.pay)
        In(i) == i \in 1 .. n
        InP(i) == i \in 1 .. m
        HasG == e.g \in DOMAIN pool
        Other == pool[e.g]
    IN
    CASE e.op = "H.drop" -> IF In(e.i) THEN [f EXCEPT !.st = RemoveAt(@, e.i)] ELSE f
      [] e.op = "H.dup" -> IF In(e.i) THEN [f EXCEPT !.st = InsertAt(@, e.i, @[e.i])] ELSE f
      [] e.op = "H.swap" -> IF In(e.i) /\ In(e.j) THEN [f EXCEPT !.st = SwapAt(@, e.i, e.j)] ELSE f
      [] e.op = "H.ins" -> IF HasG /\ e.i \in DOMAIN Other.st /\ e.j \in 1 .. n + 1
                           THEN [f EXCEPT !.st = InsertAt(@, e.j, Other.st[e.i])] ELSE f
      [] e.op = "H.repl" -> IF HasG /\ e.i \in DOMAIN Other.st /\ In(e.j)
                            THEN [f EXCEPT !.st = ReplaceAt(@, e.j, Other.st[e.i])] ELSE f
      [] e.op = "H.new" -> IF e.i \in 1 .. n + 1 THEN [f EXCEPT !.st = InsertAt(@, e.i, Foreign(e.j, e.w))] ELSE f
      [] e.op \in {"H.type", "H.arg", "H.body", "H.fmt"} ->
            IF In(e.i) THEN [f EXCEPT !.st[e.i].ed = Append(@, Tag(e))] ELSE f
      [] e.op = "H.merge" -> IF In(e.i) /\ In(e.i + 1)
                             THEN [f EXCEPT !.st = RemoveAt([@ EXCEPT ![e.i].ed = Append(@, "merge")], e.i + 1)]
                             ELSE f
      [] e.op = "H.pre" -> [f EXCEPT !.pre = Append(@, e.w)]
      [] e.op = "H.intro" -> [f EXCEPT !.intro = Append(@, e.w)]
      [] e.op \in {"H.rawflip", "H.rawdel", "H.rawins"} ->       \* some byte of the header text
            [f EXCEPT !.pre = Append(@, "raw")]
      [] e.op = "H.rawcut" ->                                    \* file ends within the header
            [f EXCEPT !.pre = Append(@, "raw"), !.nonce.dmg = Append(@, "cut"), !.pay = <<>>]
      [] e.op = "M.rawflip" ->              \* the last of the 43 characters has two unused bits
            IF e.i < 42 THEN [f EXCEPT !.mac = NoMac] ELSE [f EXCEPT !.macenc = Append(@, "bits")]
      [] e.op = "M.mac" -> [f EXCEPT !.mac = NoMac]
      [] e.op = "M.other" -> IF HasG THEN [f EXCEPT !.mac = Other.mac] ELSE f
      [] e.op = "M.enc" -> [f EXCEPT !.macenc = Append(@, e.w)]
      [] e.op = "M.remac" -> IF HasG THEN [f EXCEPT !.mac = Mac(e.g, f)] ELSE f
      [] e.op = "N.flip" -> [f EXCEPT !.nonce.dmg = Append(@, "flip")]
      [] e.op = "N.ins" -> [f EXCEPT !.nonce.dmg = Append(@, "ins")]      \* a byte put before the nonce
      [] e.op = "N.cut" -> [f EXCEPT !.nonce.dmg = Append(@, "cut"), !.pay = <<>>]
      [] e.op = "N.other" -> IF HasG THEN [f EXCEPT !.nonce = Other.nonce] ELSE f
      [] e.op = "P.drop" -> IF InP(e.i) THEN [f EXCEPT !.pay = RemoveAt(@, e.i)] ELSE f
      [] e.op = "P.dup" -> IF InP(e.i) THEN [f EXCEPT !.pay = InsertAt(@, e.i, @[e.i])] ELSE f
      [] e.op = "P.swap" -> IF InP(e.i) /\ InP(e.j) THEN [f EXCEPT !.pay = SwapAt(@, e.i, e.j)] ELSE f
      [] e.op = "P.ins" -> IF HasG /\ e.i \in DOMAIN Other.pay /\ e.j \in 1 .. m + 1
                           THEN [f EXCEPT !.pay = InsertAt(@, e.j, Other.pay[e.i])] ELSE f
      [] e.op = "P.repl" -> IF HasG /\ e.i \in DOMAIN Other.pay /\ InP(e.j)
                            THEN [f EXCEPT !.pay = ReplaceAt(@, e.j, Other.pay[e.i])] ELSE f
      [] e.op = "P.all" -> IF HasG THEN [f EXCEPT !.pay = Other.pay] ELSE f
      [] e.op = "P.edit" -> IF InP(e.i) THEN [f EXCEPT !.pay[e.i].dmg = Append(@, e.w)] ELSE f
      [] e.op = "P.app" -> IF m > 0 THEN [f EXCEPT !.pay[m].dmg = Append(@, "app")]
                           ELSE [f EXCEPT !.pay = <<[Seal(0, f.nonce, 0, TRUE, 0, 0) EXCEPT !.dmg = <<"app">>]>>]
      [] e.op = "P.none" -> [f EXCEPT !.pay = <<>>]
      [] e.op = "P.trunc" ->             \* keep i chunks and j bytes of the next one
            IF e.i \in 0 .. m - 1
            THEN [f EXCEPT !.pay = SubSeq(@, 1, e.i) \o
                     IF e.j = 0 THEN <<>>
                     ELSE IF e.j >= @[e.i + 1].len + TagSize THEN <<@[e.i + 1]>>   \* all of it
                     ELSE <<[@[e.i + 1] EXCEPT !.dmg = Append(@, "cut")]>>]
            ELSE f

RECURSIVE EditAll(_, _, _)
EditAll(f, es, pool) == IF es = <<>> THEN f ELSE EditAll(Edit(f, Head(es), pool), Tail(es), pool)

---------------------------------------------------------------------------
(* What a reader may do                                                    *)

Untouched(s) == s.ed = <<>>
Soft(s) == Range(s.ed) \subseteq SoftEdits

(* keys the identities certainly / possibly obtain from the stanzas *)
Keys(f, ids) == {s.k : s \in {t \in Range(f.st) : Untouched(t) /\ t.to \in ids}}
MaybeKeys(f, ids) == {s.k : s \in {t \in Range(f.st) : Soft(t) /\ t.to \in ids}}

HeaderOK(f, k) == f.mac = Mac(k, f)
PayloadOK(f, k) ==
    /\ f.pay # <<>>
    /\ \A i \in 1 .. Len(f.pay) :
          LET p == f.pay[i] IN
          /\ p.dmg = <<>> /\ p.k = k /\ p.n = f.nonce
          /\ p.ctr = i - 1 /\ p.last = (i = Len(f.pay))
Good(f, k) == HeaderOK(f, k) /\ PayloadOK(f, k)

PlainEdits(f) == f.intro # <<>> \/ f.pre # <<>> \/ f.macenc # <<>> \/ \E s \in Range(f.st) : ~Untouched(s)

(* Reactions: "ok" (plaintext handed out), "noid" (no-identity error),     *)
(* "fail" (any other error).                                               *)
Allowed(f, ids, produced) ==
    LET ks == Keys(f, ids)
        mks == MaybeKeys(f, ids)
    IN
    IF \E k \in mks : Good(f, k)
    THEN IF ~PlainEdits(f) /\ Cardinality(mks) = 1 THEN {"ok"} ELSE {"ok", "noid", "fail"}
    ELSE IF ks = {} /\ mks = {} /\ f \in produced THEN {"noid"}
    ELSE {"noid", "fail"}

(* The file number whose whole plaintext is handed out with "ok". *)
Source(f, ids) == {k \in MaybeKeys(f, ids) : Good(f, k)}

(* Clause broken by reaction r with n bytes identified as a prefix of the  *)
(* plaintext of file src (0: of none); "" when none is.                    *)
Judge(f, ids, produced, lens, r, src, n) ==
    LET al == Allowed(f, ids, produced) IN
    IF r \notin al
    THEN CASE r \notin {"ok", "noid", "fail"} -> "abnormal_" \o r
           [] r = "ok" /\ MaybeKeys(f, ids) = {} -> "opened_without_identity"
           [] r = "ok" /\ \A k \in MaybeKeys(f, ids) : ~HeaderOK(f, k) -> "forged_header_accepted"
           [] r = "ok" -> "altered_payload_accepted"
           [] al = {"ok"} -> "recipient_locked_out"
           [] OTHER -> "wrong_error_for_missing_identity"
    ELSE IF r = "ok" /\ ~\E k \in Source(f, ids) : n = lens[k] /\ (n = 0 \/ src = k)
    THEN "wrong_plaintext"
    ELSE ""
=============================================================================
