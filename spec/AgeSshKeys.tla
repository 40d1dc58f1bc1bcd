------------------------------ MODULE AgeSshKeys ------------------------------
(***************************************************************************)
(* OpenSSH private key containers (K03), byte by byte.                     *)
(*                                                                         *)
(* Load(b, given, D(_), Good(_, _)) is the judgement about a container:    *)
(* "key" (the loader must yield exactly the fields), "refuse", or "loose"  *)
(* (either, but never other fields).  D(o) is what the cipher named in the *)
(* container makes of the private part under the given passphrase; it and  *)
(* Good (the numbers of the key fit together) are the ideal functions of   *)
(* the model.                                                              *)
(***************************************************************************)
EXTENDS SshWire, FiniteSets, SequencesExt

CONSTANTS Magic,       \* byte sequences: constants of the format
          RsaName, EdName, DsaName, EcPrefix, EcMiddle, Curves, KnownCurves,
          NoneName, BcryptName, Ciphers,
          EdLen        \* bytes of an Ed25519 seed and of a public key

---------------------------------------------------------------------------
(* The unencrypted outer part *)
Refuse(why) == [v |-> "refuse", why |-> why, type |-> "", fields |-> <<>>]

Outer(b) ==
    LET head == StrsAt(b, Len(Magic) + 1, 3) IN
    IF ~w("noMagic") /\ ~IsPrefixOf(Magic, b) THEN [ok |-> FALSE, why |-> "magic"]
    ELSE IF ~head.ok THEN [ok |-> FALSE, why |-> "cut"]
    ELSE IF head.p + 3 > Len(b) THEN [ok |-> FALSE, why |-> "cut"]
    ELSE IF ~w("noCount") /\ U32(b, head.p) # 1 THEN [ok |-> FALSE, why |-> "count"]
    ELSE LET pub == StrAt(b, head.p + 4) IN
    IF ~pub.ok \/ pub.p + 3 > Len(b) THEN [ok |-> FALSE, why |-> "cut"]
    ELSE LET n == U32(b, pub.p)
             rest == Len(b) - (pub.p + 3)
         IN IF n > rest THEN [ok |-> FALSE, why |-> "cut"]
            ELSE IF n < rest /\ ~w("noLength") THEN [ok |-> FALSE, why |-> "trailing"]
            ELSE [ok |-> TRUE, why |-> "", cipher |-> head.v[1], kdf |-> head.v[2], opts |-> head.v[3],
                  pub |-> pub.v, enc |-> Bytes(b, pub.p + 4, n)]

(* can the private part be decrypted at all *)
Locked(o) == o.cipher # NoneName
Openable(o, given) ==
    IF ~Locked(o) THEN ""
    ELSE IF given = <<>> THEN "passphrase"
    ELSE IF o.kdf # BcryptName THEN "kdf"
    ELSE IF o.cipher \notin Ciphers THEN "cipher"
    ELSE LET salt == StrAt(o.opts, 1) IN
         IF ~salt.ok \/ salt.p + 3 > Len(o.opts) THEN "kdfoptions" ELSE ""

---------------------------------------------------------------------------
(* The private part *)
Bignums(b, p, n) ==
    LET s == StrsAt(b, p, n) IN
    IF ~s.ok \/ \E i \in DOMAIN s.v : Negative(s.v[i]) THEN [ok |-> FALSE]
    ELSE [ok |-> TRUE, p |-> s.p, v |-> [i \in DOMAIN s.v |-> Strip(s.v[i])],
          loose |-> \E i \in DOMAIN s.v : Padded0(s.v[i])]
Body(type, b, p) ==
    CASE type = RsaName -> Bignums(b, p, 6)
      [] type = DsaName -> Bignums(b, p, 5)
      [] type = EdName ->
           LET s == StrsAt(b, p, 2) IN
           IF ~s.ok THEN [ok |-> FALSE]
           ELSE IF Len(s.v[1]) # EdLen \/ Len(s.v[2]) # 2 * EdLen THEN [ok |-> FALSE]
           ELSE IF ~w("noPubMatch") /\ SubSeq(s.v[2], EdLen + 1, 2 * EdLen) # s.v[1] THEN [ok |-> FALSE]
           ELSE [ok |-> TRUE, p |-> s.p, v |-> <<s.v[1], SubSeq(s.v[2], 1, EdLen)>>, loose |-> FALSE]
      [] IsPrefixOf(EcPrefix, type) ->
           LET s == StrsAt(b, p, 3) IN
           IF ~s.ok THEN [ok |-> FALSE]
           ELSE IF s.v[1] \notin KnownCurves \/ Negative(s.v[3]) THEN [ok |-> FALSE]
           ELSE [ok |-> TRUE, p |-> s.p, v |-> <<s.v[1], s.v[2], Strip(s.v[3])>>,
                 \* the type names the curve, too; a compressed point is another way to write it
                 loose |-> s.v[1] \notin Curves \/ Padded0(s.v[3]) \/ type # EcPrefix \o EcMiddle \o s.v[1]
                           \/ IF s.v[2] = <<>> THEN TRUE ELSE s.v[2][1] # 4]
      [] OTHER -> [ok |-> FALSE]

Block(o) == IF Locked(o) THEN 16 ELSE 8
Load(b, given, D(_), Good(_, _)) ==
    LET o == Outer(b) IN
    IF ~o.ok THEN Refuse(o.why)
    ELSE LET why == Openable(o, given) IN
    IF why # "" THEN Refuse(why)
    ELSE LET d == IF Locked(o) THEN D(o) ELSE o.enc IN
    IF Len(d) < 8 THEN Refuse("cut")
    ELSE IF ~w("noCheck") /\ Bytes(d, 1, 4) # Bytes(d, 5, 4) THEN Refuse("check")
    ELSE LET t == StrAt(d, 9) IN
    IF ~t.ok THEN Refuse("cut")
    ELSE LET body == Body(t.v, d, t.p) IN
    IF ~body.ok THEN Refuse("body")
    ELSE LET comment == StrAt(d, body.p) IN
    IF ~comment.ok THEN Refuse("cut")
    ELSE LET pad == SubSeq(d, comment.p, Len(d)) IN
    IF ~w("noPadding") /\ \E i \in 1 .. Len(pad) : pad[i] # i % 256 THEN Refuse("padding")
    ELSE IF ~w("noGood") /\ ~Good(t.v, body.v) THEN Refuse("numbers")
    ELSE [v |-> IF body.loose
                   \/ Len(d) % Block(o) # 0 \/ Len(pad) >= Block(o)       \* not the padding a writer makes
                   \/ (~Locked(o) /\ (o.kdf # NoneName \/ o.opts # <<>> \/ given # <<>>))
                THEN "loose" ELSE "key",
          why |-> "", type |-> t.v, fields |-> body.v]

---------------------------------------------------------------------------
(* Writing a container from its fields *)
CheckBytes == <<1, 2, 3, 4>>
Pad(n, block) == [i \in 1 .. (block - (n % block)) % block |-> i % 256]
Inner(type, strings, comment, block) ==
    LET raw == CheckBytes \o CheckBytes \o PutString(type)
               \o FoldLeft(LAMBDA a, s : a \o PutString(s), <<>>, strings) \o PutString(comment)
    IN raw \o Pad(Len(raw), block)
Container(cipher, kdf, opts, pub, enc) ==
    Magic \o PutString(cipher) \o PutString(kdf) \o PutString(opts) \o PutU32(1) \o PutString(pub) \o PutString(enc)
=============================================================================
