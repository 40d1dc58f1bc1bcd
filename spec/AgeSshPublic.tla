---------------------------- MODULE AgeSshPublic ----------------------------
(***************************************************************************)
(* SSH public keys (K05): lines of text, what key they hold, how a key is  *)
(* encoded, identified and compared.                                       *)
(*                                                                         *)
(* A line is a sequence of byte codes: type, blanks, Base64, anything.     *)
(* Read(b, want) is the judgement about a line: "key" (the loader yields   *)
(* exactly these fields), "refuse" or "loose": the Base64 or the numbers   *)
(* are not what a writer makes; the loader may refuse, and otherwise       *)
(* yields one of the readings in may.                                      *)
(***************************************************************************)
EXTENDS SshWire, FiniteSets, SequencesExt

CONSTANTS RsaName, EdName, EdLen

Alphabet == [i \in 0 .. 63 |-> IF i < 26 THEN 65 + i ELSE IF i < 52 THEN 71 + i ELSE IF i < 62 THEN i - 4 ELSE IF i = 62 THEN 43 ELSE 47]
Sextet == [c \in {Alphabet[i] : i \in 0 .. 63} |-> CHOOSE i \in 0 .. 63 : Alphabet[i] = c]
Eq == 61
Blank == {32, 9}
White == Blank \cup 10 .. 13

(* Base64 *)
B64(s) ==
    LET n == Len(s)
        At(i) == IF i > n THEN 0 ELSE s[i]
        Char(k) ==       \* k-th character, from 0
            LET g == 3 * (k \div 4)
                v == At(g + 1) * 65536 + At(g + 2) * 256 + At(g + 3)
            IN  IF 8 * n <= 6 * k THEN Eq ELSE Alphabet[(v \div (64 ^ (3 - (k % 4)))) % 64]
    IN  [i \in 1 .. 4 * ((n + 2) \div 3) |-> Char(i - 1)]
NoPad(s) == SelectSeq(s, LAMBDA c : c # Eq)
UnB64(t) ==          \* of characters of the alphabet only; bits left over are dropped
    LET m == Len(t)
        At(i) == IF i > m THEN 0 ELSE Sextet[t[i]]
        Octet(k) ==
            LET g == 4 * (k \div 3)
                v == At(g + 1) * 262144 + At(g + 2) * 4096 + At(g + 3) * 64 + At(g + 4)
            IN  (v \div (256 ^ (2 - (k % 3)))) % 256
    IN  [i \in 1 .. (6 * m) \div 8 |-> Octet(i - 1)]
Good64(t) == \A i \in DOMAIN t : t[i] \in DOMAIN Sextet
StrictB64(t) ==
    IF Good64(NoPad(t)) /\ (w("lenientB64") \/ B64(UnB64(NoPad(t))) = t) THEN [ok |-> TRUE, v |-> UnB64(NoPad(t))] ELSE [ok |-> FALSE, v |-> <<>>]
(* what may be made of other text: characters that do not belong there are *)
(* passed over, and some "=" ends it                                       *)
Lenient(t) ==
    LET ends == {i - 1 : i \in {j \in DOMAIN t : t[j] = Eq}} \cup {Len(t)}
    IN  {UnB64(SelectSeq(SubSeq(t, 1, i), LAMBDA c : c \in DOMAIN Sextet)) : i \in ends}

---------------------------------------------------------------------------
(* The blob *)
RECURSIVE BelowAt(_, _, _)
BelowAt(a, b, i) == IF i > Len(a) THEN FALSE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE BelowAt(a, b, i + 1)
Below(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ BelowAt(a, b, 1))
Refuse == [v |-> "refuse", fields |-> <<>>]
Parse(b, type) ==
    LET t == StrAt(b, 1) IN
    IF ~t.ok \/ (t.v # type /\ ~w("noType")) THEN Refuse
    ELSE IF type = RsaName THEN
        LET s == StrsAt(b, t.p, 2) IN
        IF ~s.ok THEN Refuse
        ELSE IF s.p # Len(b) + 1 /\ ~w("noTrailing") THEN Refuse
        ELSE IF \E i \in 1 .. 2 : Negative(s.v[i]) THEN Refuse
        ELSE LET e == Strip(s.v[1])
                 n == Strip(s.v[2])
             IN  IF e = <<>> \/ n = <<>> THEN Refuse
                 ELSE IF ~Below(<<2>>, e) \/ ~Below(e, n) THEN Refuse
                 ELSE [v |-> IF (\E i \in 1 .. 2 : Padded0(s.v[i]) /\ ~w("padOk")) \/ e[Len(e)] % 2 = 0 \/ n[Len(n)] % 2 = 0 THEN "loose" ELSE "key",
                       fields |-> <<e, n>>]
    ELSE LET s == StrAt(b, t.p) IN
         IF ~s.ok THEN Refuse
         ELSE IF s.p # Len(b) + 1 /\ ~w("noTrailing") THEN Refuse
         ELSE IF Len(s.v) # EdLen /\ ~w("noSize") THEN Refuse
         ELSE [v |-> "key", fields |-> <<s.v>>]
Mpint(x) == PutString(IF x[1] >= 128 THEN <<0>> \o x ELSE x)
Blob(type, fields) == PutString(type) \o (IF type = RsaName THEN Mpint(fields[1]) \o Mpint(fields[2]) ELSE PutString(fields[1]))
(* every number is written in one way only *)

---------------------------------------------------------------------------
(* The line *)
FirstIn(b, S, from) == LET h == {i \in from .. Len(b) : b[i] \in S} IN IF h = {} THEN Len(b) + 1 ELSE CHOOSE i \in h : \A j \in h : i <= j
FirstOut(b, S, from) == LET h == {i \in from .. Len(b) : b[i] \notin S} IN IF h = {} THEN Len(b) + 1 ELSE CHOOSE i \in h : \A j \in h : i <= j
Words(b) ==
    LET p == FirstOut(b, Blank, 1)
        q == FirstIn(b, White, p)
        r == FirstOut(b, Blank, q)
        z == FirstIn(b, White, r)
    IN  [lead |-> p > 1, type |-> SubSeq(b, p, q - 1), text |-> SubSeq(b, r, z - 1), ok |-> q <= Len(b) /\ r <= Len(b) /\ r < z]
Read(b, want) ==
    LET l == Words(b) IN
    IF ~l.ok \/ (l.type # want /\ ~w("noLineType")) THEN [v |-> "refuse", may |-> {}]
    ELSE LET s == StrictB64(l.text)
             p == Parse(s.v, want)
             all == {x \in {Parse(d, want) : d \in Lenient(l.text)} : x.v # "refuse"}
         IN  IF ~s.ok THEN [v |-> IF all = {} THEN "refuse" ELSE "loose", may |-> {x.fields : x \in all}]
             ELSE IF p.v = "refuse" THEN [v |-> "refuse", may |-> {}]
             ELSE [v |-> IF l.lead THEN "loose" ELSE p.v, may |-> {p.fields}]
(* the other way round *)
Line(type, fields) == type \o <<32>> \o B64(Blob(type, fields))

---------------------------------------------------------------------------
(* Fingerprints.  A digest is a sequence of bytes, an ideal function of the blob. *)
Hex(n) == IF n < 10 THEN 48 + n ELSE 87 + n
Md5Text(d) == <<77, 68, 53>> \o FoldLeft(LAMBDA a, x : a \o <<58, Hex(x \div 16), Hex(x % 16)>>, <<>>, d)
ShaText(d) == <<83, 72, 65, 50, 53, 54, 58>> \o NoPad(B64(d))
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Digits(n \div 10) \o <<48 + (n % 10)>>
RECURSIVE BitLen(_)
BitLen(n) == IF n = 0 THEN 0 ELSE 1 + BitLen(n \div 2)
Bits(type, fields) == IF type = RsaName THEN 8 * (Len(fields[2]) - 1) + BitLen(fields[2][1]) ELSE 256
NameText(type) == IF type = RsaName THEN <<40, 82, 83, 65, 41>> ELSE <<40, 69, 68, 50, 53, 53, 49, 57, 41>>
FingerprintLine(type, fields, text, comment) == Digits(Bits(type, fields)) \o <<32>> \o text \o <<32>> \o comment \o <<32>> \o NameText(type)

(* two keys are one *)
Same(t1, f1, t2, f2) ==
    IF w("modulusOnly") /\ t1 = RsaName /\ t2 = RsaName THEN f1[2] = f2[2]
    ELSE IF w("anyType") THEN f1[Len(f1)] = f2[Len(f2)]
    ELSE t1 = t2 /\ f1 = f2
=============================================================================
