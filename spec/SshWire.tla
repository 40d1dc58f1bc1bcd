------------------------------- MODULE SshWire -------------------------------
(* The strings and numbers of RFC 4251 as sequences of bytes. *)
EXTENDS Naturals, Sequences
CONSTANT Weak           \* checks left out (weakened models)

w(x) == x \in Weak

Big == 16777216
U32(b, i) == IF b[i] > 0 THEN Big ELSE b[i + 1] * 65536 + b[i + 2] * 256 + b[i + 3]
PutU32(n) == <<0, n \div 65536, (n \div 256) % 256, n % 256>>
Bytes(b, i, n) == SubSeq(b, i, i + n - 1)
PutString(s) == PutU32(Len(s)) \o s
IsPrefixOf(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p

(* reading position p (next byte, 1-based); ok = everything so far was there *)
NoStr == [ok |-> FALSE, v |-> <<>>, p |-> 0]
StrAt(b, p) ==
    IF p + 3 > Len(b) THEN NoStr
    ELSE LET n == U32(b, p) IN
         IF n > Len(b) - (p + 3) THEN
             IF w("shortRead") THEN [ok |-> TRUE, v |-> SubSeq(b, p + 4, Len(b)), p |-> Len(b) + 1] ELSE NoStr
         ELSE [ok |-> TRUE, v |-> Bytes(b, p + 4, n), p |-> p + 4 + n]
RECURSIVE StrsAt(_, _, _)
StrsAt(b, p, n) ==   \* n strings in a row
    IF n = 0 THEN [ok |-> TRUE, v |-> <<>>, p |-> p]
    ELSE LET s == StrAt(b, p) IN
         IF ~s.ok THEN NoStr
         ELSE LET r == StrsAt(b, s.p, n - 1) IN
              IF ~r.ok THEN NoStr ELSE [ok |-> TRUE, v |-> <<s.v>> \o r.v, p |-> r.p]

RECURSIVE Strip(_)
Strip(s) == IF s # <<>> /\ s[1] = 0 THEN Strip(Tail(s)) ELSE s
Negative(s) == s = <<>> \/ s[1] >= 128     \* empty: zero, which no number of a key is
Padded0(s) == Len(s) > 1 /\ s[1] = 0 /\ s[2] < 128
=============================================================================
