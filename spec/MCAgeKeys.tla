------------------------------ MODULE MCAgeKeys ------------------------------
(* Design checks of AgeKeys.                                                 *)
(* mode "text": a key string altered in a few characters never denotes a key *)
(* mode "file": the file reader against a declarative reading                *)
(* mode "code": the checksum's distance (a computation)                      *)
EXTENDS AgeKeys

CONSTANTS Mode, MaxLines, CodeLen, Alterations

VARIABLES text, left, orig, s, kinds
vars == <<text, left, orig, s, kinds>>

Key1 == [i \in 1 .. 32 |-> (i * 37) % 256]
Key2 == [i \in 1 .. 32 |-> 255 - i]
Texts == {KeyText(k, b) : k \in {"pub", "priv"}, b \in {Key1, Key2}}
(* made with a correct checksum by someone who knows the format *)
Crafted == {Encode(h, [i \in 1 .. n |-> i]) : h \in {"age", "age-secret-key-", "ag"}, n \in {0, 31, 33}} \cup
           {EncodeGroups("age", [To5(Key1) EXCEPT ![52] = (@ & 16) + v]) : v \in 1 .. 15}
Letters == {"q", "p", "l", "7", "Q", "1", "b", "-", " "}
Put(t, i, c) == SubSeq(t, 1, i - 1) \o c \o SubSeq(t, i + 1, Len(t))

K(v, b) == [v |-> v, bytes |-> b]
Kinds == {K("skip", <<>>), K("none", <<>>), K("key", <<1>>), K("key", <<2>>), K("either", <<3>>), K("mayskip", <<>>)}

Init ==
    \/ /\ Mode = "text" /\ text \in Texts \cup Crafted /\ left = Alterations /\ orig = text
       /\ s = FileStart /\ kinds = <<>>
    \/ /\ Mode = "file" /\ text = "" /\ left = 0 /\ orig = "" /\ s = FileStart
       /\ kinds \in UNION {[1 .. n -> Kinds] : n \in 0 .. MaxLines}
    \/ /\ Mode = "code" /\ text = "" /\ left = 0 /\ orig = "" /\ s = FileStart /\ kinds = <<>>
Alter == /\ Mode = "text" /\ left > 0 /\ orig \in Texts
         /\ \E i \in 1 .. Len(text), c \in Letters : text' = Put(text, i, c)
         /\ left' = left - 1 /\ UNCHANGED <<orig, s, kinds>>
Read == Mode = "file" /\ s.i <= Len(kinds) /\ s' = FileStep(s, kinds) /\ UNCHANGED <<text, left, orig, kinds>>
Next == Alter \/ Read
Spec == Init /\ [][Next]_vars

(* K01 *)
Others == [pub |-> "priv", priv |-> "pub"]
NeverOther == Mode = "text" =>
    \A kind \in {"pub", "priv"} :
        LET r == ReadKey(kind, text) IN
        IF ToLower(text) = ToLower(orig) /\ orig \in Texts
        THEN r.v = "none" \/ KeyText(kind, r.bytes) = orig
        ELSE r.v = "none"
RoundTrip == (Mode = "text" /\ text \in Texts) =>
    \E kind \in {"pub", "priv"} : ReadKey(kind, text).v = "key" /\ ReadKey(kind, ToUpper(text)).v = "key"
                                  /\ ReadKey(kind, ToLower(text)).v = "key"
(* any two characters' errors give different remainders: no alteration of  *)
(* at most twice as many characters goes unnoticed                         *)
Syndrome(pos, e) == FoldLeft(Shift, e, [i \in 1 .. pos |-> 0])
One(z) == {Syndrome(pos, e) : pos \in 0 .. CodeLen - 1, e \in 1 .. 31}
Pow(z) == [pos \in 0 .. CodeLen - 1 |-> [e \in 1 .. 31 |-> Syndrome(pos, e)]]
Pairs(P) == UNION {{XorOf(P[p][e], P[q][f]) : e \in 1 .. 31, f \in 1 .. 31}
                 : <<p, q>> \in {<<a, b>> \in (0 .. CodeLen - 1) \X (0 .. CodeLen - 1) : a < b}}
Distance == Mode = "code" =>
    /\ Cardinality(One(0)) = 31 * CodeLen
    /\ LET all == Pairs(Pow(0)) \cup One(0) \cup {0} IN
       Cardinality(all) = 961 * ((CodeLen * (CodeLen - 1)) \div 2) + 31 * CodeLen + 1
(* K02 *)
KeysOf(ks) == [i \in 1 .. Len(SelectSeq(ks, LAMBDA x : x.v \in {"key", "either"})) |->
                 SelectSeq(ks, LAMBDA x : x.v \in {"key", "either"})[i].bytes]
FileOK == (Mode = "file" /\ s.i > Len(kinds)) =>
    IF \E i \in DOMAIN kinds : kinds[i].v = "none" THEN s.err
    ELSE ~s.err /\ s.keys = KeysOf(kinds) /\ (s.loose = \E i \in DOMAIN kinds : kinds[i].v \in {"either", "mayskip"})
=============================================================================
