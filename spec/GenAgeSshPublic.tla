--------------------------- MODULE GenAgeSshPublic ---------------------------
(* Scenarios for K05. *)
EXTENDS AgeSshPublic, SshNames, TLC, Json, IOUtils
VARIABLE z0
Thorough == IOEnv.TIER = "thorough"
N(quick, thorough) == IF Thorough THEN thorough ELSE quick
Pick(S) == RandomElement(S)
RandBytes(n) == [i \in 1 .. n |-> RandomElement(0 .. 255)]
Names == {NRsa, NEd}

(* numbers *)
Odd(s) == [s EXCEPT ![Len(s)] = IF @ % 2 = 0 THEN @ + 1 ELSE @]
First(s) == [s EXCEPT ![1] = IF @ = 0 THEN Pick(1 .. 255) ELSE @]
Modulus(n) == Odd(First(RandBytes(n)))
Exponent(z) == Pick({<<3>>, <<17>>, <<35>>, <<129>>, <<1, 0, 1>>, <<1, 0, 1>>, <<128, 1>>, <<1, 0, 0, 0, 1>>, Odd(First(RandBytes(4))), Odd(First(RandBytes(7)))})
Rsa(n) == <<Exponent(0), Modulus(n)>>
Ff(n) == [i \in 1 .. n |-> 255]
Zero(n) == [i \in 1 .. n |-> 0]
Points == {Zero(32), Ff(32), [Zero(32) EXCEPT ![1] = 1], [Ff(32) EXCEPT ![1] = 237, ![32] = 127], [Ff(32) EXCEPT ![1] = 236, ![32] = 127],
           [Zero(32) EXCEPT ![32] = 128], [Zero(32) EXCEPT ![1] = 2], [i \in 1 .. 32 |-> IF i = 1 THEN 88 ELSE 102]}
Ed(z) == <<RandBytes(32)>>
Small(t) == IF t = NRsa THEN Rsa(Pick({9, 16, 20, 32})) ELSE Ed(0)
Usual(t) == IF t = NRsa THEN Rsa(Pick({64, 65, 96, 128})) ELSE Ed(0)

Comment(z) == Pick({<<>>, <<32>>, <<32, 109, 101>>, <<9, 97, 32, 98, 32, 32, 99>>, <<10>>, <<13, 10>>, <<32, 195, 164>>, <<32, 35, 61, 42>>})
Gap(z) == Pick({<<32>>, <<32>>, <<32>>, <<9>>, <<32, 32>>, <<32, 9, 32>>})
Hows == {"direct", "direct", "resolve", "file"}
L(want, line) == [k |-> "line", want |-> IF want = NRsa THEN "rsa" ELSE "ed", how |-> Pick(Hows), line |-> line, comment |-> Pick({"age", "me@host", "", "a b"})]
Text(t, f) == t \o Gap(0) \o B64(Blob(t, f)) \o Comment(0)

(* edits *)
EditAt(s, i, how, x) ==
    IF i > Len(s) THEN s ELSE
    CASE how = "set" -> [s EXCEPT ![i] = x] [] how = "cut" -> SubSeq(s, 1, i - 1) [] how = "del" -> SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
      [] how = "ins" -> SubSeq(s, 1, i) \o <<x>> \o SubSeq(s, i + 1, Len(s)) [] how = "inc" -> [s EXCEPT ![i] = (@ + 1) % 256]
      [] how = "head" -> <<x>> \o s [] how = "tail" -> s \o <<x>> [] how = "skip" -> SubSeq(s, i, Len(s))
EditHows == {"set", "cut", "del", "ins", "inc", "tail", "head", "skip"}
Chars == {35, 65, 66, 69, 81, 97, 47, 43, 61, 45, 95, 42, 32, 9, 10, 0, 200}
RECURSIVE Edits(_, _, _)
Edits(s, n, X) == IF n = 0 \/ s = <<>> THEN s ELSE Edits(EditAt(s, Pick(1 .. Len(s)), Pick(EditHows), Pick(X)), n - 1, X)
BlobEdits(t, n) == t \o <<32>> \o B64(Edits(Blob(t, Small(t)), n, {0, 1, 2, 7, 11, 32, 127, 128, 255}))
(* every place of one blob *)
FixRsa == <<<<1, 0, 1>>, <<193>> \o [i \in 1 .. 12 |-> (i * 37) % 256] \o <<201>>>>
FixEd == <<[i \in 1 .. 32 |-> (i * 91) % 256]>>
Fix == [t \in Names |-> Blob(t, IF t = NRsa THEN FixRsa ELSE FixEd)]
FixText == [t \in Names |-> t \o <<32>> \o B64(Fix[t])]
OtherNames == {<<115, 115, 104, 45, 100, 115, 115>>, SubSeq(NRsa, 1, 6), NRsa \o <<50>>, <<83>> \o Tail(NRsa), <<114, 115, 97>>, NEd \o <<46>>, SubSeq(NEd, 1, 10),
               <<115, 107, 45>> \o NEd, NRsa \o <<44>> \o NEd, <<0>> \o NRsa, <<>>}
(* the numbers written out of the ordinary *)
Wide(t, e, n) == t \o <<32>> \o B64(PutString(NRsa) \o PutString(e) \o PutString(n))
Lines(z) ==
    {L(NRsa, Text(NRsa, Rsa(n))) : n \in 8 .. 40 \cup {63, 64, 65, 96, 127, 128, 129}, n0 \in 1 .. N(2, 8)} \cup
    {L(NRsa, Text(NRsa, Rsa(n))) : n \in {192, 256, 257, 384, 512} \cup (IF Thorough THEN {1024, 2048} ELSE {})} \cup
    {L(NRsa, Text(NRsa, <<Exponent(0), [Modulus(n) EXCEPT ![1] = h]>>)) : n \in {16, 17}, h \in {1, 2, 3, 4, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255}} \cup
    {L(NEd, Text(NEd, Ed(0))) : n0 \in 1 .. N(60, 1000)} \cup {L(NEd, Text(NEd, <<p>>)) : p \in Points} \cup
    (* each of the wrong kind *)
    {L(t, Text(u, Usual(u))) : t \in Names, u \in Names} \cup {L(t, u \o <<32>> \o B64(Blob(t, Small(t)))) : t \in Names, u \in Names \cup OtherNames} \cup
    {L(t, t \o <<32>> \o B64(Blob(u, Small(u)))) : t \in Names, u \in Names} \cup
    {L(t, t \o <<32>> \o B64(PutString(u) \o SubSeq(Fix[t], Len(t) + 5, Len(Fix[t])))) : t \in Names, u \in OtherNames} \cup
    {L(t, B64(Blob(t, Small(t)))) : t \in Names} \cup {L(t, t \o g) : t \in Names, g \in {<<>>, <<32>>, <<32, 32>>, <<32, 65>>, <<32, 61, 61>>}} \cup
    (* every single edit of one key each *)
    {L(t, t \o <<32>> \o B64(EditAt(Fix[t], i, how, x))) : t \in Names, i \in 1 .. 12 \cup {15, 16, 19, 20, 21, 22, 23, 36, 37, 38, 51}, how \in {"set", "inc", "del", "ins", "cut", "skip"}, x \in {0, 255}}
        \cup
    {L(t, EditAt(FixText[t], i, how, x)) : t \in Names, i \in 1 .. N(30, 45), how \in {"set", "ins", "del", "cut"}, x \in {65, 61, 42, 32}} \cup
    UNION {{L(t, t \o <<32>> \o B64(Fix[t] \o x)) : x \in {<<0>>, <<0, 0, 0, 0>>, <<1>>, PutString(<<>>), PutString(<<1>>), Fix[t], Zero(100)}} : t \in Names} \cup
    {L(NEd, NEd \o <<32>> \o B64(PutString(NEd) \o PutString(RandBytes(n)))) : n \in 0 .. 40 \cup {64}} \cup
    {L(t, f) : t \in {NRsa}, f \in {Wide(NRsa, e, n) : e \in {<<1, 0, 1>>, <<0, 1, 0, 1>>, <<3>>, <<2>>, <<4>>, <<1>>, <<>>, <<0>>, <<255>>, <<0, 255>>},
        n \in {<<201>> \o FixRsa[2], <<0, 201>> \o FixRsa[2], <<0, 0, 201>> \o FixRsa[2], <<0>> \o <<33>> \o FixRsa[2], <<33, 1>>, <<0, 255, 1>>, <<>>, <<0>>, <<5>>, <<3>>, <<1, 2>>}}} \cup
    {L(t, c \o FixText[t] \o d) : t \in Names, c \in {<<>>, <<32>>, <<10>>, <<34>>, <<35>>}, d \in {<<32>>, <<35>>, <<35, 65, 65, 65, 65>>, <<44>>, <<59, 120>>, <<33>>, <<64, 104>>, <<58>>, <<46>>, <<124>>, <<0>>, <<92>>, <<42>>, <<61>>, <<61, 61>>, <<61, 65, 65, 65>>, <<65>>, <<65, 65, 65, 65>>, <<10, 65>>, <<32, 65>>}} \cup
    {LET t == Pick(Names) IN L(t, BlobEdits(t, Pick(1 .. 3))) : n0 \in 1 .. N(300, 6000)} \cup
    {LET t == Pick(Names) IN L(t, Edits(Text(t, Small(t)), Pick(1 .. 3), Chars)) : n0 \in 1 .. N(300, 6000)}
(* pairs: of near numbers, of both kinds, with other comments *)
PairOf(a, b) == [k |-> "pair", a |-> Text(a[1], a[2]), b |-> Text(b[1], b[2]), same |-> a = b]
Near(a) ==
    IF a[1] = NEd THEN {<<NEd, <<[a[2][1] EXCEPT ![i] = (@ + x) % 256]>>>> : i \in {1, 16, 31, 32}, x \in {0, 1, 128}}
    ELSE {<<NRsa, <<e, a[2][2]>>>> : e \in {a[2][1], <<3>>, <<1, 0, 1>>}} \cup {<<NRsa, <<a[2][1], [a[2][2] EXCEPT ![i] = (@ + x) % 256]>>>> : i \in {2, 8}, x \in {1, 255}}
PairSet(z) ==
    UNION {{PairOf(a, b) : b \in Near(a)} : a \in {<<t, Small(t)>> : t \in Names, n0 \in 1 .. N(8, 80)}} \cup
    {PairOf(<<t, Usual(t)>>, <<u, Usual(u)>>) : t \in Names, u \in Names}
(* private keys *)
Fmts == {"pkcs1", "pkcs8", "openssh", "pkcs1-enc", "pkcs8-enc", "openssh-enc"}
Pem(key, fmt, given, cls, cut, dress) == [k |-> "pem", key |-> key, fmt |-> fmt, given |-> given, cls |-> cls, cut |-> cut, dress |-> dress]
Pems(z) ==
    {Pem(key, f, g, cls, 0, "none") : key \in {"r1", "r2", "e1", "e2"}, f \in Fmts, g \in {"none", "right", "wrong", "empty"}, cls \in {"rsa", "ed", "load"}} \cup
    {Pem(key, f, g, cls, 0, "none") : key \in {"r1", "e1"}, f \in {"pkcs1-enc", "pkcs8-enc", "openssh-enc"}, cls \in {"rsa", "ed", "load"},
        g \in {"trail", "lead", "newline", "case", "prefix", "longer", "twice", "first"}} \cup
    {Pem("e1", "openssh-enc", "nul", cls, 0, "none") : cls \in {"ed", "load"}} \cup
    {Pem(key, f, IF f \in {"pkcs8-enc", "openssh-enc", "pkcs1-enc"} THEN "right" ELSE "none", cls, 0, "none") :
        key \in {"r3", "r4", "r5", "e3", "e4", "ec1", "dsa1", "x25519", "ed448", "ec384"}, f \in Fmts, cls \in {"rsa", "ed", "load"}} \cup
    {Pem(key, f, "none", cls, c, "none") : key \in {"r1", "e1"}, f \in {"pkcs1", "pkcs8", "openssh"}, cls \in {"rsa", "ed", "load"}, c \in {10, 50, 90, 97}} \cup
    {Pem(key, f, "none", Pick({"load", IF key = "r1" THEN "rsa" ELSE "ed"}), 0, d) : key \in {"r1", "e1"}, f \in {"pkcs1", "pkcs8", "openssh"},
        d \in {"crlf", "lead", "trail", "nofinal", "public", "blank", "indent", "label"}} \cup
    {Pem("e" \o ToString(i), "openssh", "none", "load", 0, "none") : i \in 5 .. N(30, 300)}
Made(z) == {[k |-> "made", cls |-> c, size |-> s, n |-> n] : c \in {"ed"}, s \in {0}, n \in {40}} \cup
           {[k |-> "made", cls |-> "rsa", size |-> s, n |-> IF s < 2000 THEN 4 ELSE 1] : s \in {1024, 1025, 1536, 2048} \cup (IF Thorough THEN {3072, 4096} ELSE {})}
GenInit == z0 = 0 /\ JsonSerialize(IOEnv.OUT, SetToSeq(Lines(0)) \o SetToSeq(PairSet(0)) \o SetToSeq(Pems(0)) \o SetToSeq(Made(0)))
GenNext == FALSE /\ z0' = z0
GenSpec == GenInit /\ [][GenNext]_z0
=============================================================================
