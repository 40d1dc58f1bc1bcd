--------------------------- MODULE GenAgePassword ---------------------------
(* Scenarios for C09. *)
EXTENDS AgePassword, TLC, Json, IOUtils, SequencesExt

Thorough == IOEnv.TIER = "thorough"
N(quick, thorough) == IF Thorough THEN thorough ELSE quick
Pick(S) == RandomElement(S)

RECURSIVE Rep(_, _)
Rep(t, n) == IF n = 0 THEN "" ELSE t \o Rep(t, n - 1)

(* work factor texts *)
Numbers == {"-1000", "-22", "-18", "-2", "-1", "-0"} \cup {ToString(v) : v \in -3 .. N(70, 300)} \cup
    {"100", "127", "128", "255", "256", "257", "274", "65535", "65536", "65537", "65554", "1000000", "2147483647",
     "2147483648", "4294967295", "4294967296", "4294967306", "4294967314", "9223372036854775807",
     "9223372036854775808", "18446744073709551615", "18446744073709551626", "1000000000000", "2000000000", "8000000000", "16000000000", "34000000000",
     Rep("9", 40), Rep("9", 300), Rep("1", 4299), Rep("1", 5000)}
Odd == {"018", "0018", "+18", "1_8", "-1_8", "_18", "18_", "00", "01", "022", "023", "+0", "+22", "+23", "-00"} \cup
    {"18.0", "1e1", "0x12", "0b10", "0o22", "1.5", "NaN", "inf", "-inf", "1e400", "x", "--", "-", "+", "18x", "x18",
     "18,", "1/2", "2^4", "10=", "==", "None", "True", "true", "MQ", "\\x12", "18\\t", "18;19", "'18'", "1+1",
     "18\\u00a0", "\\u0661\\u0668", "\\uff11\\uff18", "\\u00b2"}

Bytes(k) == [i \in 1 .. k |-> (i * 7 + 40) % 256]
Lens == {0, 1, 2, 3, 8, 15, 16, 17, 31, 32, 33, 55, 56, 57, 63, 64, 65, 71, 72, 73, 80, 100, 127, 128, 129, 255, 256,
         257, 300, 1024}
Set(p, i, b) == [p EXCEPT ![i] = b]
Others(p) ==
    {Append(p, b) : b \in {32, 10, 13, 97, 9, 255}} \cup {<<b>> \o p : b \in {32, 10, 0, 97}} \cup
    (IF p = <<>> THEN {} ELSE
      {SubSeq(p, 1, Len(p) - 1), SubSeq(p, 2, Len(p))} \cup
      {Set(p, i, (p[i] + d) % 256) : i \in ({1, Len(p), (Len(p) + 1) \div 2} \cup
              ({8, 16, 32, 33, 56, 57, 64, 65, 72, 73, 128, 256, 257} \cap DOMAIN p)), d \in {1, 32, 128}})
Special == {<<<<195, 169>>, <<101, 204, 129>>>>, <<<<195, 169>>, <<233>>>>, <<<<65, 66>>, <<97, 98>>>>,
            <<<<65, 66>>, <<65, 98>>>>, <<<<239, 187, 191, 97>>, <<97>>>>, <<<<97, 0, 98>>, <<97>>>>,
            <<<<97, 0, 98>>, <<97, 0, 99>>>>, <<<<0, 97>>, <<97>>>>, <<<<97, 10>>, <<97>>>>, <<<<97>>, <<97, 13, 10>>>>,
            <<<<32, 97, 32>>, <<97>>>>, <<<<97, 0>>, <<97>>>>, <<<<>>, <<0>>>>, <<<<>>, <<32>>>>, <<<<255, 254>>, <<254, 255>>>>,
            <<<<49, 50>>, <<50, 49>>>>, <<<<128>>, <<63>>>>, <<<<128>>, <<239, 191, 189>>>>}
Pairs == {<<Bytes(n), q>> : n \in Lens, q \in {<<>>}} \cup Special
PairScen(z) ==
    UNION {{[kind |-> "own", real |-> FALSE, pws |-> <<Bytes(n)>>, ids |-> <<q>>] : q \in Others(Bytes(n)) \cup {Bytes(n)}}
             : n \in Lens} \cup
    UNION {{[kind |-> "own", real |-> FALSE, pws |-> <<a>>, ids |-> <<b>>] :
              <<a, b>> \in {<<p[1], p[2]>>, <<p[2], p[1]>>, <<p[1], p[1]>>}} : p \in Special}

St(pw, wf, made) == [pw |-> pw, wf |-> wf, made |-> made]
P1 == <<112, 119>>
P2 == <<80, 119>>
P3 == <<112>>
(* what an attacker who knows the password may have used as real work *)
Mades(v) == IF v >= 0 /\ v <= 40 THEN {v} \cup (IF v > Hi THEN {Hi, Lo} ELSE IF v < Lo THEN {Lo, Hi} ELSE {})
            ELSE IF v = NotInt THEN {1, 10, 18} ELSE {Lo, Hi, 10, 18}
Single(z) == UNION {{[kind |-> "file", real |-> FALSE, st |-> <<St(P1, t, m)>>, ids |-> <<P1>>] : m \in Mades(Value(t))}
                    : t \in Numbers \cup Odd}
Multi(z) ==
    {LET k == Pick(1 .. 4)
         txt == [i \in 1 .. k |-> IF Pick(1 .. 3) = 1 THEN Pick(Numbers \cup Odd) ELSE Pick({"1", "2", "10", "18", "22"})]
     IN  [kind |-> "file", real |-> FALSE,
          st |-> [i \in 1 .. k |-> St(Pick({P1, P2, P3}), txt[i], Pick(Mades(Value(txt[i]))))],
          ids |-> Pick({<<>>, <<P1>>, <<P2>>, <<P1, P2>>, <<P3, P1>>, <<P3, P2, P1>>, <<<<>>, P2>>})]
       : n0 \in 1 .. N(300, 4000)}
Real(z) ==
    {[kind |-> "file", real |-> TRUE, st |-> <<St(P1, ToString(v), v)>>, ids |-> <<p>>]
        : v \in (IF Thorough THEN 1 .. 20 ELSE {1, 2, 3, 10, 14, 17}), p \in {P1, P2}} \cup
    {[kind |-> "file", real |-> TRUE, st |-> <<St(P1, t, 1)>>, ids |-> <<P1>>] : t \in {"0", "23", "24", "30", "31", "64", "-1"}} \cup
    (IF Thorough THEN {[kind |-> "file", real |-> TRUE, st |-> <<St(P1, v, IF v = "21" THEN 21 ELSE 22)>>, ids |-> <<P1>>]
                           : v \in {"21", "22"}} ELSE {}) \cup
    {[kind |-> "own", real |-> TRUE, pws |-> <<a>>, ids |-> <<b>>] :
        <<a, b>> \in {<<P1, P1>>, <<P1, P2>>, <<P1, P3>>, <<Bytes(100), Bytes(100)>>, <<Bytes(100), SubSeq(Bytes(100), 1, 72)>>,
                      <<<<>>, <<>>>>, <<<<>>, P1>>}}
(* several passwords, and passwords beside other recipients' keys *)
OwnMulti(z) ==
    {[kind |-> "own", real |-> FALSE, pws |-> Pick({<<P1, P2>>, <<P1>>, <<P3, P2, P1>>}),
      ids |-> Pick({<<P1>>, <<P2>>, <<P3>>, <<P3, P1>>, <<<<>>, P2>>, <<>>})] : n0 \in 1 .. N(40, 300)}

All(z) == Single(0) \cup Multi(0) \cup PairScen(0) \cup Real(0) \cup OwnMulti(0)
VARIABLE done
Init == done = JsonSerialize(IOEnv.OUT, SetToSeq(All(0)))
Next == FALSE /\ done' = done
GenSpec == Init /\ [][Next]_done
=============================================================================
