----------------------------- MODULE GenAgeArmor -----------------------------
(* Scenarios for A01 (histories of stream objects) and A02 (texts). *)
EXTENDS AgeArmor, Contents, TLC, Json, IOUtils, SequencesExt

Prop == IOEnv.PROP
Thorough == IOEnv.TIER = "thorough"
N(quick, thorough) == IF Thorough THEN thorough ELSE quick
Pick(S) == RandomElement(S)

---------------------------------------------------------------------------
Sizes == {0, 1, 2, 3, 4, 15, 47, 48, 49, 96, 100, 143, 144, 1000, 8191, 8192, 8193, 70000, 200000}
ReadSizes == {-1, 0, 1, 2, 3, 47, 48, 49, 100, 1000, 8192, 65536}
RECURSIVE Draw(_)
Draw(s) ==
    LET k == Pick(1 .. 13)
        h == Pick({1, 2})
        o == CASE k = 1 -> Op("new", h, 0) [] k \in 2 .. 5 -> Op("write", h, Pick(Sizes))
               [] k = 13 -> Op("flush", h, 0)
               [] k \in 6 .. 7 -> Op("close", h, 0) [] k = 8 -> Op("open", h, 0)
               [] OTHER -> Op("read", h, Pick(ReadSizes))
    IN  IF OpEnabled(s, o) THEN o ELSE Draw(s)
RECURSIVE Walk(_, _)
Walk(s, n) == IF n = 0 THEN <<>> ELSE LET o == Draw(s) IN <<o>> \o Walk(OpApply(s, o), n - 1)
Full(ws, rs) == <<Op("new", 1, 0)>> \o [k \in DOMAIN ws |-> Op("write", 1, ws[k])] \o
                <<Op("close", 1, 0), Op("open", 1, 0)>> \o [k \in DOMAIN rs |-> Op("read", 1, rs[k])]
RECURSIVE FlushAfter(_)
FlushAfter(ws) == IF ws = <<>> THEN <<>> ELSE <<Op("write", 1, Head(ws)), Op("flush", 1, 0)>> \o FlushAfter(Tail(ws))
Sinks == {"bytesio", "buffered", "file", "pipe"}
Labels == {"AGE ENCRYPTED FILE", "X", "A B", "OPENSSH PRIVATE KEY"}
Hist(ops) == [kind |-> "hist", text |-> IF Pick(1 .. 3) = 1 THEN Pick(Contents) ELSE "", ops |-> ops, sink |-> Pick(Sinks), label |-> Pick(Labels), nl |-> Pick({"lf", "crlf", "lf"})]
A01(z) ==
    {[Hist(Full(IF n > 3 /\ Pick(BOOLEAN) THEN <<2, n - 2>> ELSE <<n>>, <<Pick(ReadSizes), -1>>)) EXCEPT !.text = t] : t \in Contents, n \in SmallContentLens} \cup
    {Hist(Full(<<n>>, <<-1>>)) : n \in 0 .. N(300, 2000)} \cup
    {Hist(<<Op("new", 1, 0)>> \o ops) : ops \in
        {<<Op("flush", 1, 0)>> \o FlushAfter(ws) \o <<Op("close", 1, 0), Op("open", 1, 0), Op("read", 1, -1)>>
           : ws \in {<<>>, <<1>>, <<47, 2>>, <<48, 48>>, <<49, 0, 1>>, <<2, 3, 5, 7>>, <<8192, 1>>, <<70000, 70000>>}}} \cup
    {Hist(Full(ws, rs)) : ws \in UNION {[1 .. k -> {0, 1, 2, 47, 48, 50}] : k \in 0 .. 3}, rs \in {<<-1>>}} \cup
    {Hist(Full(<<n>>, rs)) : n \in {0, 1, 5}, rs \in [1 .. 3 -> {-1, 0, 1, 2, 4, 5, 6}]} \cup
    {Hist(Walk(StreamState, Pick(6 .. 24)) ) : n0 \in 1 .. N(300, 4000)} \cup
    {Hist(Full(<<n>>, <<-1>>)) : n \in {1048576, 1000003}}

---------------------------------------------------------------------------
L == "AGE ENCRYPTED FILE"
Beg(l) == "-----BEGIN " \o l \o "-----"
En(l) == "-----END " \o l \o "-----"
F1 == "QUJDREVGR0hJSktMTU5PUFFSU1RVVldYWVphYmNkZWZnaGlqa2xtbm9wcXJzdHV2"       \* 64 columns
F2 == "MDEyMzQ1Njc4OWFiY2RlZjAxMjM0NTY3ODlhYmNkZWYwMTIzNDU2Nzg5YWJjZGVm"
FP == "MDEyMzQ1Njc4OWFiY2RlZjAxMjM0NTY3ODlhYmNkZWYwMTIzNDU2Nzg5YWJjZGU="
Core == {Beg(L), En(L), Beg("OTHER"), En("OTHER"), F1, "QUJD", "QQ==", ""}
More == Core \cup
    {Beg(""), En(""), Beg("age encrypted file"), En("age encrypted file"), Beg(" " \o L), Beg(L \o " "), En(L \o " "),
     Beg("AGE ENCRYPTED  FILE"), Beg("AGE-ENCRYPTED FILE"), En("AGE-ENCRYPTED FILE"), " " \o Beg(L), Beg(L) \o " ",
     En(L) \o " ", " " \o En(L), "----BEGIN " \o L \o "-----", "-----BEGIN " \o L \o "----", "-----BEGIN" \o L \o "-----",
     "------BEGIN " \o L \o "------", "-----END " \o L \o "----", "-----BEGIN AGE ENCRYPTED FILES-----",
     "-----BEGIN", "-----END", "-----", "hello world", "Comment: x",
     F2, FP, F1 \o "QUJD", F1 \o "=", SubSeq(F1, 1, 60), SubSeq(F1, 1, 63), SubSeq(F1, 1, 62), SubSeq(F1, 1, 61),
     "QUJ*", "QUI=", "QUJ=", "QR==", "QQ=", "QQ", "Q", "QQ===", "=", "====", "=QUJ", "QU=J", "Q===", "QQ==QUJD", "QU JD",
     " QUJD", "QUJD ", "\tQUJD", " " \o F1, F1 \o " ", " ", "QU-_", "QUJD,", "# comment", "dGhpcyBpcyBub3QgcGVt"}
Doc(ls, t, nl, m) == [kind |-> "doc", lines |-> ls, term |-> t, nl |-> nl, mode |-> m]
Modes == {"input", "input", "strict", "lenient"}
Nls == {"lf", "lf", "crlf", "cr"}
RandLines(S, k) == [i \in 1 .. k |-> RandomElement(S)]
(* documents that are right but for a few lines *)
Good == {<<Beg(L), En(L)>>, <<Beg(L), "QUJD", En(L)>>, <<Beg(L), F1, En(L)>>, <<Beg(L), F1, F2, "QQ==", En(L)>>,
         <<Beg(L), F1, FP, En(L)>>, <<"x", Beg(L), F1, "QUJD", En(L), "y", "">>,
         <<Beg("OTHER"), F1, "QUJD", En("OTHER"), Beg(L), F2, En(L)>>,
         <<Beg(L), F2, En(L), Beg("OTHER"), "QQ==", En("OTHER")>>}
Subst(d, k, x) == [d EXCEPT ![k] = x]
Ins(d, k, x) == SubSeq(d, 1, k) \o <<x>> \o SubSeq(d, k + 1, Len(d))
Del(d, k) == SubSeq(d, 1, k - 1) \o SubSeq(d, k + 1, Len(d))
Edited(d) == {Subst(d, k, x) : k \in DOMAIN d, x \in More} \cup {Ins(d, k, x) : k \in 0 .. Len(d), x \in More} \cup
             {Del(d, k) : k \in DOMAIN d} \cup {d}
RECURSIVE EditN(_, _)
EditN(d, n) == IF n = 0 \/ d = <<>> THEN d ELSE
    EditN(CASE Pick(1 .. 3) = 1 -> Subst(d, Pick(DOMAIN d), Pick(More))
            [] Pick(1 .. 2) = 1 -> Ins(d, Pick(0 .. Len(d)), Pick(More))
            [] OTHER -> Del(d, Pick(DOMAIN d)), n - 1)
A02(z) ==
    {Doc(ls, TRUE, "lf", "input") : ls \in UNION {[1 .. k -> Core] : k \in 0 .. N(4, 5)}} \cup
    {Doc(ls, Pick(BOOLEAN), Pick(Nls), Pick(Modes)) : ls \in UNION {Edited(d) : d \in Good}} \cup
    {Doc(d, t, nl, m) : d \in Good, t \in BOOLEAN, nl \in Nls, m \in Modes} \cup
    {Doc(EditN(Pick(Good), Pick(2 .. 4)), Pick(BOOLEAN), Pick(Nls), Pick(Modes)) : n0 \in 1 .. N(600, 15000)} \cup
    {Doc(RandLines(More, Pick(2 .. 7)), Pick(BOOLEAN), Pick(Nls), Pick(Modes)) : n0 \in 1 .. N(400, 10000)} \cup
    (* every prefix and single-character edit of what the writer produces *)
    {[kind |-> "bytes", n |-> n, edit |-> e, at |-> at, lines |-> <<>>, term |-> TRUE, nl |-> "lf", mode |-> "input"]
        : e \in {"cut", "tail", "del", "dup", "flip", "nl", "dash", "space", "eq", "case", "nul", "hi", "bom"},
          n \in (IF Thorough THEN {0, 1, 30, 47, 48, 49, 96, 100} ELSE {0, 30, 48, 97}), at \in 0 .. (IF Thorough THEN 240 ELSE 200)}

VARIABLE done
Init == done = JsonSerialize(IOEnv.OUT, SetToSeq(CASE Prop = "A01" -> A01(0) [] Prop = "A02" -> A02(0)))
Next == FALSE /\ done' = done
GenSpec == Init /\ [][Next]_done
=============================================================================
