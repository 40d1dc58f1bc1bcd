--------------------------- MODULE GenAgeSessions ---------------------------
(* Random histories of AgeSessions (the specification's own transition      *)
(* function decides what is enabled), written as JSON for the driver.       *)
EXTENDS AgeSessions, Contents, TLC, Json, IOUtils, SequencesExt

Prop == IOEnv.PROP
Thorough == IOEnv.TIER = "thorough"
Pick(S) == RandomElement(S)

MCHandles == 1 .. 4
MCReaders == 1 .. 3

Sizes == {0, 1, 2, 15, 16, 17, 100, 1000, 65535, 65536, 65537, 70000, 131072}
ReadSizes == {-1, -1, 0, 1, 2, 15, 100, 4096, 65535, 65536, 65537, 200000}
Sinks == {"bytes", "offset", "file", "raw", "buffered"}
Sources == {"bytes", "offset", "file", "trickle"}
Modes == {"main", "main", "own", "each"}
Bads == {"key", "sink", "first"}

WriteKinds == {"bytes", "bytearray", "view", "lines", "buffer", "copy"}
ReadKinds == {"read", "read", "readall", "lines", "iter", "copy"}

(* one random enabled call, biased towards writing *)
RECURSIVE Draw1(_)
Draw1(s) ==
    LET w == Pick(1 .. 20)
        h == Pick(Handles)
        d == Pick(Readers)
        o == CASE w \in 1 .. 3 -> Op("new", h, Pick(1 .. 4), 0, Pick(Sinks))
               [] w = 4 -> Op("newbad", h, Pick(0 .. 2), 0, Pick(Bads))
               [] w \in 5 .. 9 -> Op("write", h, Pick(Sizes), 0, Pick(WriteKinds))
               [] w \in 10 .. 11 -> Op("close", h, 0, 0, "")
               [] w = 12 -> Op("exit", h, 0, 0, "")
               [] w = 13 -> Op("abort", h, 0, 0, "")
               [] w \in 14 .. 16 -> Op("open", h, 0, d, Pick(Sources))
               [] w \in 17 .. 19 -> Op("read", 1, Pick(ReadSizes), d, Pick(ReadKinds))
               [] w = 20 -> Op("line", 1, Pick(ReadSizes), d, Pick({"line", "line", "next"}))
    IN  IF Enabled(s, o) THEN o ELSE Draw1(s)

RECURSIVE Walk(_, _)
Walk(s, n) == IF n = 0 THEN <<>>
              ELSE LET o == Draw1(s) IN <<o>> \o Walk(Apply(s, o), n - 1)

(* C08: long random histories; every short history over few calls *)
Hist(n) == {[kind |-> "hist", mode |-> Pick(Modes), n |-> k, ops |-> Walk(State0, Pick(4 .. 24))] : k \in 1 .. n}
New1 == Op("new", 1, 1, 0, "bytes")
Short == {Op("write", 1, 3, 0, "bytes"), Op("write", 1, 2, 0, "bytearray"), Op("write", 1, 0, 0, "bytes"),
          Op("close", 1, 0, 0, ""), Op("exit", 1, 0, 0, ""), Op("abort", 1, 0, 0, "")}
ShortHists(k) == {[kind |-> "hist", mode |-> "main", n |-> 0, ops |-> <<New1>> \o t] : t \in [1 .. k -> Short]}
AfterBad == {[kind |-> "hist", mode |-> "main", n |-> 0, ops |-> <<Op("newbad", 1, n, 0, b)>> \o t]
               : n \in 0 .. 2, b \in Bads, t \in [1 .. 2 -> Short]}
ReadSeqs(k) ==
    {[kind |-> "hist", mode |-> "main", n |-> 0,
      ops |-> <<New1, Op("write", 1, 5, 0, "bytes"), Op("close", 1, 0, 0, ""), Op("open", 1, 0, 1, "bytes")>>
              \o [i \in 1 .. k |-> Op("read", 1, t[i], 1, "read")]] : t \in [1 .. k -> {-1, 0, 1, 2, 4, 5, 6}]}
(* lines of different contents *)
Lined == {"lines", "crlf", "newlines", "returns", "blanks", "bytes", "same", "utf16", "c1", "ctrlz", "nl0", "nl9", "crlf9", "cr9", "zeros", "comments", "armor"}
LineOf(n) == Op("line", 1, n, 1, "line")
LineSeqs(z) ==
    {[kind |-> "hist", mode |-> "main", n |-> 0, text |-> t,
      ops |-> <<New1, Op("write", 1, n, 0, Pick(WriteKinds)), Op("close", 1, 0, 0, ""), Op("open", 1, 0, 1, "bytes")>> \o q]
        : t \in Lined, n \in {0, 1, 70, 65540},
          q \in {<<LineOf(-1), LineOf(-1), LineOf(0), LineOf(3), LineOf(-1), Op("read", 1, 5, 1, "read"), LineOf(1), LineOf(-1), Op("read", 1, -1, 1, "read"), LineOf(-1), LineOf(4)>>,
                  <<LineOf(0), LineOf(1), LineOf(2), Op("line", 1, -1, 1, "next"), Op("read", 1, 2, 1, "read"), Op("line", 1, -1, 1, "next"), Op("read", 1, -1, 1, "lines"), LineOf(-1)>>,
                  <<Op("read", 1, -1, 1, "iter"), LineOf(2)>>, <<Op("read", 1, -1, 1, "lines"), Op("read", 1, 1, 1, "read")>>,
                  <<LineOf(70000), LineOf(70000), Op("read", 1, -1, 1, "copy"), Op("read", 1, 0, 1, "read")>>}}
(* large pieces: one write or many, one read or many *)
Large == {1048575, 1048576, 1048577, 3000000, 4194305} \cup (IF Thorough THEN {8388609, 16777217, 20000000} ELSE {})
BigHist ==
    {[kind |-> "hist", mode |-> "main", n |-> n,
      ops |-> <<Op("new", 1, 1, 0, Pick(Sinks)), Op("write", 1, n, 0, w)>> \o (IF r = 1 THEN <<Op("write", 1, 70000, 0, "bytes")>> ELSE <<>>)
              \o <<Op("close", 1, 0, 0, ""), Op("open", 1, 0, 1, Pick(Sources \ {"trickle"})), Op("read", 1, IF r = 1 THEN -1 ELSE n, 1, "read"),
                Op("read", 1, Pick(Large), 1, "read"), Op("read", 1, 5, 1, "read")>>]
        : n \in Large, w \in {"bytes", "bytearray", "view"}, r \in 1 .. 2}
C08 == BigHist \cup Hist(IF Thorough THEN 3000 ELSE 250)
       \cup UNION {ShortHists(k) : k \in 1 .. (IF Thorough THEN 5 ELSE 3)}
       \cup AfterBad \cup LineSeqs(0) \cup ReadSeqs(IF Thorough THEN 4 ELSE 3)
       \cup {[kind |-> "free", mode |-> "main", n |-> k, ops |-> Walk(State0, Pick(8 .. 24))] : k \in 1 .. (IF Thorough THEN 400 ELSE 40)}

(* C07: many files, same and different recipients, several processes *)
Calls(m) == [i \in 1 .. 2 * m |-> IF i <= m THEN Op("new", i, Pick(1 .. 4), 0, Pick(Sinks))
                                  ELSE Op("close", i - m, 0, 0, "")]
C07 == {[kind |-> "hist", mode |-> Pick(Modes), n |-> k, ops |-> Walk(State0, Pick(10 .. 24))] : k \in 1 .. (IF Thorough THEN 1500 ELSE 150)}
       \cup {[kind |-> "hist", mode |-> Pick(Modes), n |-> k, ops |-> Calls(4)] : k \in 1 .. (IF Thorough THEN 200 ELSE 40)}
       \cup {[kind |-> "hist", mode |-> "main", n |-> n, ops |-> <<Op("new", 1, 1, 0, "bytes"), Op("write", 1, n, 0, "bytes"), Op("close", 1, 0, 0, "")>>]
               : n \in {65536 * 3, 65536 * 20 + 1, 65536 * 130 + 7, 65536 * 258 + 7}}
       \cup {[kind |-> "fork", mode |-> "main", n |-> k, ops |-> Calls(3)] : k \in 1 .. 8}
       \cup {[kind |-> "free", mode |-> "main", n |-> k, ops |-> Calls(4)] : k \in 1 .. (IF Thorough THEN 200 ELSE 32)}

(* long lives of one process: files one after the other, in one thread or several *)
Lives == [i \in 1 .. 8 |-> [kind |-> "many", mode |-> "main", n |-> i, ops |-> <<>>, lives |-> IF i <= 3 THEN 1 ELSE 4,
                            files |-> (IF i <= 3 THEN 4 ELSE 1) * (IF Thorough THEN 800 ELSE 150)]]

VARIABLE done
(* what the first writer is given looks like *)
TextHist(t, n, ws, rs) ==
    [kind |-> "hist", mode |-> "main", n |-> n, text |-> t,
     ops |-> <<Op("new", 1, 1, 0, Pick(Sinks))>> \o [i \in DOMAIN ws |-> Op("write", 1, ws[i], 0, Pick(WriteKinds))]
             \o <<Op("close", 1, 0, 0, ""), Op("open", 1, 0, 1, Pick(Sources))>> \o [i \in DOMAIN rs |-> Op("read", 1, rs[i], 1, Pick(ReadKinds))]]
Texts == {TextHist(t, n, IF n > 2 THEN Pick({<<n>>, <<1, n - 1>>, <<n - 1, 1>>, <<n - 2, 0, 2>>}) ELSE <<n>>, Pick({<<-1>>, <<1, -1, 1>>, <<0, n, 1>>, <<n - 1, 2>>, <<1, 1, 1, -1>>}))
            : t \in Contents, n \in {1, 2, 16, 100, 65536, 65537}}
With(c) == c @@ [text |-> IF Pick(1 .. 4) = 1 THEN Pick(Contents) ELSE ""]
Init == done = JsonSerialize(IOEnv.OUT, CASE Prop = "C07" -> Lives \o SetToSeq(C07) [] Prop = "C08" -> SetToSeq({With(c) : c \in C08} \cup Texts))
Next == FALSE /\ done' = done
GenSpec == Init /\ [][Next]_done
=============================================================================
