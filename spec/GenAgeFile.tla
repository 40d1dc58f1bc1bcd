----------------------------- MODULE GenAgeFile -----------------------------
(* Scenarios for C01..C04, written as JSON for the driver.                    *)
EXTENDS AgeEdits, Contents, Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Prop == IOEnv.PROP
Thorough == IOEnv.TIER = "thorough"
N(quick, thorough) == IF Thorough THEN thorough ELSE quick


Larger(a, b) == IF a < b THEN b ELSE a
Lists(S, lo, hi) == UNION {[1 .. n -> S] : n \in lo .. hi}
Pick(S) == RandomElement(S)
RandList(S, n) == [i \in 1 .. n |-> RandomElement(S)]
LOCAL InsertElem(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))

(* before: what the same process does first, <<file, identities>> each, judged like every other attempt *)
(* via: the kinds of collections and streams used; the specification does not distinguish them *)
Via(z) == [keys |-> Pick({"list", "tuple", "values", "deque", "own"}), ids |-> Pick({"list", "tuple", "values", "deque", "own"}),
           text |-> "", out |-> Pick({"bytes", "offset", "file", "raw", "buffered"}), inp |-> Pick({"bytes", "offset", "file", "trickle"})]
Scen(files, edits, ids, read) ==
    [files |-> files, edits |-> edits, ids |-> ids, before |-> <<>>,
     via |-> IF edits = <<>> /\ Len(files) = 1 /\ Pick(BOOLEAN) THEN [Via(0) EXCEPT !.text = Pick(Contents)] ELSE Via(0),
     read |-> IF edits = <<>> THEN read ELSE Pick({0, 1, 7, 65536, 70000})]
After(before, sc) == [sc EXCEPT !.before = before]
Try(f, ids) == [f |-> f, ids |-> ids]
File(rcpts, len) == [rcpts |-> rcpts, len |-> len]
File1(rcpts, len) == <<File(rcpts, len)>>

Lens == {0, 1, 15, 16, 17, 100, 1000, 65535, 65536, 65537, 131071, 131072, 131073, 196608, 200001}
SmallLens == {0, 1, 16, 100, 1000}
Reads == {0, 0, 0, 7, 4096, 70000}

---------------------------------------------------------------------------
(* C01: every listed recipient opens the file *)
Base == {"x1", "x2", "r1", "r4", "e1", "e2", "p1", "p5"}
Pool == Base \cup {"x3", "x4", "r2", "r3", "r5", "e3", "e4", "p2", "p3", "p4", "p6", "p7"}

(* every list of up to three, every position, that identity alone *)
Solo(maxlen) ==
    {Scen(File1(rl, Pick(SmallLens)), <<>>, <<rl[i]>>, 0)
        : <<rl, i>> \in {<<q, n>> \in Lists(Base, 1, maxlen) \X (1 .. maxlen) : n <= Len(q)}}
(* longer lists, decoy identities around the right one *)
RECURSIVE Decoys(_, _)
Decoys(ids, k) == IF k = 0 THEN ids
                  ELSE Decoys(InsertElem(ids, Pick(1 .. Len(ids) + 1), Pick(Pool)), k - 1)
Long(n) ==
    {LET len == Pick(1 .. 9) rl == RandList(Pool, len) i == Pick(1 .. len)
     IN  [Scen(File1(rl, Pick(Lens)), <<>>, Decoys(<<rl[i]>>, Pick(0 .. 6)), Pick(Reads))
            EXCEPT !.read = @] : k \in 1 .. n}
LenSweep ==
    {Scen(File1(<<"x1">>, len), <<>>, <<"x1">>, Pick(Reads))
        : len \in (0 .. N(300, 1100)) \cup Lens
             \cup {65536 * k + d : k \in 1 .. N(5, 12), d \in {-17, -16, -15, -1, 0, 1, 15, 16, 17}}}
(* every kind of contents *)
Texts(z) == {[Scen(File1(<<"x1">>, len), <<>>, <<"x1">>, Pick(Reads)) EXCEPT !.via.text = t] : t \in Contents, len \in ContentLens}
Orders ==   \* all orders of one right and three wrong identities
    {Scen(File1(<<"x1", "r1", "e1", "p1">>, 10), <<>>, [i \in 1 .. 4 |-> ids[i]], 0)
        : ids \in UNION {{f \in [1 .. 4 -> S] : \A a, b \in 1 .. 4 : a # b => f[a] # f[b]}
                          : S \in {{"x1", "x2", "r2", "e2"}, {"x2", "r1", "r2", "e2"},
                                   {"x2", "r2", "e1", "p2"}, {"p1", "p2", "p3", "x2"},
                                   {"x1", "r1", "e1", "p1"}, {"e1", "e2", "e3", "e4"}}}}
(* the same identities again and again, on this file and on others, after wrong ones and right ones *)
Histories(In, Out, n) ==
    {LET rl == RandList(In, Pick(1 .. 3)) rl2 == RandList(In \cup Out, Pick(1 .. 2))
         Ids(z) == RandList(Out \cup {rl[i] : i \in DOMAIN rl} \cup {rl2[i] : i \in DOMAIN rl2}, Pick(1 .. 3))
     IN  After([i \in 1 .. Pick(1 .. 5) |-> Try(Pick({1, 1, 2}), Ids(i))], Scen(<<File(rl, 30), File(rl2, 40)>>, <<>>, Ids(0), 0)) : k \in 1 .. n} \cup
    (* right, then wrong, then right *)
    {After(<<Try(1, <<i>>), Try(1, <<o>>), Try(1, <<i, o>>), Try(2, <<i>>), Try(1, <<o>>), Try(2, <<o>>)>>,
         Scen(<<File(<<i>>, 30), File(<<o>>, 40)>>, <<>>, <<i>>, 0)) : i \in In, o \in Out} \cup
    {After(<<Try(1, <<o>>), Try(2, <<o>>), Try(2, <<i>>)>>, Scen(<<File(<<i>>, 30), File(<<i, o>>, 40)>>, <<>>, <<o>>, 0)) : i \in In, o \in Out}
(* very many recipients, very many identities *)
Crowd(n) == [i \in 1 .. n |-> LET k == Pick(1 .. 12) IN IF k = 1 THEN "r1" ELSE IF k = 2 THEN "e1" ELSE IF k = 3 THEN "p1" ELSE "x2"]
At(s, i, x) == [s EXCEPT ![i] = x]
Crowds(z) ==
    {Scen(File1(At(Crowd(n), i, "x1"), 100), <<>>, ids, 0) : <<n, i>> \in {<<a, b>> \in {20, 40, 130, N(300, 1100)} \X (1 .. 1100) : b \in {1, 17, 33, 65, 129, a \div 2, a} /\ b <= a},
        ids \in {<<"x1">>, <<"x3", "x1", "e2">>}} \cup
    {Scen(File1(<<"e2", "x1", "r2">>, 100), <<>>, At([j \in 1 .. n |-> Pick({"x3", "x4", "p2", "r3", "e3"})], i, "x1"), 0)
        : <<n, i>> \in {<<a, b>> \in {20, 40, N(130, 300)} \X (1 .. 300) : b \in {1, 17, a} /\ b <= a}}
(* one of each kind after very many of another *)
Late == {Scen(File1(At([i \in 1 .. n |-> c], n, x), 100), <<>>, <<x>>, 0) : n \in {18, 34, 66, 70, 130, N(260, 520)}, c \in {"x2", "e2"}, x \in {"p1", "e1", "r1", "x1"}}
(* lists of very many different identities, the right one somewhere among them *)
DistinctIds(n, i, x) == [j \in 1 .. n |-> IF j = i THEN x ELSE "x" \o ToString(j + 50)]
ManyIds(hit) ==
    {Scen(File1(rl, 100), <<>>, DistinctIds(n, i, IF hit THEN rl[1] ELSE "x49"), 0) : rl \in {<<"x1">>, <<"x1", "e1">>},
        <<n, i>> \in {<<a, b>> \in {20, 40, 70, 130, N(260, 520)} \X (1 .. 600) : b \in {1, 17, 33, 65, 129, a} /\ b <= a}}
(* keys that share their four-byte tag, RSA keys of unusual sizes, every password with every other *)
Twins == {<<"e31", "e32">>, <<"e32", "e31">>, <<"r31", "r32">>, <<"r32", "r31">>}
(* keys with a zero byte or a line feed at an end of something *)
Edges == {"e33", "e34", "e35", "e36", "e37", "e38", "e39", "x33", "x34", "x35", "x36", "x37", "x38", "x39", "r33", "r34"}
Sized == {"r21", "r22", "r23", "r24", "r25", "r27"}
Words == {"p1", "p2", "p3", "p4", "p6", "p7", "p8"} \cup {"p" \o ToString(i) : i \in 21 .. 34}
TwinsOpen == UNION {{Scen(File1(rl, 30), <<>>, ids, 0) : rl \in {<<t[1]>>, <<t[1], t[2]>>, <<t[2], t[1]>>, <<"x1", t[1], "e1", t[2]>>, <<t[1], t[1]>>},
        ids \in {<<t[1]>>, <<t[2], t[1]>>, <<t[1], t[2]>>, <<t[2], "x3", t[1]>>, <<t[2], t[2], t[1]>>}} : t \in Twins}
TwinsShut == UNION {{Scen(File1(rl, 30), <<>>, ids, 0) : rl \in {<<t[1]>>, <<"x1", t[1]>>, <<t[1], t[1]>>, <<t[1], "r1">>}, ids \in {<<t[2]>>, <<t[2], "x3">>, <<t[2], t[2]>>}} : t \in Twins}
            \cup {After(<<Try(1, <<t[1]>>), Try(1, <<t[2]>>)>>, Scen(File1(<<t[1]>>, 30), <<>>, <<t[2]>>, 0)) : t \in Twins}
SizedOpen == {Scen(File1(rl[1], 30), <<>>, rl[2], 0) : rl \in UNION {{<<<<s>>, <<s>>>>, <<<<"x1", s, "r1">>, <<"r2", s>>>>} : s \in Sized}}
SizedShut == {Scen(File1(<<s[1]>>, 30), <<>>, <<s[2]>>, 0) : s \in {<<a, b>> \in (Sized \cup {"r1"}) \X (Sized \cup {"r2"}) : a # b /\ Pick(1 .. N(3, 1)) = 1}} \cup
             {Scen(File1(<<s[1]>>, 30), <<>>, <<s[2]>>, 0) : s \in {<<a, b>> \in (Edges \cup {"e1"}) \X (Edges \cup {"e2"}) : a # b /\ Pick(1 .. N(2, 1)) = 1}}
WordsOpen == {Scen(File1(<<p>>, 30), <<>>, ids, 0) : <<p, ids>> \in UNION {{<<q, <<q>>>>, <<q, <<Pick(Words), q>>>>} : q \in Words}}
WordsShut == {Scen(File1(<<p[1]>>, 30), <<>>, <<p[2]>>, 0) : p \in {<<a, b>> \in Words \X Words : a # b}}
C01 == Late \cup ManyIds(TRUE) \cup TwinsOpen \cup SizedOpen \cup WordsOpen \cup Texts(0) \cup Crowds(0) \cup Solo(N(2, 3)) \cup Long(N(250, 3000)) \cup LenSweep \cup Orders \cup Histories(Base, {"x3", "e3", "r2", "p2"}, N(150, 2000))

(* C02: nobody else does *)
OutPool == {"x5", "x6", "r2", "r3", "e5", "e6", "p2", "p3", "p8", "x7"}
InPool == {"x1", "x2", "r1", "r4", "e1", "e2", "p1", "p4", "p6"}
Outsiders(n) ==
    {LET len == Pick(1 .. 6) m == Pick(0 .. 6)
     IN  Scen(File1(RandList(InPool, len), Pick(SmallLens)), <<>>, RandList(OutPool, m), 0) : k \in 1 .. n}
Single == {Scen(File1(rl, 5), <<>>, ids, 0) : rl \in Lists(InPool, 1, N(1, 2)), ids \in Lists(OutPool, 0, N(2, 2))}
(* the reader's own file 2 supplies stanzas, MACs, nonces *)
Foreign ==
    {Scen(<<File(rl, 30), File(<<"x5", "r2">>, 40)>>, es, ids, 0)
        : rl \in {<<"x1">>, <<"r1", "x1">>, <<"e1">>, <<"p1">>},
          ids \in {<<"x5">>, <<"r2">>, <<"r2", "x5">>},
          es \in {<<E("H.ins", i, 1, 2, "")>> : i \in 1 .. 2} \cup
                 {<<E("H.repl", i, 1, 2, "")>> : i \in 1 .. 2} \cup
                 {<<E("H.ins", i, 1, 2, ""), E("M.other", 0, 0, 2, "")>> : i \in 1 .. 2} \cup
                 {<<E("H.repl", i, 1, 2, ""), E("M.remac", 0, 0, 2, "")>> : i \in 1 .. 2} \cup
                 {<<E("H.repl", i, 1, 2, ""), E("M.remac", 0, 0, 2, ""), E("N.other", 0, 0, 2, "")>> : i \in 1 .. 2} \cup
                 {<<E("H.repl", 1, 1, 2, ""), E("M.remac", 0, 0, 2, ""), E("N.other", 0, 0, 2, ""), E("P.all", 0, 0, 2, "")>>} \cup
                 {<<E("M.other", 0, 0, 2, "")>>, <<E("M.remac", 0, 0, 2, "")>>, <<E("N.other", 0, 0, 2, "")>>}}
OutCrowds(z) == {Scen(File1(Crowd(n), 100), <<>>, [j \in 1 .. m |-> Pick({"x3", "x4", "r3", "e3", "p2"})], 0) : n \in {1, 20, N(130, 300)}, m \in {1, 20, N(60, 150)}}
C02 == ManyIds(FALSE) \cup TwinsShut \cup SizedShut \cup WordsShut \cup OutCrowds(0) \cup Outsiders(N(400, 4000)) \cup Single \cup Foreign \cup Histories(InPool, {"x5", "r2", "e5", "p2"}, N(150, 2000))

---------------------------------------------------------------------------
(* C03 / C04 *)
Two(len1, len2) == <<File(<<"x1", "e1">>, len1), File(<<"x1", "x2">>, len2)>>
Chunks(len) == IF len = 0 THEN 1 ELSE (len + 65535) \div 65536
PayLens == {0, 1, 40, 65535, 65536, 65537, 131072, 140000}
Distinct(es) == \A a, b \in DOMAIN es : a # b => <<es[a].op, es[a].i, es[a].w>> # <<es[b].op, es[b].i, es[b].w>>
NoSwapSelf(e) == ~(e.op \in {"P.swap", "H.swap"} /\ e.i = e.j)

OneEdit == {Scen(Two(len, l2), <<e>>, <<"x1">>, 0) :
               <<len, l2, e>> \in {<<a, b, x>> \in PayLens \X {20, 140000} \X PayloadEdits(3, 3) :
                     NoSwapSelf(x) /\ x.i <= Larger(Chunks(a), Chunks(b))}}


Multi(n) ==
    {LET es == [i \in 1 .. Pick(2 .. 3) |-> Pick({x \in PayloadEdits(3, 3) : NoSwapSelf(x)})]
     IN  Scen(Two(Pick(PayLens), Pick(PayLens)), IF Distinct(es) THEN es ELSE <<es[1]>>, <<"x1">>, 0) : k \in 1 .. n}
(* every bit of the payload of a small file, every prefix of small and larger files *)
BitSweep == {Scen(Two(len, 20), <<E("P.edit", 1, j, 0, "flip")>>, <<"x1">>, 0) : len \in {0, 9}, j \in 0 .. 8 * 25 - 1}
    \cup {Scen(Two(9, 20), <<E("N.flip", 0, j, 0, "")>>, <<"x1">>, 0) : j \in 0 .. 127}
PrefixSweep ==
    {Scen(Two(30, 20), <<E("P.trunc", 0, j, 0, "")>>, <<"x1">>, 0) : j \in 0 .. 45} \cup
    {Scen(Two(30, 20), <<E("N.cut", 0, j, 0, "")>>, <<"x1">>, 0) : j \in 0 .. 15} \cup
    {Scen(Two(30, 20), <<E("H.rawcut", j, 0, 0, "")>>, <<"x1">>, 0) : j \in 0 .. 400} \cup
    {Scen(Two(200000, 20), <<E("P.trunc", i, j, 0, "")>>, <<"x1">>, 0)
        : i \in 0 .. 3, j \in {0, 1, 2, 15, 16, 17, 18, 31, 32, 33, 1000, 3391, 3407}}
AppendSweep == {Scen(Two(len, 20), <<E("P.app", 0, j, 0, "byte")>>, <<"x1">>, 0) : len \in {0, 9, 65536}, j \in 0 .. 255}
BigFile == \* more chunks than one byte of the counter can tell apart
    LET n == N(258, 270) B == <<File(<<"x1">>, 65536 * n + 5), File(<<"x1">>, 20)>> IN
    {Scen(B, <<>>, <<"x1">>, 0)} \cup
    {Scen(B, <<e>>, <<"x1">>, 0) : e \in {E("P.swap", 1, 257, 0, ""), E("P.swap", 2, 258, 0, ""),
        E("P.drop", 257, 0, 0, ""), E("P.trunc", 256, 0, 0, ""), E("P.trunc", 257, 0, 0, ""), E("P.dup", 256, 0, 0, "")}}
(* a reader that has seen the genuine file before *)
Seen(S) == {After(<<Try(1, <<"x1">>), Try(2, <<"x1">>)>>, s) : s \in S}
C03 == OneEdit \cup Multi(N(600, 8000)) \cup BitSweep \cup PrefixSweep \cup AppendSweep \cup BigFile \cup
       Seen({s \in OneEdit : s.files[1].len \in {40, 65537} /\ s.files[2].len = 20})

Hdr(l) == CASE l = 1 -> <<"x1", "e1">> [] l = 2 -> <<"x1">> [] l = 3 -> <<"r1", "p1">>
            [] l = 4 -> <<"e1", "x1", "r1">> [] l = 5 -> <<"p1">>
            [] l = 6 -> <<"u1", "x1">> [] l = 7 -> <<"x1", "u2", "e1", "u3">>
Reader(l) == CASE l = 1 -> {<<"x1">>, <<"e1">>, <<"x1", "e1">>} [] l = 2 -> {<<"x1">>}
               [] l = 3 -> {<<"r1">>, <<"p1">>} [] l = 4 -> {<<"e1">>, <<"r1", "x1">>}
               [] l = 5 -> {<<"p1">>} [] l = 6 -> {<<"x1">>} [] l = 7 -> {<<"x1">>, <<"e1">>}
HeadFiles(l, g) == <<File(Hdr(l), 25), File(g, 35)>>
HOne == UNION {{Scen(HeadFiles(l, g), <<e>>, ids, 0)
                  : g \in {<<"x1", "r1">>, <<"x2", "p1">>}, ids \in Reader(l),
                    e \in {x \in HeaderEdits(Len(Hdr(l)), 2) : NoSwapSelf(x)}} : l \in 1 .. 7}
HMulti(n) ==
    {LET l == Pick(1 .. 7)
         es == [i \in 1 .. Pick(2 .. 4) |-> Pick({x \in HeaderEdits(3, 2) : NoSwapSelf(x)})]
     IN  Scen(HeadFiles(l, Pick({<<"x1", "r1">>, <<"x2", "p1">>, <<"e1", "x1">>, <<"u1", "x1">>})),
              IF Distinct(es) THEN es ELSE <<es[1]>>, Pick(Reader(l)), 0) : k \in 1 .. n}
(* parts of header and payload of two genuine files combined *)
HMix(n) ==
    {LET es == [i \in 1 .. Pick(2 .. 4) |->
                   Pick({x \in HeaderEdits(2, 2) \cup PayloadEdits(1, 1) : x.g = 2 \/ x.op = "H.drop"})]
     IN  Scen(HeadFiles(Pick({1, 2, 4, 6, 7}), Pick({<<"x1", "r1">>, <<"x2", "x1">>})),
              IF Distinct(es) THEN es ELSE <<es[1]>>, Pick({<<"x1">>, <<"x2">>, <<"x1", "x2">>}), 0) : k \in 1 .. n}
HSweep ==
    {Scen(HeadFiles(2, <<"x1">>), <<E("H.rawflip", i, j, 0, "")>>, <<"x1">>, 0) : i \in 0 .. 122, j \in 0 .. 7} \cup
    {Scen(HeadFiles(2, <<"x1">>), <<E("H.rawdel", i, 0, 0, "")>>, <<"x1">>, 0) : i \in 0 .. 122} \cup
    {Scen(HeadFiles(2, <<"x1">>), <<E("H.rawins", i, j, 0, "")>>, <<"x1">>, 0)
        : i \in 0 .. 122, j \in N({10, 32, 61, 65}, {0, 9, 10, 13, 32, 33, 43, 45, 61, 65, 194, 255})} \cup
    {Scen(HeadFiles(2, <<"x1">>), <<E("M.rawflip", i, j, 0, "")>>, <<"x1">>, 0) : i \in 0 .. 42, j \in 0 .. 7} \cup
    (IF Thorough THEN {Scen(HeadFiles(4, <<"x1">>), <<E("H.rawflip", i, j, 0, "")>>, <<"x1">>, 0) : i \in 0 .. 620, j \in 0 .. 7}
                      \cup {Scen(HeadFiles(4, <<"x1">>), <<E("H.rawins", i, j, 0, "")>>, <<"x1">>, 0) : i \in 0 .. 620, j \in {10, 32, 61}}
     ELSE {})
C04 == HOne \cup HMulti(N(600, 8000)) \cup HMix(N(300, 4000)) \cup HSweep \cup
       {After(<<Try(1, s.ids), Try(2, <<"x1">>)>>, s) : s \in {h \in HOne : h.files[2].rcpts[1] = "x1" /\ h.files[1].rcpts \in {<<"x1">>, <<"x1", "e1">>}}}

---------------------------------------------------------------------------
Result == CASE Prop = "C01" -> C01 [] Prop = "C02" -> C02 [] Prop = "C03" -> C03 [] Prop = "C04" -> C04

VARIABLE done
Init == done = JsonSerialize(IOEnv.OUT, SetToSeq(Result))
Next == FALSE /\ done' = done
GenSpec == Init /\ [][Next]_done
=============================================================================
