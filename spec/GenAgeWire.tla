----------------------------- MODULE GenAgeWire -----------------------------
(* Scenarios for C05 (files the code writes) and C06 (files others write).   *)
EXTENDS AgeWire, Contents, TLC, Json, IOUtils, SequencesExt

Prop == IOEnv.PROP
Thorough == IOEnv.TIER = "thorough"
N(quick, thorough) == IF Thorough THEN thorough ELSE quick
Pick(S) == RandomElement(S)
RandList(S, n) == [i \in 1 .. n |-> RandomElement(S)]
Lists(S, lo, hi) == UNION {[1 .. n -> S] : n \in lo .. hi}

Kinds == {"x1", "r1", "r3", "r4", "e1", "p1"}
All == {"x1", "x2", "x3", "r1", "r2", "r3", "r4", "r5", "e1", "e2", "e3", "p1", "p2", "p4", "p6"}
Sized == {"r21", "r22", "r23", "r24", "r25", "r27"}      \* RSA keys of unusual sizes
Twins == {<<"e31", "e32">>, <<"r31", "r32">>}     \* keys with the same tag
(* keys with a zero byte or a line feed at an end of something *)
Edges == {"e33", "e34", "e35", "e36", "e37", "e38", "e39", "x33", "x34", "x35", "x36", "x37", "x38", "x39", "r33", "r34"}
Lens == {0, 1, 16, 100, 65535, 65536, 65537, 131072, 131073, 200000}
Splits == {0, 1, 2, 3}     \* how the driver cuts the plaintext into writes

Big(k) == {65536 * m + d : m \in 1 .. k, d \in {-1, 0, 1}}
Huge == {65536 * m + d : m \in {15, 16, 17, 31, 32, 33, 64, 65, 127, 128, 129, 255, 256, 257} \cup (IF Thorough THEN {511, 512, 513, 1024, 1100} ELSE {}), d \in {0, 1, -1}}
C05(z) ==
    {[rcpts |-> rl, len |-> 40, split |-> 0] : rl \in UNION {{<<r>>, <<"x1", r>>, <<r, "r1">>, <<r, r>>} : r \in Sized \cup Edges}
        \cup UNION {{<<t[1]>>, <<t[2]>>, <<t[1], t[2]>>, <<t[2], "x1", t[1]>>} : t \in Twins}} \cup
    {[rcpts |-> rl, len |-> Pick({0, 1, 40}), split |-> 0] : rl \in Lists(Kinds, 1, N(2, 3))} \cup
    (* often enough for zero bytes to turn up where random bytes are *)
    {[rcpts |-> <<"x1", "r3", "e1", "p1">>, len |-> len, split |-> 0] : len \in 0 .. N(400, 1500)} \cup
    {[rcpts |-> RandList(All, Pick(1 .. 12)), len |-> Pick(Lens), split |-> Pick(Splits)]
        : n0 \in 1 .. N(80, 800)} \cup
    {[rcpts |-> [i \in 1 .. n |-> IF i % 11 = 5 THEN Pick(All) ELSE Pick({"x1", "x2", "x3"})], len |-> 3, split |-> 0] : n \in {20, 33, 65, 130, N(260, 1100)}} \cup
    {[rcpts |-> <<"x1">>, len |-> len, split |-> IF len > 20000000 THEN Pick({0, 1}) ELSE Pick(Splits)]
        : len \in (0 .. N(120, 600)) \cup Big(N(4, 10)) \cup Huge \cup {65536 * 258 + 3}}

(* C06 *)
Grease == {"grease", "x25519", "X25519x", "X2551", "ssh-ed25519x", "ssh-dss", "scrypt2", "SCRYPT", "-", "?!~",
           "a", "ssh-rsa-sha2", "piv-p256", "tag/1", "v1", "joint-type"}
GArgs == {<<>>, <<"a">>, <<"---">>, <<"->">>, <<"a", "b", "c">>, <<"0">>, <<"=+/">>, <<"-->", "---", "x">>,
          <<"abcdefghijklmnopqrstuvwxyz0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ+/abcdefghijkl">>}
GLens == {0, 1, 2, 3, 16, 32, 47, 48, 49, 95, 96, 97, 144, 192, 500}
G == {[kind |-> "grease", type |-> t, args |-> a, n |-> n] : t \in Grease, a \in GArgs, n \in GLens}
Letters(n) == FoldLeft(LAMBDA a, i : a \o "q", "", [i \in 1 .. n |-> i])
Long(z) ==   \* types, arguments, argument lists and bodies of any length
    {[kind |-> "grease", type |-> "grease", args |-> a, n |-> n] : n \in {0, 32},
        a \in {<<Letters(k)>> : k \in {100, 255, 256, 500, 1000, 1023, 1024, 4100, N(9000, 70000)}} \cup {[i \in 1 .. k |-> "a"] : k \in {30, 100, 300, N(1000, 5000)}}} \cup
    {[kind |-> "grease", type |-> Letters(k), args |-> <<>>, n |-> 1] : k \in {64, 100, 300, 1100, N(5000, 70000)}} \cup
    {[kind |-> "grease", type |-> "grease", args |-> <<"a">>, n |-> n] : n \in {767, 768, 769, 1000, 4800, 6143, 6144, 12288, 20000, 50000, 100000} \cup (IF Thorough THEN {200000, 800000} ELSE {})}
K(name) == [kind |-> "known", type |-> name, args |-> <<>>, n |-> 0]
Scen(st, ids, len) == [stanzas |-> st, ids |-> ids, len |-> len]
Place(st, g, i) == SubSeq(st, 1, i) \o <<g>> \o SubSeq(st, i + 1, Len(st))
C06(z) ==
    {Scen(<<K("r1"), K(r), K("x2")>>, ids, 40) : <<r, ids>> \in UNION {{<<r, <<r>>>>, <<r, <<"r2", r>>>>} : r \in Sized}} \cup
    UNION {{Scen(st, ids, 40) : st \in {<<K(t[1])>>, <<K(t[2]), K(t[1])>>, <<K(t[1]), K("x1"), K(t[2])>>}, ids \in {<<t[1]>>, <<t[2], t[1]>>, <<t[1], t[2]>>}} : t \in Twins} \cup
    {Scen(Place(<<K("x1")>>, g, i), <<"x1">>, 10)
        : <<g, i>> \in {<<a, b>> \in G \X (0 .. 1) : a.args = <<"a">> \/ a.n = 0 \/ a.type = "grease"}} \cup
    {Scen(Place(<<K("x1")>>, g, i), <<"x1">>, 10) : g \in Long(0), i \in 0 .. 1} \cup
    {LET k == Pick(1 .. 5)
         base == [i \in 1 .. k |-> K(Pick(All))]
         me == Pick(1 .. k)
         g1 == Place(base, Pick(G), Pick(0 .. k))
         g2 == Place(g1, Pick(G), Pick(0 .. k + 1))
         g3 == Place(g2, Pick(G), Pick(0 .. k + 2))
     IN  Scen(Pick({base, g1, g2, g3}), Pick({<<base[me].type>>, <<"x9", base[me].type>>,
              <<"r2", "e9", "p3", base[me].type>>}), Pick(Lens)) : n0 \in 1 .. N(400, 5000)} \cup
    {Scen(<<K("x1")>>, <<"x1">>, len) : len \in (0 .. N(120, 600)) \cup Big(N(4, 10)) \cup Huge \cup {65536 * 258 + 3}} \cup
    {Scen([i \in 1 .. k |-> IF i = k THEN K("e1") ELSE K("x2")], <<"e1">>, 5) : k \in {10, 20, 50, 130, 260, N(700, 2200)}} \cup
    {Scen([i \in 1 .. k |-> IF i = 1 THEN K("x1") ELSE Pick(G)], <<"x1">>, 5) : k \in {10, 20, 50, 130, N(260, 1100)}}

VARIABLE done
(* what the plaintext looks like *)
Text(z) == IF Pick(1 .. 3) = 1 THEN Pick(Contents) ELSE "1"
Texts(z) == IF Prop = "C05" THEN {[rcpts |-> <<"x1">>, len |-> n, split |-> Pick(Splits), text |-> t] : t \in Contents, n \in ContentLens}
            ELSE {Scen(<<K("x1")>>, <<"x1">>, n) @@ [text |-> t] : t \in Contents, n \in ContentLens}
Cases == {c @@ [text |-> Text(0)] : c \in (CASE Prop = "C05" -> C05(0) [] Prop = "C06" -> C06(0))} \cup Texts(0)
Init == done = JsonSerialize(IOEnv.OUT, SetToSeq(Cases))
Next == FALSE /\ done' = done
GenSpec == Init /\ [][Next]_done
=============================================================================
