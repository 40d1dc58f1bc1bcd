----------------------------- MODULE GenAgeCommand -----------------------------
EXTENDS AgeCommand, Contents, TLC, Json, IOUtils, SequencesExt
VARIABLE z0

Prop == IOEnv.PROP
Thorough == IOEnv.TIER = "thorough"
N(quick, thorough) == IF Thorough THEN thorough ELSE quick
Pick(S) == RandomElement(S)
I(k, n) == [k |-> k, n |-> n, d |-> ""]
K(n) == I("key", n)
F(n, ls) == [name |-> n, lines |-> ls, nl |-> "lf", term |-> TRUE]
A(l, vs) == [label |-> l, values |-> vs]
U(n, st, ls, to) == [name |-> n, status |-> st, lines |-> ls, to |-> to]
Org == "https://example.org/a.keys"

Al == <<A("team", <<K("x1"), I("name", "rec.txt")>>), A("solo", <<K("x2")>>), A("rec", <<I("github", "octo"), I("url", Org)>>),
        A("empty", <<>>), A("broken", <<K("x1"), I("nothing", "word")>>), A("badkey", <<K("x1"), I("bad", "agechar")>>)>>
Fs == <<F("rec.txt", <<K("x3"), K("r1")>>), F("mixed", <<K("e2"), I("nothing", "comment"), K("x4")>>), F("none.txt", <<I("nothing", "comment")>>),
        F("hurt.txt", <<K("x1"), I("bad", "agechar")>>), F("deep.txt", <<I("name", "mixed"), I("name", "team")>>)>>
(* the pages the driver serves *)
Us == <<U(Org, "ok", <<K("r2"), K("x4")>>, ""), U("https://github.com/octo.keys", "ok", <<K("r3"), K("e2")>>, ""),
        U("http://example.net/b?x=1", "404", <<K("x2")>>, ""), U("https://github.com/bob.keys", "ok", <<>>, ""),
        U("https://example.org/moved", "redirect", <<K("x1")>>, Org), U("https://github.com/Octo-Cat.keys", "ok", <<K("x4")>>, "")>>
GoodNames == {K("x1"), K("x2"), K("e1"), K("r1"), K("r2"), I("name", "team"), I("name", "solo"), I("name", "rec"), I("name", "rec.txt"),
              I("name", "mixed"), I("url", Org), I("url", "https://example.org/moved"), I("github", "octo"), I("github", "Octo-Cat")}
LocalNames == {K("x1"), K("x2"), K("e1"), K("r1"), I("name", "team"), I("name", "solo"), I("name", "rec.txt"), I("name", "mixed")}
BadNames == {I("bad", "agechar"), I("bad", "rsashort"), I("bad", "edrsa"), I("nothing", "word"), I("nothing", "dirname"), I("nothing", "dangling"),
             I("nothing", "ecdsa"), I("nothing", "comment"), I("nothing", "blank"),
             I("nothing", "dash"), I("nothing", "spaces"), I("nothing", "dquote"), I("nothing", "comma"), I("nothing", "globstar"), I("nothing", "percent"), I("nothing", "homepath"),
             I("nothing", "envpath"), I("nothing", "atfile"), I("nothing", "octoat"), I("nothing", "hash"), I("nothing", "keycomma"), I("name", "empty"), I("name", "broken"), I("name", "badkey"), I("name", "none.txt"),
             I("name", "hurt.txt"), I("name", "deep.txt"), I("url", "http://example.net/b?x=1"), I("url", "https://example.org/none"),
             I("github", "bob"), I("github", "nobody")}
(* what is encrypted *)
Stream(z) == IF Pick(1 .. 3) = 1 THEN Pick({"1", "2", "3"}) ELSE Pick(Contents)
(* how the command is called *)
Way(z) == [err |-> Pick({"pipe", "closed", "tty"}), so |-> Pick({"open", "closed"}), si |-> Pick({"open", "closed", "tty"}),
           spell |-> Pick({"short", "long", "attached", "joined"}), order |-> Pick({"before", "reverse", "after", "mixed"}),
           env |-> Pick({"plain", "odd"}),
           name |-> IF Pick(BOOLEAN) THEN "plain" ELSE Pick({"space", "uni", "dash", "raw", "deep", "dots", "glob", "vars", "percent"})]
Enc(x, pw, armor, src, dst, n) ==
    [k |-> "enc", way |-> Way(0), x |-> x, pw |-> pw, armor |-> armor, src |-> src, dst |-> dst, place |-> "other", n |-> n, stream |-> Stream(0),
     cut |-> -1, off |-> 0, kill |-> FALSE, unbuf |-> Pick({FALSE, FALSE, TRUE}), real |-> FALSE, aliases |-> Al, files |-> Fs, urls |-> Us]
Sizes == {0, 1, 100, 5000}
BigSizes == {65535, 65536, 65537, 131072, 150000}
Srcs == {"file", "stdin", "dash", "pipe"} \cup (IF Prop = "L06" THEN {} ELSE {"offset", "fifo", "devin"})
Dsts == {"file", "new", "stdout", "dash"} \cup (IF Prop = "L06" THEN {} ELSE {"pipeout", "append", "devout"})
(* a terminal shows what is decrypted *)
Shown == Dsts \cup (IF Prop = "L06" THEN {} ELSE {"term"})
RECURSIVE Draw(_, _)
Draw(S, n) == IF n = 0 THEN <<>> ELSE <<Pick(S)>> \o Draw(S, n - 1)

(* passwords; each of a group is near the others *)
Groups == {{"p1", "p2", "p3", "p22", "p23", "p30", "p33", "p8"}, {"p6", "p21"}, {"p24", "p25"}, {"p7", "p26", "p31"}, {"p27"}, {"p28"}, {"p29"}, {"p32"}, {"p34"}}
Words == UNION Groups
Some60(z) == [i \in 1 .. Pick({17, 33, 60, 130}) |-> K("x" \o ToString(i))]
(* L01: every kind of name alone, after and before a good one, and in longer lists; every destination *)
L01(z) ==
    {Enc(x, Pick({"", "p1"}), a, "proc", d, 0) : x \in {<<K("x1")>>, <<K("e1"), I("name", "solo")>>}, d \in Dsts, a \in BOOLEAN} \cup
    {Enc(x, "", Pick(BOOLEAN), Pick(Srcs), d, Pick(Sizes)) : d \in Dsts,
        x \in {<<y>> : y \in GoodNames \cup BadNames} \cup {<<K("x2"), y>> : y \in BadNames} \cup {<<y, K("x2")>> : y \in BadNames}} \cup
    {Enc(x, p, a, Pick(Srcs), d, 200) : d \in Dsts \cup {"tty", "ttydash"}, a \in BOOLEAN,
        x \in {<<>>, <<K("x1")>>, <<I("nothing", "word")>>}, p \in {"", "p1"}} \cup
    {Enc(Pick({<<>>, <<K("x1")>>}), w, Pick(BOOLEAN), Pick(Srcs), Pick(Dsts), Pick(Sizes)) : w \in Words} \cup
    {Enc(Some60(0), Pick({"", "p1"}), Pick(BOOLEAN), Pick(Srcs), Pick(Dsts), Pick(Sizes)) : n0 \in 1 .. N(4, 20)} \cup
    {Enc(Some60(0) \o <<y>>, Pick({"", "p1"}), Pick(BOOLEAN), Pick(Srcs), Pick(Dsts), Pick(Sizes)) : y \in {I("bad", "agechar"), I("name", "none.txt"), I("nothing", "word")}} \cup
    {Enc(<<y>>, "p6", Pick(BOOLEAN), "file", Pick({"file", "new"}), 300) : y \in BadNames \cup {K("x3")}} \cup
    {LET m == Pick(1 .. 6) IN Enc(IF Pick({1, 2, 3}) = 1 THEN Draw(GoodNames \cup BadNames, m) ELSE Draw(GoodNames, m), Pick({"", "", "p1", "p2"}),
         Pick(BOOLEAN), Pick(Srcs), Pick(Dsts), Pick(Sizes \cup {65536})) : n0 \in 1 .. N(220, 3000)} \cup
    {LET m == Pick(1 .. 3) IN [Enc(Draw(LocalNames \cup {I("nothing", "word"), I("bad", "agechar")}, m), Pick({"", "p1"}), Pick(BOOLEAN),
         Pick(Srcs), Pick(Dsts), Pick(Sizes)) EXCEPT !.real = TRUE] @@ [pool |-> <<"x1", "x2", "e1", "r1", "x3", "e2", "x4", "p1">>]
        : n0 \in 1 .. N(12, 80)}

(* L03: unreadable input, failing output at every kind of place, death at every kind of place, output over the input *)
Sinkless3 == {"full", "stdoutfull", "nodir", "epipe", "closed"}
Faulty == {"missing", "dir", "mem", "closed", "stdindir", "eio"}
Cuts == {<<0, 0>>, <<0, 1>>, <<0, 21>>, <<0, 22>>, <<1000, -1>>, <<1000, -2>>, <<1000, -15>>, <<1000, -16>>, <<1000, -17>>, <<1000, -33>>, <<1000, -40>>,
         <<1000, -65>>, <<1000, 0>>, <<1000, 20>>, <<500, 0>>, <<950, 0>>}
Recip(z) == Pick({<<K("x1")>>, <<K("e1"), K("x2")>>, <<K("r1")>>, <<I("name", "team")>>})
L03(z) ==
    {Enc(Recip(0), Pick({"", "p1"}), a, "proc", d, 0) : d \in Dsts, a \in BOOLEAN} \cup
    {Enc(Recip(0), Pick({"", "", "", "p1"}), a, s, d, n) : s \in Faulty, d \in {"file", "new", "stdout"}, a \in BOOLEAN, n \in {0, 1000}} \cup
    {Enc(Recip(0), "", a, "file", d, n) : d \in Sinkless3, a \in BOOLEAN, n \in {0, 10, 5000, 70000}} \cup
    {[Enc(Recip(0), Pick({"", "", "", "p1"}), a, Pick(Srcs), d, n) EXCEPT !.cut = c[1], !.off = c[2], !.kill = k, !.unbuf = u]
        : c \in Cuts, d \in {"file", "stdout"}, a \in BOOLEAN, n \in {0, 300, 66000}, k \in BOOLEAN, u \in BOOLEAN} \cup
    {[Enc(Recip(0), "", Pick(BOOLEAN), Pick(Srcs), Pick({"file", "new", "stdout", "dash"}), Pick({0, 1, 50, 300, 8000, 8192, 65536, 65537, 140000}))
        EXCEPT !.cut = Pick(0 .. 1000), !.off = Pick(-20 .. 20), !.kill = Pick(BOOLEAN)] : n0 \in 1 .. N(150, 4000)} \cup
    {[Enc(Recip(0), "", a, "file", d, n) EXCEPT !.place = "same", !.cut = c[1], !.off = c[2]] :
        d \in {"file", "link"}, a \in BOOLEAN, n \in {0, 1, 1000, 70000}, c \in {<<-1, 0>>, <<500, 0>>, <<1000, -1>>, <<1000, 0>>}} \cup
    {[Enc(<<y>>, "", a, Pick(Srcs), d, 2000) EXCEPT !.real = TRUE, !.cut = c[1], !.off = c[2], !.kill = k, !.unbuf = u]
        @@ [pool |-> <<"x1", "x2">>] : y \in {K("x1")}, a \in BOOLEAN, d \in {"file", "stdout"}, c \in {<<1000, -1>>, <<1000, -16>>, <<1000, 0>>, <<500, 0>>},
          k \in {FALSE}, u \in BOOLEAN} \cup
    {[Enc(<<K("x1")>>, "", a, s, d, 1000) EXCEPT !.real = TRUE] @@ [pool |-> <<"x1", "x2">>] :
        s \in Faulty, a \in BOOLEAN, d \in {"file", "stdout"}} \cup
    {[Enc(<<K("x1")>>, "", a, "file", d, 1000) EXCEPT !.real = TRUE, !.unbuf = u] @@ [pool |-> <<"x1", "x2">>] :
        a \in BOOLEAN, d \in Sinkless3, u \in BOOLEAN}

---------------------------------------------------------------------------
NoDmg == [op |-> "none", a |-> 0, b |-> 0]
Dm(op, a, b) == [op |-> op, a |-> a, b |-> b]
Dec(rcpts, ids, armor, asarmor, dmg, src, dst, n) ==
    [k |-> "dec", way |-> Way(0), rcpts |-> rcpts, armor |-> armor, asarmor |-> asarmor, dmg |-> dmg, src |-> src, dst |-> dst, place |-> "other", n |-> n,
     stream |-> Stream(0), cut |-> -1, off |-> 0, unbuf |-> Pick({FALSE, FALSE, TRUE}), real |-> FALSE,
     keystxt |-> ids.keystxt, keyfiles |-> ids.keyfiles, ssh |-> ids.ssh, pw |-> ids.pw]
None == <<"-">>
Ids(kt, kf, ssh, pw) == [keystxt |-> kt, keyfiles |-> kf, ssh |-> ssh, pw |-> pw]
Good == {<<<<"x1">>, Ids(<<"x1">>, <<>>, None, "")>>, <<<<"x1">>, Ids(None, <<<<"x1">>>>, None, "")>>, <<<<"x2">>, Ids(<<"x1">>, <<<<"x3">>, <<"x4", "x2">>>>, None, "")>>,
         <<<<"e1">>, Ids(None, <<>>, <<"e1">>, "")>>, <<<<"r1">>, Ids(None, <<>>, <<"r1", "e1">>, "")>>, <<<<"p1">>, Ids(None, <<>>, None, "p1")>>,
         <<<<"x1", "e1", "r2">>, Ids(<<"x3">>, <<>>, <<"e2", "r2">>, "")>>, <<<<"p6", "x1">>, Ids(<<"x1">>, <<>>, None, "p2")>>,
         <<<<"x1", "p2">>, Ids(<<"x2">>, <<<<"x3">>>>, <<"r1">>, "p2")>>, <<<<"?", "x1">>, Ids(<<"x1">>, <<>>, None, "")>>,
         <<<<"e1">>, Ids(None, <<>>, <<"broken", "e1">>, "")>>, <<<<"x2", "?">>, Ids(<<"x2">>, <<>>, <<"broken">>, "")>>}
BadIds == {<<<<"x1">>, Ids(<<"x2">>, <<>>, None, "")>>, <<<<"x1">>, Ids(None, <<>>, None, "")>>, <<<<"x1">>, Ids(<<>>, <<<<>>>>, <<>>, "")>>,
           <<<<"e1">>, Ids(<<"x1">>, <<>>, <<"e2", "r1">>, "")>>, <<<<"p1">>, Ids(None, <<>>, None, "p2")>>, <<<<"p1">>, Ids(<<"x1">>, <<>>, <<"r1">>, "")>>,
           <<<<"x1", "r1", "p1">>, Ids(<<"x2">>, <<<<"x3", "x4">>>>, <<"e1", "r2">>, "p2")>>, <<<<>>, Ids(<<"x1">>, <<>>, None, "")>>}
OneGood(z) == Pick(Good)
Many(n, k) == [i \in 1 .. n |-> "x" \o ToString(((i * 7 + k) % 200) + 10)]
(* many identities of which one fits, or none *)
Long(z) ==
    LET n == Pick({20, 65, 130}) i == Pick(1 .. n) m == Many(n, 0) IN
    {<<<<m[i]>>, Ids(m, <<>>, None, "")>>, <<<<"e1", m[n]>>, Ids(None, <<m>>, None, "")>>, <<<<m[n]>>, Ids(None, [j \in 1 .. n |-> <<m[j]>>], None, "")>>,
     <<Many(n, 3) \o <<"x1">>, Ids(<<"x1">>, <<>>, None, "")>>, <<<<"x1">>, Ids(m, <<m>>, None, "")>>,
     <<[j \in 1 .. n |-> "?"] \o <<"x1">>, Ids(<<"x2", "x1">>, <<>>, None, "")>>}
Damages(z) ==
    {Dm("end", 0, b) : b \in {1, 2, 3, 4, 15, 16, 17, 28, 29, 30, 33, 34, 35, 64, 65, 66, 100}} \cup {Dm("cut", a, b) : a \in {0, 100, 300, 500, 700, 900, 990}, b \in {0, 1}} \cup
    {Dm("flip", a * 20, b) : a \in 0 .. 49, b \in {0, 5}} \cup {Dm("flip", 999, b) : b \in 0 .. 7} \cup {Dm("append", 0, b) : b \in {1, 16, 17, 80}} \cup
    {Dm("lines", a, b) : a \in 0 .. 7, b \in 0 .. 1} \cup {Dm(op, 0, 0) : op \in {"twice", "empty", "crlf", "label", "noend", "nobegin"}} \cup
    {Dm("nonce", 0, b) : b \in 0 .. 16} \cup
    {Dm("lead", 0, b) : b \in {1, 3}} \cup {Dm("junk", 1, b) : b \in {1, 100, 5000}} \cup {Dm("text", a, 0) : a \in {1, 50}}
L02(z) ==
    {LET g == OneGood(0) IN Dec(g[1], g[2], a, a, d, Pick(Srcs), Pick(Shown), n) : a \in BOOLEAN, n \in N({1048577, 5000001}, {1048577, 5000001, 17000000}),
        d \in {NoDmg, Dm("end", 0, 1), Dm("flip", 999, 1), Dm("flip", 500, 1)}} \cup
    UNION {{Dec(<<w>>, Ids(None, <<>>, None, v), a, a, NoDmg, Pick(Srcs), Pick(Shown), 100) : a \in {Pick(BOOLEAN)}, v \in g, w \in g} : g \in Groups} \cup
    {Dec(g[1], g[2], a, a, NoDmg, Pick(Srcs), Pick(Shown), 100) : a \in {Pick(BOOLEAN)}, g \in UNION {Long(n0) : n0 \in 1 .. N(2, 10)}} \cup
    {LET g == OneGood(0) IN Dec(g[1], g[2], a, a, d, Pick(Srcs), Pick(Shown), Pick({0, 20, 1000, 66000})) :
        a \in BOOLEAN, d \in {x \in Damages(0) : TRUE}} \cup
    {Dec(b[1], b[2], a, a, NoDmg, Pick(Srcs), d, 100) : b \in BadIds, a \in BOOLEAN, d \in Shown} \cup
    {[Dec(b[1], b[2], FALSE, FALSE, NoDmg, "file", d, 100) EXCEPT !.way.si = "tty", !.way.err = e] : b \in BadIds, d \in Shown, e \in {"pipe", "tty"}} \cup
    {Dec(g[1], g[2], a, b, NoDmg, Pick(Srcs), d, n) : g \in {OneGood(0)}, a \in BOOLEAN, b \in BOOLEAN, d \in Shown, n \in {0, 100}} \cup
    {LET g == OneGood(0) IN Dec(g[1], g[2], a, a, Dm(op, 0, b), Pick(Srcs), Pick(Shown), n) : a \in BOOLEAN, n \in {65535, 65536, 65537, 131072, 140000},
        op \in {"end"}, b \in {1, 16, 17, 16 + 1, 65552, 65553, 65600}} \cup
    {LET g == OneGood(0) IN Dec(g[1], g[2], a, a, NoDmg, s, Pick(Shown), 500) : a \in BOOLEAN, s \in Faulty \ {"eio"}} \cup
    {LET g == OneGood(0) IN [Dec(g[1], g[2], a, a, NoDmg, Pick(Srcs), d, n) EXCEPT !.cut = c[1], !.off = c[2], !.unbuf = u] :
        a \in BOOLEAN, n \in {1, 500, 70000}, d \in {"file", "stdout"}, u \in BOOLEAN, c \in {<<0, 0>>, <<500, 0>>, <<1000, -1>>, <<1000, 0>>}} \cup
    {LET g == OneGood(0) IN Dec(g[1], g[2], Pick(BOOLEAN), FALSE, NoDmg, "file", d, 500) : d \in Sinkless3} \cup
    {LET g == OneGood(0) IN [Dec(g[1], g[2], a, a, d, "file", l, n) EXCEPT !.place = "same"] :
        a \in BOOLEAN, n \in {0, 1000, 70000}, l \in {"file", "link"}, d \in {NoDmg, Dm("end", 0, 5), Dm("flip", 900, 1)}} \cup
    {LET g == IF Pick(1 .. 5) = 1 THEN Pick(BadIds) ELSE OneGood(0)
         a == Pick(BOOLEAN)
         d == CASE Pick(1 .. 4) = 1 -> NoDmg [] Pick(1 .. 2) = 1 -> Dm("flip", Pick(0 .. 999), Pick(0 .. 62)) [] OTHER -> Dm("cut", Pick(0 .. 999), Pick(0 .. 30))
     IN  Dec(g[1], g[2], a, IF Pick(1 .. 8) = 1 THEN ~a ELSE a, d, Pick(Srcs), Pick(Shown), Pick({0, 1, 300, 5000, 65536, 70000})) : n0 \in 1 .. N(250, 6000)} \cup
    {LET g == Pick({y \in Good \cup BadIds : y[2].pw = ""}) IN [Dec(g[1], g[2], a, a, d, Pick(Srcs), Pick(Shown), 3000) EXCEPT !.real = TRUE] :
        a \in BOOLEAN, d \in {NoDmg, Dm("end", 0, 3), Dm("flip", 950, 2), Dm("flip", 300, 2), Dm("text", 3, 0)}}

---------------------------------------------------------------------------
(* L05: both commands, every combination of where input comes from and output goes *)
Round(x, pw, armor, ids, src, dst, src2, dst2, n) ==
    [k |-> "round", way |-> Way(0), x |-> x, pw |-> pw, armor |-> armor, src |-> src, dst |-> dst, place |-> "other", n |-> n, stream |-> Stream(0),
     unbuf |-> Pick({FALSE, FALSE, TRUE}), real |-> FALSE, aliases |-> Al, files |-> Fs, urls |-> Us,
     keystxt |-> ids.keystxt, keyfiles |-> ids.keyfiles, ssh |-> ids.ssh, pw2 |-> ids.pw, src2 |-> src2, dst2 |-> dst2, place2 |-> "other"]
(* an identity in every place for an owner of that kind *)
Holding(id) ==
    IF id[1] = "p" THEN {Ids(None, <<>>, None, id[2]), Ids(<<"x4">>, <<>>, <<"r3">>, id[2])}
    ELSE IF id[1] = "s" THEN {Ids(None, <<>>, <<id[2]>>, ""), Ids(<<"x4">>, <<<<"x4">>>>, <<"e2", id[2]>>, "")}
    ELSE {Ids(<<id[2]>>, <<>>, None, ""), Ids(None, <<<<id[2]>>>>, None, ""), Ids(None, <<<<"x4">>, <<"x4", id[2]>>>>, <<"r3">>, ""),
          Ids(<<"x4", id[2]>>, <<>>, None, ""), Ids(<<id[2]>>, <<>>, None, "p2")}
X(n) == <<"x", n>>
S(n) == <<"s", n>>
P(n) == <<"p", n>>
Pairs == {<<<<K("x1")>>, "", X("x1")>>, <<<<K("e1")>>, "", S("e1")>>, <<<<K("r1")>>, "", S("r1")>>, <<<<>>, "p1", P("p1")>>, <<<<>>, "p6", P("p6")>>,
          <<<<K("x2")>>, "p1", P("p1")>>, <<<<K("x2")>>, "p1", X("x2")>>, <<<<I("name", "team")>>, "", X("x3")>>, <<<<I("name", "team")>>, "", S("r1")>>,
          <<<<I("name", "rec.txt")>>, "", X("x3")>>, <<<<I("name", "mixed")>>, "", S("e2")>>, <<<<I("url", Org)>>, "", S("r2")>>,
          <<<<I("github", "octo")>>, "", S("e2")>>, <<<<I("github", "octo"), I("name", "rec")>>, "", S("r3")>>, <<<<I("name", "solo"), K("x1"), K("r2")>>, "", X("x1")>>,
          <<<<I("name", "solo"), K("x1"), K("r2")>>, "p2", S("r2")>>}
Few == {"file", "stdin", "dash", "pipe", "new", "stdout"}
Huge == {1048575, 1048576, 1048577, 4194304, 5000001} \cup (IF Thorough THEN {8388608, 16777217, 30000000} ELSE {16777217})
L05(z) ==
    {LET p == Pick(Pairs) IN Round(p[1], p[2], a, Pick(Holding(p[3])), "proc", d, Pick(Srcs), Pick(Shown), 0) : a \in BOOLEAN, d \in Dsts} \cup
    {LET p == Pick(Pairs) IN [Round(p[1], p[2], Pick(BOOLEAN), Pick(Holding(p[3])), Pick(Srcs), Pick(Dsts), Pick(Srcs), Pick(Shown), n) EXCEPT !.stream = t] :
        t \in Contents, n \in N({300}, {1, 300, 65537})} \cup
    {LET p == Pick(Pairs) IN Round(p[1], p[2], a, Pick(Holding(p[3])), Pick(Srcs), Pick(Dsts), Pick(Srcs), Pick(Shown), n) : a \in BOOLEAN, n \in Huge} \cup
    (* typed at a terminal; many identity files *)
    {LET p == Pick(Pairs) IN Round(p[1], p[2], TRUE, Pick(Holding(p[3])), Pick(Srcs), Pick(Dsts), "typed", Pick(Shown), n) :
        n \in {0, 1, 47, 48, 49, 700, 1000} \cup {Pick(0 .. 3000) : n0 \in 1 .. N(3, 40)}} \cup
    {Round(<<K("x1")>>, "", Pick(BOOLEAN), Ids(None, [j \in 1 .. m |-> IF j = h THEN <<"x1">> ELSE <<"x4">>], None, ""), Pick(Srcs), Pick(Dsts), Pick(Srcs), Pick(Shown), 100) :
        m \in {9, 33, 70}, h \in {1, 9, 33, 70}} \cup
    {Round(<<>>, w, Pick(BOOLEAN), Ids(None, <<>>, None, w), Pick(Srcs), Pick(Dsts), Pick(Srcs), Pick(Shown), Pick(Sizes)) : w \in Words} \cup
    {LET m == Some60(0) IN Round(m, "", Pick(BOOLEAN), Ids(<<"x200">>, <<<<m[Pick(1 .. Len(m))].n>>>>, None, ""), Pick(Srcs), Pick(Dsts), Pick(Srcs), Pick(Shown), Pick(Sizes))
        : n0 \in 1 .. N(4, 20)} \cup
    {Round(p[1], p[2], a, h, Pick(Srcs), Pick(Dsts), Pick(Srcs), Pick(Shown), Pick(Sizes)) : a \in BOOLEAN, <<p, h>> \in
        UNION {{<<q, g>> : g \in Holding(q[3])} : q \in Pairs}} \cup
    {LET p == Pick(Pairs) IN Round(p[1], p[2], a, Pick(Holding(p[3])), q[1], q[2], q[3], q[4], Pick({0, 1, 700, 65536})) :
        a \in BOOLEAN, q \in {y \in Srcs \X Dsts \X Srcs \X Shown : IF {y[1], y[3]} \subseteq Few /\ {y[2], y[4]} \subseteq Few THEN TRUE ELSE Pick(1 .. N(12, 2)) = 1}} \cup
    {LET p == Pick(Pairs) IN Round(p[1], p[2], a, Pick(Holding(p[3])), Pick(Srcs), Pick(Dsts), Pick(Srcs), Pick(Shown), n) : a \in BOOLEAN,
        n \in {0, 1, 2, 15, 16, 17, 31, 32, 33, 47, 48, 49, 63, 64, 65, 8191, 8192, 65535, 65536, 65537, 131071, 131072, 131073, 200000}} \cup
    {LET p == Pick(Pairs) IN [Round(p[1], p[2], a, Pick(Holding(p[3])), "file", d, "file", d2, Pick({0, 1, 700, 70000}))
        EXCEPT !.place = "same", !.place2 = "same"] : a \in BOOLEAN, d \in {"file", "link"}, d2 \in {"file", "link"}} \cup
    {LET p == Pick(Pairs) IN Round(p[1], p[2], Pick(BOOLEAN), Pick(Holding(p[3])), Pick(Srcs), Pick(Dsts), Pick(Srcs), Pick(Shown),
         IF Pick({1, 2, 3}) = 1 THEN Pick(0 .. 200000) ELSE Pick(0 .. 3000)) : n0 \in 1 .. N(120, 4000)} \cup
    {LET p == Pick({q \in Pairs : \A i \in DOMAIN q[1] : q[1][i].k \notin {"url", "github"} /\ q[1][i].n # "rec"})
     IN  [Round(p[1], p[2], Pick(BOOLEAN), Pick(Holding(p[3])), Pick(Srcs), Pick(Dsts), Pick(Srcs), Pick(Shown), Pick(Sizes \cup BigSizes)) EXCEPT !.real = TRUE]
        : n0 \in 1 .. N(16, 150)}

---------------------------------------------------------------------------
(* L06: everything that makes a run end in a different way; what else lies around *)
Modes(z) == <<Pick({256, 384, 416, 420}), Pick({256, 384}), Pick({384, 416, 420, 436, 438, 448, 493, 511, 420 + 1024})>>
Hurts == {w \o ":" \o k : w \in {"keystxt", "keyfile", "ssh"}, k \in {"char", "short", "long", "case", "prefix", "quoted", "comma", "two", "bar", "nonascii", "comment", "zero"}}
More(r, cmd, h) == [r EXCEPT !.stream = Pick({"1", "2", "3"})] @@ [cmd |-> cmd, hurt |-> h, modes |-> Modes(0), shape |-> Pick({"lf", "lf", "crlf", "noend", "blank", "lead"}), room |-> IF Pick(1 .. 6) = 1 THEN Pick({0, 10, 200, 400}) ELSE -1]
Around(z) == Pick({Ids(<<"x3">>, <<>>, <<"e1", "r1">>, ""), Ids(<<"x1", "x2">>, <<>>, None, ""), Ids(None, <<>>, <<"broken">>, "")})
EffEnc(r) == More(r @@ [keystxt |-> Around(0).keystxt, keyfiles |-> <<>>, ssh |-> Around(0).ssh], "encrypt", "")
EffDec(r, h) == More(r, "decrypt", h)
LongWords == {"p1", "p2", "p6", "p7", "p21", "p26"}
L06e(z) ==
    {EffEnc(Enc(x, "", Pick(BOOLEAN), Pick(Srcs), d, Pick(Sizes))) : d \in Dsts, x \in {<<y>> : y \in GoodNames \cup BadNames}} \cup
    {EffEnc(Enc(Pick({<<>>, <<K("x1")>>, <<K("e1"), K("r1")>>, <<I("nothing", "word")>>, <<I("bad", "agechar")>>}), p, Pick(BOOLEAN), s, d, 5000)) :
        p \in LongWords \cup {""}, d \in Dsts \cup Sinkless3 \cup {"tty"}, s \in {Pick(Srcs)}} \cup
    {EffEnc(Enc(Recip(0), Pick({"", "p1"}), a, s, d, 1000)) : a \in BOOLEAN, s \in Faulty, d \in Dsts} \cup
    {EffEnc([Enc(Recip(0), Pick({"", "p1"}), Pick(BOOLEAN), "file", d, n) EXCEPT !.place = "same"]) : d \in {"file", "link"}, n \in {30, 70000}} \cup
    {EffEnc([Enc(Recip(0), "", Pick(BOOLEAN), "file", d, 1000) EXCEPT !.real = TRUE]) : d \in {"file", "new", "stdout", "full"}} \cup
    {EffEnc(Enc(Draw(IF Pick(1 .. 3) = 1 THEN GoodNames \cup BadNames ELSE GoodNames, Pick(1 .. 5)), Pick({"", "p1", "p6"}), Pick(BOOLEAN), Pick(Srcs), Pick(Dsts),
        Pick({24, 100, 5000, 70000}))) : n0 \in 1 .. N(100, 3000)}
L06d(z) ==
    {LET g == OneGood(0) IN EffDec(Dec(g[1], g[2], a, a, NoDmg, Pick(Srcs), d, Pick({24, 1000, 66000})), "") : a \in BOOLEAN, d \in Dsts \cup Sinkless3} \cup
    {EffDec(Dec(g[1], g[2], a, a, NoDmg, Pick(Srcs), Pick(Dsts), 100), "") : g \in Good \cup BadIds, a \in BOOLEAN} \cup
    {LET g == OneGood(0) IN EffDec(Dec(g[1], g[2], a, a, d, Pick(Srcs), Pick(Dsts), Pick({100, 66000, 200000})), "") : a \in BOOLEAN,
        d \in {Dm("end", 0, b) : b \in {1, 15, 16, 17, 64, 100}} \cup {Dm("flip", f * 100, 3) : f \in 0 .. 9} \cup {Dm("flip", 999, 1), Dm("twice", 0, 0), Dm("append", 0, 17),
            Dm("noend", 0, 0), Dm("nobegin", 0, 0), Dm("text", 50, 0), Dm("label", 0, 0), Dm("crlf", 0, 0), Dm("lead", 0, 3)}} \cup
    {EffDec(Dec(<<"x1", "e1", "p1">>, Ids(<<"x1">>, <<<<"x2">>>>, <<"e1", "r1">>, Pick({"", "p1", "p2"})), a, a, NoDmg, Pick(Srcs), Pick(Dsts), 100), h) : h \in Hurts, a \in {Pick(BOOLEAN)}} \cup
    {EffDec(Dec(<<"x1", "p1">>, Ids(<<"x3">>, <<>>, <<"e1">>, w), a, b, NoDmg, Pick(Srcs), Pick(Dsts), 100), "") : w \in LongWords, a \in BOOLEAN, b \in BOOLEAN} \cup
    {LET g == Pick({<<<<w>>, Ids(None, <<>>, None, w)>> : w \in {"p1", "p2"}} \cup Good) IN EffDec(Dec(g[1], g[2], a, a, Dm("nonce", 0, b), Pick(Srcs), Pick(Dsts), 500), "") :
        a \in BOOLEAN, b \in {0, 1, 7, 15, 16}} \cup
    {EffDec([Dec(<<w>>, Ids(None, <<>>, None, w), a, a, d, Pick(Srcs), Pick(Dsts), 500) EXCEPT !.way.err = Pick({"pipe", "tty"})], "") :
        a \in BOOLEAN, w \in {"p1", "p2"}, d \in {Dm("nonce", 0, 0), Dm("nonce", 0, 9), Dm("nonce", 0, 16), Dm("nonce", 0, -1), Dm("nonce", 0, -50), Dm("end", 0, 1), Dm("flip", 999, 1),
            Dm("flip", 1, 1), Dm("empty", 0, 0)}} \cup
    {LET g == OneGood(0) IN EffDec(Dec(g[1], g[2], a, a, NoDmg, s, Pick(Dsts), 500), "") : a \in BOOLEAN, s \in Faulty \ {"eio"}} \cup
    {LET g == OneGood(0) IN EffDec([Dec(g[1], g[2], a, a, Pick({NoDmg, Dm("flip", 900, 1)}), "file", d, 3000) EXCEPT !.place = "same"], "") : d \in {"file", "link"}, a \in BOOLEAN} \cup
    {LET g == Pick({y \in Good \cup BadIds : y[2].pw = ""}) IN EffDec([Dec(g[1], g[2], a, a, Pick({NoDmg, Dm("flip", 900, 1)}), Pick(Srcs), d, 3000) EXCEPT !.real = TRUE], "") :
        a \in BOOLEAN, d \in {"file", "new", "stdout"}} \cup
    {LET g == Pick(Good \cup BadIds)
         a == Pick(BOOLEAN)
     IN  EffDec(Dec(g[1], g[2], a, a, IF Pick(BOOLEAN) THEN NoDmg ELSE Dm("flip", Pick(0 .. 999), Pick(0 .. 62)), Pick(Srcs), Pick(Dsts), Pick({24, 300, 66000})),
         IF Pick(BOOLEAN) THEN "" ELSE Pick(Hurts)) : n0 \in 1 .. N(60, 3000)}
L06g(z) ==
    {More([k |-> "gen", way |-> Way(0), dst |-> d, place |-> "other", unbuf |-> Pick({FALSE, FALSE, TRUE}), real |-> Pick(1 .. 8) = 1, pw |-> "", n |-> n0,
           keystxt |-> Around(0).keystxt, keyfiles |-> <<>>, ssh |-> Around(0).ssh], "generate", "") : d \in Dsts \cup Sinkless3 \cup {"link", "tty"}, n0 \in 1 .. N(5, 60)}

Out == CASE Prop = "L01" -> SetToSeq({c \in L01(0) : "pool" \in DOMAIN c}) \o SetToSeq({c \in L01(0) : "pool" \notin DOMAIN c})
         [] Prop = "L03" -> SetToSeq({c \in L03(0) : "pool" \in DOMAIN c}) \o SetToSeq({c \in L03(0) : "pool" \notin DOMAIN c})
         [] Prop = "L06" -> SetToSeq(L06e(0)) \o SetToSeq(L06d(0)) \o SetToSeq(L06g(0))
         [] Prop = "L02" -> SetToSeq(L02(0)) [] Prop = "L05" -> SetToSeq(L05(0))
GenInit == z0 = 0 /\ JsonSerialize(IOEnv.OUT, Out)
GenNext == FALSE /\ z0' = z0
GenSpec == GenInit /\ [][GenNext]_z0
=============================================================================
