----------------------------- MODULE GenAgeResolve -----------------------------
EXTENDS AgeResolve, TLC, Json, IOUtils, SequencesExt
VARIABLE z0

Thorough == IOEnv.TIER = "thorough"
N(quick, thorough) == IF Thorough THEN thorough ELSE quick
Pick(S) == RandomElement(S)
I(k, n) == [k |-> k, n |-> n, d |-> ""]
D(x, d) == [x EXCEPT !.d = d]

AgeKeys == {"x1", "x2", "x3", "x4"}
SshKeys == {"e1", "e2", "r1", "r2", "r3"}
KeyNames == AgeKeys \cup SshKeys
BadForms == {"agechar", "ageshort", "ageword", "age1", "agetrailing", "ageprivate", "rsaword", "rsashort", "rsagarbage", "rsaed", "edrsa",
             "edshort", "edword", "edcut", "rsacut"}
(* with bytes that are not text: only files and downloads have such *)
BadBytes == {"agebyte", "agebytes", "agebytetail"}
(* names of files, users and pages, dressed up as someone might do *)
Dressed == {"angle", "angleurl", "dquote", "squote", "paren", "bracket", "comma", "semicolon", "colon", "mdlink", "globstar", "globq", "globset",
            "globall", "percent", "fragment", "input", "dash", "dquoteurl", "octoat", "gh", "gitlab", "urlis", "fileis", "slashed", "sshurl",
            "protorel", "tildeuser", "winenv", "braces", "wordbackslash"} \cup
            (* names of labels, dressed up *)
            {"labelat", "labelgroup", "labelalias", "labelstar", "labelvar", "labelamp", "labelplus", "labelnot", "labelminus", "labelmail", "labelparen", "labelangle",
             "labelpercent", "labelcomma", "labelcolon", "labelbrace", "labelbracket", "labelquote", "labelequal", "labeltilde", "labeldot", "labels"}
NothingForms == {"longcomment", "longerword", "blank", "spaces", "comment", "commentkey", "commentssh", "commentnel", "commentls", "commentvt", "commentff", "commentfs",
                 "word", "ecdsa", "dss", "sk", "dirname", "dangling", "unicode", "optionkey", "missingpath", "ftp", "wordkey", "githubword", "nul", "homepath", "fileurl",
                 "upperurl", "include", "atfile", "envpath", "uppergithub", "bareurl", "keycomma"} \cup Dressed \cup
             {"backslash", "commentbackslash", "commentquote", "commenttriple", "githubspace", "githubslash", "recipient", "dashr", "dashi", "source", "subst", "backtick", "pipe"}
(* a nothing that one can type as a name or write as an alias value *)
ValueNothing == {"hash", "hashword", "slashes", "semi", "word", "dirname", "dangling", "unicode", "missingpath", "ftp", "githubword", "homepath", "fileurl", "atfile", "envpath", "bareurl"} \cup Dressed
TopNothing == (ValueNothing \ {"hash", "hashword"}) \cup {"blank", "spaces", "comment", "commentkey", "ecdsa", "dss", "sk", "optionkey", "wordkey"}
Labels == {"team", "bob", "alice", "rec"}
FileNames == {"bob", "rec.txt", "sub/list.pub", "age.txt"}
PlainFiles == {"bob", "rec.txt", "sub/list.pub"}
(* some names differ in the case of letters only *)
UrlNames == {"https://example.org/a.keys", "http://example.net/b?x=1", "https://example.org/moved", "https://example.org/A.Keys", "https://example.org/a.keys?Who=Me&n=1",
             "https://example.org/a.keys?who=me&n=1"}
Users == {"octo", "bob", "Octo-Cat", "octo-cat", "OCTO"}
Words == Labels \cup PlainFiles
Decos == {"", "lead", "trail", "tab", "both"}
SshDecos == Decos \cup {"comment", "commentu", "commentnel", "commentls"}
(* what a line of a list can be *)
LineItems == {I("key", k) : k \in KeyNames} \cup {I("bad", b) : b \in BadForms \cup BadBytes} \cup {I("nothing", f) : f \in NothingForms}
       \cup {I("name", n) : n \in Words} \cup {I("url", u) : u \in UrlNames} \cup {I("github", u) : u \in Users}
       \cup {D(I("name", n), d) : n \in PlainFiles, d \in {"abs", "dot"}}
(* other ways to write the name of a file (that is not a label) *)
Spelled == {D(I("name", n), d) : n \in {"rec.txt", "sub/list.pub"}, d \in {"abs", "dot"}}
ValueItems == {I("key", k) : k \in AgeKeys} \cup {I("bad", b) : b \in {"agechar", "ageshort", "ageword", "age1", "rsaword", "edword"}}
       \cup {I("nothing", f) : f \in ValueNothing} \cup {I("name", n) : n \in Words} \cup {I("url", u) : u \in UrlNames}
       \cup {I("github", u) : u \in Users \cup {"nobody"}}
TopItems == {I("key", k) : k \in KeyNames} \cup {I("bad", b) : b \in BadForms} \cup {I("nothing", f) : f \in TopNothing}
       \cup {I("name", n) : n \in Words \cup {"nowhere"}} \cup {I("url", u) : u \in UrlNames \cup {"https://example.org/none"}}
       \cup {I("github", u) : u \in Users \cup {"nobody"}}

Nls == {"lf", "lf", "crlf"}
F(n, ls) == [name |-> n, lines |-> ls, nl |-> Pick(Nls), term |-> Pick(BOOLEAN), as |-> Pick({"plain", "plain", "plain", "link", "rellink", "hard"})]
Types == {"text/plain", "text/plain; charset=utf-8", "application/octet-stream", ""}
U(n, st, ls, to) == [name |-> n, status |-> st, lines |-> ls, to |-> to, nl |-> Pick(Nls), term |-> Pick(BOOLEAN), type |-> Pick(Types),
                     chunked |-> Pick(BOOLEAN)]
A(l, vs) == [label |-> l, values |-> vs, gap |-> Pick({" ", "  ", "tab", ""})]
Case(x, al, fs, us) == [x |-> x, aliases |-> al, files |-> fs, urls |-> us, how |-> Pick({"home", "path"})]

Org == "https://example.org/a.keys"
Octo == GithubUrl("octo")
K(n) == I("key", n)
(* a world in which everything has a meaning *)
Rich == [al |-> <<A("team", <<K("x1"), I("name", "rec.txt")>>), A("bob", <<K("x2")>>), A("rec", <<I("github", "octo"), I("url", Org)>>)>>,
         fs |-> <<F("rec.txt", <<K("x3"), K("r1")>>), F("bob", <<K("e1")>>), F("sub/list.pub", <<K("e2"), I("nothing", "comment"), K("x4")>>)>>,
         us |-> <<U(Org, "ok", <<K("r2"), K("x4")>>, ""), U(Octo, "ok", <<K("r3"), K("e2")>>, ""),
                  U("http://example.net/b?x=1", "404", <<K("x2")>>, ""), U(GithubUrl("bob"), "ok", <<>>, ""),
                  U("https://example.org/moved", "redirect", <<K("x1")>>, Org), U(GithubUrl("Octo-Cat"), "ok", <<K("x3"), K("r2")>>, ""),
                  U(GithubUrl("octo-cat"), "ok", <<K("e1")>>, ""), U("https://example.org/A.Keys", "ok", <<K("x3")>>, ""),
                  U("https://example.org/a.keys?Who=Me&n=1", "ok", <<K("r1")>>, "")>>]
RichCase(x) == Case(x, Rich.al, Rich.fs, Rich.us)
(* every text: named directly; the only value of an alias; a value between others; a line of a file, of a download and of a user's keys;
   named through an alias as well *)
Forms(z) ==
    {RichCase(D(x, d)) : x \in TopItems, d \in {"", "both"}} \cup {RichCase(x) : x \in Spelled} \cup
    {[RichCase(I("name", "alice")) EXCEPT !.aliases = @ \o <<A("alice", v)>>] :
        v \in UNION {{<<y>>, <<K("x4"), y, K("x1")>>} : y \in ValueItems \cup Spelled}} \cup
    {Case(I("name", "rec.txt"), Rich.al, <<F("rec.txt", ls), F("bob", <<K("e1")>>)>>, Rich.us) :
        ls \in UNION {{<<y>>, <<K("x4"), y, K("r1")>>} : y \in LineItems}} \cup
    {Case(x, Rich.al, Rich.fs, <<U(Org, "ok", <<K("x1"), y, K("e2")>>, ""), U(Octo, "ok", <<K("r1"), y, K("x2")>>, ""),
                                 U("https://example.org/moved", "redirect", <<>>, Org)>>) :
        x \in {I("url", Org), I("github", "octo"), I("name", "rec"), I("url", "https://example.org/moved")}, y \in LineItems} \cup
    {Case(I("name", "rec.txt"), <<>>, <<F("rec.txt", <<D(K(k), d), K("x4")>>)>>, <<>>) : k \in KeyNames, d \in Decos} \cup
    {Case(x, <<>>, <<F("rec.txt", <<D(K(k), d), K("x4")>>)>>, <<U(Org, "ok", <<D(K(k), d), K("x4")>>, "")>>) :
        x \in {I("name", "rec.txt"), I("url", Org)}, k \in {"e1", "r1"}, d \in SshDecos}
(* aliases over several lines, of nothing, that name themselves or one another *)
Aliases(z) ==
    {Case(I("name", n), al, Rich.fs, Rich.us) : n \in {"alice", "team"}, al \in
        {<<A("alice", <<K("x1")>>), A("team", <<K("x4")>>), A("alice", <<K("x2"), K("x3")>>), A("alice", <<I("name", "rec.txt")>>)>>,
         <<A("alice", <<>>)>>, <<A("alice", <<>>), A("alice", <<K("x1")>>)>>,
         <<A("alice", <<K("x1")>>), A("alice", <<K("x1")>>)>>, <<A("alice", <<K("x1"), K("x1")>>)>>,
         <<A("alice", <<I("name", "alice")>>)>>, <<A("alice", <<I("name", "team")>>), A("team", <<K("x1")>>)>>,
         <<A("alice", <<I("name", "team")>>), A("team", <<I("name", "alice")>>)>>,
         <<A("alice", <<I("name", "bob")>>), A("bob", <<K("x1")>>)>>,          \* bob is a file, too
         <<A("alice", <<I("name", "bob"), K("x2")>>)>>}} \cup
    {Case(I("name", "rec.txt"), Rich.al, <<F("rec.txt", [i \in 1 .. n |-> K(IF i % 3 = 0 THEN "x1" ELSE IF i % 3 = 1 THEN "e2" ELSE "r1")])>>, <<>>)
        : n \in {0, 1, 2, 50, 300}} \cup
    {Case(x, <<A("alice", <<x, K("x1")>>)>>, Rich.fs, <<U(Org, st, <<K("x1")>>, to), U(Octo, st2, <<K("x2"), K("r1")>>, Org)>>) :
        x \in {I("url", Org), I("github", "octo")}, to \in {Octo, "http://example.net/none"},
        st \in {"ok", "404", "403", "500", "503", "refused", "truncated", "reset", "redirect"},
        st2 \in {"ok", "404", "redirect"}} \cup
    {Case(I("name", "alice"), <<A("alice", <<K("x3"), x, K("x1")>>)>>, Rich.fs, <<U(Org, st, <<K("x1")>>, Octo), U(Octo, st2, <<K("x2"), K("r1")>>, Org)>>) :
        x \in {I("url", Org), I("github", "octo")}, st \in {"ok", "404", "500", "refused", "truncated", "reset", "redirect"}, st2 \in {"ok", "404", "redirect"}}

(* names that differ in case or by a little *)
NearNames == {"team", "Team", "TEAM", "bob", "Bob", "teams", "tea", "rec.txt", "Rec.txt", "rec", "rec.txt.bak", "team.txt"}
NearCases(z) ==
    {Case(I("name", n), <<A(m, <<K("x1")>>)>>, <<>>, <<>>) : n \in NearNames, m \in NearNames} \cup
    {Case(I("name", n), <<>>, <<F(m, <<K("x1")>>)>>, <<>>) : n \in NearNames, m \in NearNames} \cup
    {Case(I("name", n), <<A(n1, <<K("x1")>>), A(n2, <<K("x2"), I("name", n3)>>)>>, <<F(n3, <<K("x3")>>)>>, <<>>) :
        <<n, n1, n2, n3>> \in {<<Pick(NearNames), Pick(NearNames), Pick(NearNames), Pick(NearNames)>> : n0 \in 1 .. N(150, 2000)}}
(* long lists everywhere *)
Cycle(n, S) == LET q == SetToSeq(S) IN [i \in 1 .. n |-> K(q[((i * i) % Len(q)) + 1])]
Ends(n, S, y) == [Cycle(n, S) EXCEPT ![n] = y]
Longs(z) ==
    UNION {{Case(I("name", "rec.txt"), <<>>, <<F("rec.txt", Ends(n, {"x1"}, K("r2")))>>, <<>>),
            Case(I("name", "rec.txt"), <<>>, <<F("rec.txt", Ends(n, KeyNames, I("bad", "rsashort")))>>, <<>>),
            Case(I("url", Org), <<>>, <<>>, <<U(Org, "ok", Ends(n, {"x1", "e1"}, K("x4")), "")>>),
            Case(I("github", "octo"), <<>>, <<>>, <<U(Octo, "ok", Ends(n, {"r1"}, K("e2")), "")>>),
            Case(I("github", "octo"), <<>>, <<>>, <<U(Octo, "ok", Ends(n, {"r1"}, I("bad", "edshort")), "")>>),
            Case(I("name", "team"), <<A("team", Ends(n, {"x1", "x2"}, K("x4")))>>, <<>>, <<>>),
            Case(I("name", "team"), [i \in 1 .. n |-> A(IF i = n \/ (i % 2) = 0 THEN "team" ELSE "bob", <<K(IF i = n THEN "x4" ELSE "x1")>>)], <<>>, <<>>),
            Case(I("name", "alice"), [i \in 1 .. n |-> IF i = n THEN A("alice", <<I("name", "rec.txt")>>) ELSE A("u" \o ToString(i), <<K("x1")>>)],
                 <<F("rec.txt", Ends(n, {"x2"}, K("r3")))>>, <<>>),
            Case(I("name", "team"), <<A("team", [i \in 1 .. n |-> IF i < n THEN I("name", "rec.txt") ELSE I("url", Org)])>>,
                 <<F("rec.txt", <<K("x2")>>)>>, <<U(Org, "ok", <<K("r1")>>, "")>>),
            Case(I("name", "rec.txt"), <<>>, <<F("rec.txt", [i \in 1 .. n |-> IF i = n THEN K("e1") ELSE I("nothing", "comment")])>>, <<>>)} :
        n \in {20, 33, 51, 65, 101, 130, N(257, 1100)}}
Seq1(S, k) == [i \in 1 .. k |-> RandomElement(S)]
Likely(S, T) == IF Pick(1 .. 8) = 1 THEN Pick(T) ELSE Pick(S)
Harmless == {x \in LineItems : x.k # "bad"}
RandLines(k) == [i \in 1 .. k |-> LET x == Likely(IF Pick({1, 2}) = 1 THEN {y \in LineItems : y.k = "key"} ELSE Harmless, LineItems)
                                  IN D(x, IF x.k = "key" /\ x.n \in SshKeys THEN Pick(SshDecos) ELSE IF x.k = "nothing" THEN "" ELSE Pick(Decos))]
GoodValues == {x \in ValueItems : x.k = "key" \/ (x.k = "name" /\ x.n \in FileNames) \/ x.k \in {"url", "github"}}
RandValues(k) == [i \in 1 .. k |-> Likely(GoodValues, ValueItems)]
Subset(S) == {x \in S : Pick(1 .. 4) # 1}
RandomCases(z) ==
    {Case(LET x == Likely({y \in TopItems : y.k \in {"name", "url", "github"}}, TopItems) IN D(x, IF x.k = "nothing" THEN "" ELSE Pick(Decos)),
          [i \in 1 .. Pick(0 .. 5) |-> A(Pick(Labels), RandValues(Pick(0 .. 4)))],
          LET fs == SetToSeq(Subset(PlainFiles)) IN [i \in DOMAIN fs |-> F(fs[i], RandLines(Pick(0 .. 5)))],
          LET us == SetToSeq(Subset(UrlNames \cup {GithubUrl(u) : u \in Users}))
          IN  [i \in DOMAIN us |-> U(us[i], Likely({"ok"}, {"404", "redirect", "500", "truncated"}), RandLines(Pick(0 .. 4)),
                                     Pick(UrlNames \cup {Octo, "http://example.net/none"}))]) : n0 \in 1 .. N(900, 12000)}
All(z) == Forms(0) \cup Aliases(0) \cup NearCases(0) \cup Longs(0) \cup RandomCases(0)
GenInit == z0 = 0 /\ JsonSerialize(IOEnv.OUT, SetToSeq(All(0)))
GenNext == FALSE /\ z0' = z0
GenSpec == GenInit /\ [][GenNext]_z0
=============================================================================
