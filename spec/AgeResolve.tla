------------------------------ MODULE AgeResolve ------------------------------
(***************************************************************************)
(* What a recipient name given to 'encrypt' denotes (R01) and what may be  *)
(* read and fetched to find out (R02).                                     *)
(*                                                                         *)
(* A text is an item [k, n]:                                               *)
(*   key      the literal public key n                                     *)
(*   bad      a damaged literal key (n: how)                               *)
(*   nothing  text that denotes nothing (n: which)                         *)
(*   name     a word that may be an alias label and may be a file name     *)
(*   url, github                                                           *)
(* A world w has  aliases: sequence of lines [label, values],              *)
(*                files:   sequence of [name, lines],                      *)
(*                urls:    sequence of [name, status, lines, to].          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANT Weak

RangeOf(q) == {q[i] : i \in DOMAIN q}
RECURSIVE Flat(_)
Flat(qq) == IF qq = <<>> THEN <<>> ELSE Head(qq) \o Flat(Tail(qq))

IsLabel(w, n) == \E i \in DOMAIN w.aliases : w.aliases[i].label = n
Mine(w, n) == SelectSeq(w.aliases, LAMBDA a : a.label = n)
AllValues(w, n) == LET mine == Mine(w, n) IN Flat([i \in DOMAIN mine |-> mine[i].values])
ValuesOf(w, n) ==
    LET mine == Mine(w, n) IN
    IF "lastLine" \in Weak THEN mine[Len(mine)].values
    ELSE IF "firstLine" \in Weak THEN mine[1].values
    ELSE AllValues(w, n)
IsFile(w, n) == \E i \in DOMAIN w.files : w.files[i].name = n
LinesOf(w, n) == (CHOOSE f \in RangeOf(w.files) : f.name = n).lines
NoSuchUrl == [name |-> "", status |-> "404", lines |-> <<>>, to |-> ""]
UrlOf(w, n) == IF \E u \in RangeOf(w.urls) : u.name = n THEN CHOOSE u \in RangeOf(w.urls) : u.name = n ELSE NoSuchUrl
GithubUrl(n) == "https://github.com/" \o n \o ".keys"

---------------------------------------------------------------------------
(* The meaning, without any machinery *)
Res(keys, ok) == [keys |-> keys, ok |-> ok]
Wrong == Res(<<>>, FALSE)
LineMeaning(x) == CASE x.k = "key" -> Res(<<x.n>>, TRUE) [] x.k = "bad" -> Wrong [] OTHER -> Res(<<>>, TRUE)
Join(rs) == IF \E i \in DOMAIN rs : ~rs[i].ok THEN Wrong ELSE Res(Flat([i \in DOMAIN rs |-> rs[i].keys]), TRUE)
ListMeaning(lines) == Join([i \in DOMAIN lines |-> LineMeaning(lines[i])])
RECURSIVE Fetched(_, _, _)       \* the chain of addresses visited
Fetched(w, n, hops) ==
    LET u == UrlOf(w, n) IN
    IF u.status = "redirect" /\ hops > 0 THEN <<n>> \o Fetched(w, u.to, hops - 1) ELSE <<n>>
Last(q) == q[Len(q)]
UrlMeaning(w, n) == LET u == UrlOf(w, Last(Fetched(w, n, 20))) IN IF u.status = "ok" THEN ListMeaning(u.lines) ELSE Wrong
ValueMeaning(w, x) ==
    CASE x.k = "name" /\ IsFile(w, x.n) -> ListMeaning(LinesOf(w, x.n))
      [] x.k = "url" -> UrlMeaning(w, x.n)
      [] x.k = "github" -> UrlMeaning(w, GithubUrl(x.n))
      [] OTHER -> LineMeaning(x)
Some(r) == IF r.ok /\ r.keys # <<>> THEN r ELSE Wrong
Meaning(w, x) ==
    IF x.k = "name" /\ IsLabel(w, x.n)
    THEN LET v == AllValues(w, x.n) IN Join([i \in DOMAIN v |-> Some(ValueMeaning(w, v[i]))])
    ELSE ValueMeaning(w, x)
(* what may be touched on the way *)
ValueTouches(w, x) ==
    CASE x.k = "name" /\ IsFile(w, x.n) -> {"file:" \o x.n}
      [] x.k = "url" -> RangeOf(Fetched(w, x.n, 20))
      [] x.k = "github" -> RangeOf(Fetched(w, GithubUrl(x.n), 20))
      [] OTHER -> {}
Touches(w, x) ==
    IF x.k = "name" /\ IsLabel(w, x.n) THEN UNION {ValueTouches(w, v) : v \in RangeOf(AllValues(w, x.n))}
    ELSE ValueTouches(w, x)

---------------------------------------------------------------------------
(* The resolver, one text after the other.  todo holds texts with the way  *)
(* they came: "top" (named by the user), "value" (of an alias), "line" (of *)
(* a list), and marks that close a value.                                  *)
Work(x, how) == [k |-> x.k, n |-> x.n, how |-> how]
Mark(k) == [k |-> k, n |-> "", how |-> "mark"]
Start(x) == [todo |-> <<Work(x, "top")>>, keys |-> <<>>, marks |-> <<>>, touched |-> {}, state |-> "run", hops |-> 0]
AsLines(lines) == [i \in DOMAIN lines |-> Work(lines[i], "line")]
AsValues(vs) == Flat([i \in DOMAIN vs |-> <<Mark("begin"), Work(vs[i], "value"), Mark("end")>>])
MayAlias(how) == how = "top" \/ (how = "value" /\ "aliasInAlias" \in Weak) \/ (how = "line" /\ "aliasInList" \in Weak)
MayFile(how) == how # "line" \/ "fileInList" \in Weak
MayUrl(how) == how # "line" \/ "urlInList" \in Weak
MayGithub(how) == how # "line" \/ "githubInList" \in Weak
Fail(s) == [s EXCEPT !.state = "error", !.todo = <<>>]
Fetch(s, w, n, rest, how) ==
    LET u == UrlOf(w, n)
        t == [s EXCEPT !.touched = @ \cup {n}]
    IN  CASE u.status = "ok" -> [t EXCEPT !.todo = AsLines(u.lines) \o rest, !.hops = 0]
          [] u.status = "redirect" /\ s.hops < 20 ->
                [t EXCEPT !.todo = <<[k |-> "url", n |-> u.to, how |-> how]>> \o rest, !.hops = @ + 1]
          [] OTHER -> IF "ignoreFailure" \in Weak THEN [t EXCEPT !.todo = rest] ELSE Fail(t)
Step(s, w) ==
    LET x == Head(s.todo)
        rest == Tail(s.todo)
        t == [s EXCEPT !.todo = rest]
    IN  CASE x.k = "begin" -> [t EXCEPT !.marks = <<Len(s.keys)>> \o @]
          [] x.k = "end" ->
                IF Len(s.keys) = Head(s.marks) /\ "emptyValue" \notin Weak THEN Fail(s) ELSE [t EXCEPT !.marks = Tail(@)]
          [] x.k = "name" /\ MayAlias(x.how) /\ IsLabel(w, x.n) -> [t EXCEPT !.todo = AsValues(ValuesOf(w, x.n)) \o rest]
          [] x.k = "name" /\ MayFile(x.how) /\ IsFile(w, x.n) ->
                [t EXCEPT !.todo = AsLines(LinesOf(w, x.n)) \o rest, !.touched = @ \cup {"file:" \o x.n}]
          [] x.k = "url" /\ MayUrl(x.how) -> Fetch(s, w, x.n, rest, x.how)
          [] x.k = "github" /\ MayGithub(x.how) -> Fetch(s, w, GithubUrl(x.n), rest, x.how)
          [] x.k = "key" -> [t EXCEPT !.keys = Append(@, x.n)]
          [] x.k = "bad" -> IF "skipBad" \in Weak THEN t ELSE Fail(s)
          [] OTHER -> t
Done(s) == s.todo = <<>> /\ s.state # "error"
=============================================================================
