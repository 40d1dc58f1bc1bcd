----------------------------- MODULE MCAgeResolve -----------------------------
EXTENDS AgeResolve
CONSTANTS AliasLen, OtherLen, ListLen
VARIABLES w, x, s
vars == <<w, x, s>>

I(k, n) == [k |-> k, n |-> n]
Items == {I("key", "k1"), I("key", "k2"), I("bad", ""), I("nothing", ""), I("name", "a"), I("name", "b"), I("name", "f"),
          I("url", "u"), I("github", "h")}
Small == {I("key", "k1"), I("bad", ""), I("nothing", ""), I("name", "a"), I("name", "f"), I("url", "u"), I("github", "h")}
Seqs(S, n) == UNION {[1 .. k -> S] : k \in 0 .. n}
Al(n, v) == [label |-> n, values |-> v]
AliasFiles == {<<Al("a", v), Al("b", u)>> : v \in Seqs(Items, AliasLen), u \in Seqs(Small, OtherLen)}
         \cup {<<Al("a", v), Al("a", u)>> : v \in Seqs(Small, 1), u \in Seqs(Small, 1)}
(* b is an alias and a file *)
Url(n, st, ls, to) == [name |-> n, status |-> st, lines |-> ls, to |-> to]
Urls == {<<Url("u", "ok", ls, ""), Url(GithubUrl("h"), "ok", <<I("key", "k2"), I("name", "f")>>, "")>> : ls \in Seqs(Small, ListLen)}
   \cup {<<Url("u", st, <<I("key", "k1")>>, GithubUrl("h")), Url(GithubUrl("h"), st2, <<I("key", "k2")>>, "u")>> :
             st \in {"404", "redirect"}, st2 \in {"ok", "404", "redirect"}}
Files == {<<[name |-> "f", lines |-> ls], [name |-> "b", lines |-> <<I("key", "k2"), I("url", "u")>>]>> : ls \in Seqs(Small, ListLen)}
Worlds == [aliases : AliasFiles, files : Files, urls : Urls]

Init == w \in Worlds /\ x \in {i \in Items : i.k \notin {"bad", "nothing"} /\ i.n # "k2"} /\ s = Start(x)
Next == s.todo # <<>> /\ s.state = "run" /\ s' = Step(s, w) /\ UNCHANGED <<w, x>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Exact == /\ s.state = "error" => ~Meaning(w, x).ok
         /\ Done(s) => Meaning(w, x) = Res(s.keys, TRUE)
NeverMore == s.touched \subseteq Touches(w, x)
(* no run is longer than what a single expansion of every list can need *)
Bounded == Len(s.todo) <= 30
Ends == <>(s.todo = <<>>)
=============================================================================
