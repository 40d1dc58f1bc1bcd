------------------------------ MODULE AgeEffects ------------------------------
(***************************************************************************)
(* What the commands do to the world around them (L06): files, messages,   *)
(* the terminal, the network.  An effect is a record                       *)
(*   op  "put"     something is written into file f, containing t          *)
(*       "say"     something containing t appears on channel f             *)
(*       "perm"    the permissions of f change                             *)
(*       "make", "remove", "replace"   a name f appears, disappears, means *)
(*                 another file                                            *)
(*       "fetch"   an address f is contacted                               *)
(*       "run"     another program is started                              *)
(* t is "pt" (the plaintext), "pw" (the password), "id" (an identity), "fk" *)
(* (the file key), "ct" or "".                                             *)
(*                                                                         *)
(* cfg:  cmd    "encrypt", "decrypt", "generate"                           *)
(*       names  the addresses each named recipient stands for              *)
(*       pw     a password is asked for                                    *)
(*       place  "new", "old", "same" (the output is the input), "stdout"   *)
(*       stop   where the run fails: a step, or "never"                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANT Weak

Secrets == {"pt", "pw", "id", "fk"}
E(op, f, t) == [op |-> op, f |-> f, t |-> t]
UnionOf(names) == UNION {names[i] : i \in DOMAIN names}
(* what may appear in the output *)
Releases(cmd) == CASE cmd = "encrypt" -> {} [] cmd = "decrypt" -> {"pt"} [] cmd = "generate" -> {"id"}
Outputs(cfg) == IF cfg.place = "same" THEN {"output", "input"} ELSE {"output"}
Permitted(e, cfg) ==
    CASE e.op = "put" -> e.f \in Outputs(cfg) /\ e.t \notin Secrets \ Releases(cfg.cmd)
      [] e.op = "make" -> e.f = "output" /\ cfg.place = "new"
      [] e.op = "say" -> e.t \notin Secrets
      [] e.op = "fetch" -> cfg.cmd = "encrypt" /\ e.f \in UnionOf(cfg.names)
      [] OTHER -> FALSE

---------------------------------------------------------------------------
(* The commands.  fs: the files that are there, with what is in them and   *)
(* their permissions; log: all effects so far.                             *)
Files == {"input", "keys", "lists", "output", "temp"}
There(c) == [there |-> TRUE, c |-> c, perm |-> 1]
Nowhere == [there |-> FALSE, c |-> "", perm |-> 0]
Before(cfg) == [f \in Files |->
    CASE f = "input" -> IF cfg.cmd = "encrypt" THEN There("pt") ELSE There("ct")
      [] f = "keys" -> There("id") [] f = "lists" -> There("list")
      [] f = "output" -> IF cfg.place = "old" THEN There("old") ELSE Nowhere
      [] f = "temp" -> Nowhere]
Target(cfg) == IF cfg.place = "same" THEN "input" ELSE "output"
Start(cfg) == [pc |-> "begin", i |-> 1, fs |-> Before(cfg), log |-> {}, end |-> ""]
W(w) == w \in Weak

Put(s, f, t) ==
    LET there == s.fs[f].there
        new == IF there THEN {} ELSE {E("make", f, "")}
    IN  [s EXCEPT !.fs[f] = [there |-> TRUE, c |-> t, perm |-> IF there THEN @.perm ELSE 1], !.log = @ \cup new \cup {E("put", f, t)}]
Drop(s, f) == [s EXCEPT !.fs[f] = Nowhere, !.log = @ \cup {E("remove", f, "")}]
Chmod(s, f) == [s EXCEPT !.fs[f].perm = 2, !.log = @ \cup {E("perm", f, "")}]
Say(s, ch, t) == [s EXCEPT !.log = @ \cup {E("say", ch, t)}]
Get(s, u) == [s EXCEPT !.log = @ \cup {E("fetch", u, "")}]
To(s, pc) == [s EXCEPT !.pc = pc]
If(b, t, e) == IF b THEN t ELSE e
(* a run that fails says why *)
Fail(s, cfg, t) == [Say(If(W("unlink") /\ s.fs[Target(cfg)].there, Drop(s, Target(cfg)), s), "err", t) EXCEPT !.end = "failed"]
Stops(cfg, pc) == cfg.stop = pc
Deliver(s, cfg, t) ==
    IF cfg.place = "stdout" THEN Say(s, "out:" \o t, "") ELSE Put(s, Target(cfg), t)

EncStep(s, cfg) ==
    CASE s.pc = "begin" -> To(If(W("prefetch"), Get(s, "u9"), s), "names")
      [] s.pc = "names" ->
            IF s.i > Len(cfg.names) THEN To(s, "ask")
            ELSE LET t == [s EXCEPT !.log = @ \cup {E("fetch", u, "") : u \in cfg.names[s.i]}, !.i = @ + 1]
                 IN  IF Stops(cfg, "names") /\ s.i = Len(cfg.names) THEN Fail(t, cfg, "") ELSE t
      [] s.pc = "ask" ->
            IF Stops(cfg, "ask") THEN Fail(s, cfg, If(W("quotePassword") /\ cfg.pw, "pw", ""))
            ELSE LET a == If(cfg.pw, Say(s, "tty", ""), s)
                     b == If(cfg.pw /\ W("echo"), Say(a, "tty", "pw"), a)
                     c == If(cfg.pw /\ W("remember"), Put(b, "temp", "pw"), b)
                 IN  To(c, "read")
      [] s.pc = "read" ->
            IF Stops(cfg, "read") THEN Fail(s, cfg, "") ELSE To(If(W("spool"), Put(s, "temp", "pt"), s), "open")
      [] s.pc = "open" ->
            IF Stops(cfg, "open") THEN Fail(s, cfg, If(W("tellPlain"), "pt", ""))
            ELSE LET a == If(W("backup") /\ cfg.place = "old", Put(s, "temp", "old"), s)
                     b == Deliver(a, cfg, "")
                 IN  To(If(W("recreate") /\ cfg.place = "old", Chmod(b, Target(cfg)), b), "write")
      [] s.pc = "write" ->
            IF Stops(cfg, "write") THEN Fail(Deliver(s, cfg, "ct"), cfg, If(W("tellPlain"), "pt", ""))
            ELSE To(Deliver(s, cfg, If(W("clear"), "pt", "ct")), "end")
      [] s.pc = "end" -> [If(W("spool"), Drop(s, "temp"), s) EXCEPT !.end = "zero"]
DecStep(s, cfg) ==
    CASE s.pc = "begin" -> To(If(W("online"), Get(s, "u1"), s), "identities")
      [] s.pc = "identities" ->
            LET a == If(W("rewriteKeys"), Put(s, "keys", "id"), s)
                b == If(W("chmodKeys"), Chmod(a, "keys"), a)
            IN  IF Stops(cfg, "identities") THEN Fail(b, cfg, If(W("quoteKey"), "id", "")) ELSE To(b, "ask")
      [] s.pc = "ask" ->
            LET a == If(cfg.pw, Say(s, "tty", ""), s) IN To(If(cfg.pw /\ W("echo"), Say(a, "tty", "pw"), a), "unwrap")
      [] s.pc = "unwrap" ->
            IF Stops(cfg, "unwrap") THEN Fail(s, cfg, If(W("quotePassword") /\ cfg.pw, "pw", ""))
            ELSE To(If(W("debugKey"), Say(s, "err", "fk"), s), "check")
      [] s.pc = "check" -> IF Stops(cfg, "check") THEN Fail(s, cfg, If(W("tellPlain"), "pt", "")) ELSE To(s, "open")
      [] s.pc = "open" ->
            IF Stops(cfg, "open") THEN Fail(s, cfg, "")
            ELSE LET b == Deliver(s, cfg, "") IN To(If(W("recreate") /\ cfg.place = "old", Chmod(b, Target(cfg)), b), "write")
      [] s.pc = "write" ->
            LET d == Deliver(s, cfg, "pt") IN
            IF Stops(cfg, "write") THEN Fail(d, cfg, If(W("tellPlain"), "pt", "")) ELSE To(If(W("pager"), [d EXCEPT !.log = @ \cup {E("run", "pager", "")}], d), "end")
      [] s.pc = "end" -> [If(W("consume") /\ cfg.place # "same", Drop(s, "input"), s) EXCEPT !.end = "zero"]
GenStep(s, cfg) ==
    CASE s.pc = "begin" -> To(If(W("online"), Get(s, "u1"), s), "open")
      [] s.pc = "open" ->
            IF Stops(cfg, "open") THEN Fail(s, cfg, "")
            ELSE LET b == Deliver(s, cfg, "") IN To(If(W("recreate") /\ cfg.place = "old", Chmod(b, "output"), b), "write")
      [] s.pc = "write" ->
            LET d == Deliver(s, cfg, "id") IN
            IF Stops(cfg, "write") THEN Fail(d, cfg, If(W("quoteKey"), "id", "")) ELSE To(If(W("register"), Put(d, "keys", "id"), d), "end")
      [] s.pc = "end" -> [Say(s, "err", If(W("reportSecret"), "id", "")) EXCEPT !.end = "zero"]
Step(s, cfg) == CASE cfg.cmd = "encrypt" -> EncStep(s, cfg) [] cfg.cmd = "decrypt" -> DecStep(s, cfg) [] cfg.cmd = "generate" -> GenStep(s, cfg)

(* what is seen from the outside, at any moment *)
OnlyOutput(s, cfg) == \A f \in Files \ Outputs(cfg) : s.fs[f] = Before(cfg)[f]
SamePlace(s, cfg) == LET t == Target(cfg) IN Before(cfg)[t].there => s.fs[t].there /\ s.fs[t].perm = Before(cfg)[t].perm
Reveals(s, cfg) == {e \in s.log : e.t \in Secrets /\ ~(e.op = "put" /\ e.f \in Outputs(cfg) /\ e.t \in Releases(cfg.cmd))}
Silent(s, cfg) == Reveals(s, cfg) = {}
Contacts(s) == {e.f : e \in {x \in s.log : x.op = "fetch"}}
Asked(s, cfg) == Contacts(s) \subseteq (IF cfg.cmd = "encrypt" THEN UnionOf(cfg.names) ELSE {})
Nothing(s) == \A e \in s.log : e.op # "run"
=============================================================================
