----------------------------- MODULE MCAgeCommand -----------------------------
EXTENDS AgeCommand, TLC
CONSTANTS Mode, MaxPlain, MaxNames
VARIABLES cfg, s
vars == <<cfg, s>>

Plain(n) == [i \in 1 .. n |-> "p" \o ToString(i)]
SeqsOf(S, n) == UNION {[1 .. k -> S] : k \in 0 .. n}
EncCfgs == [names : SeqsOf({{"k1"}, {"k1", "k2"}, {"k3"}, {}, {"error"}}, MaxNames), pw : BOOLEAN, armor : BOOLEAN, tty : BOOLEAN,
            plain : {Plain(n) : n \in 0 .. MaxPlain}, place : {"other", "same"}, bad : (0 .. MaxPlain - 1) \cup {99}, room : (0 .. MaxPlain + 4), err : {"open", "closed"}]
(* every edit of a sealed content *)
Whole(n, a) == Sealed(Plain(n), a)
Contents == UNION {LET w == Whole(n, a) IN
              {w} \cup {SubSeq(w, 1, i) : i \in 0 .. Len(w)} \cup {[w EXCEPT ![i] = "bad"] : i \in DOMAIN w} \cup
              {SubSeq(w, 1, i - 1) \o SubSeq(w, i + 1, Len(w)) : i \in DOMAIN w} \cup {SubSeq(w, 1, i) \o w : i \in 0 .. Len(w)} \cup
              {w \o <<"p1">>} : n \in 0 .. MaxPlain, a \in BOOLEAN}
DecCfgs == [content : Contents, armor : BOOLEAN, fits : BOOLEAN, room : 0 .. MaxPlain + 1, err : {"open", "closed"}, talks : BOOLEAN]

Init == IF Mode = "enc" THEN cfg \in EncCfgs /\ s = EncStart(cfg) ELSE cfg \in DecCfgs /\ s = DecStart(cfg)
Go == s.pc \notin Ended /\ s' = (IF Mode = "enc" THEN EncStep(s, cfg) ELSE DecStep(s, cfg)) /\ UNCHANGED cfg
Kill == s.pc \notin Ended /\ s' = To(s, "killed") /\ UNCHANGED cfg
Next == Go \/ Kill
Spec == Init /\ [][Next]_vars /\ WF_vars(Go)
Ends == <>(s.pc \in Ended)

(* encrypt *)
Refusals == s.pc = "refused" => s.out = Initially(cfg)
NeverUnasked == (Mode = "enc" /\ MustRefuse(cfg)) => s.pc # "zero" /\ s.out = Initially(cfg)
ZeroIsComplete == s.pc = "zero" => s.out = Sealed(cfg.plain, cfg.armor) /\ s.keys = Wanted(cfg)
(* whatever is on the disk at any moment, a reader of it never gets less than the input *)
NeverTruncated == Mode = "enc" /\ Accepted(s.out, cfg.armor) => PlainOf(s.out, cfg.armor) = cfg.plain
(* decrypt *)
Nothing == Mode = "dec" /\ ~(cfg.fits /\ Accepted(cfg.content, cfg.armor)) => s.out = Old /\ s.pc # "zero"
ZeroIsExact == s.pc = "zero" => s.out = PlainOf(cfg.content, cfg.armor)
(* both, one after the other *)
Inverse == Mode = "enc" /\ s.pc = "zero" =>
    LET d == [content |-> s.out, armor |-> cfg.armor, fits |-> TRUE, room |-> 99, err |-> cfg.err, talks |-> FALSE]
    IN  Accepted(d.content, d.armor) /\ PlainOf(d.content, d.armor) = cfg.plain
=============================================================================
