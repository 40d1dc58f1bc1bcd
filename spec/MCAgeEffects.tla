----------------------------- MODULE MCAgeEffects -----------------------------
EXTENDS AgeEffects, TLC
CONSTANT MaxNames
VARIABLES cfg, s
vars == <<cfg, s>>
SeqsOf(S, n) == UNION {[1 .. k -> S] : k \in 0 .. n}
Urls == {{}, {"u1"}, {"u2", "u3"}}
Steps == {"names", "identities", "ask", "read", "unwrap", "check", "open", "write", "never"}
Cfgs == [cmd : {"encrypt", "decrypt", "generate"}, names : SeqsOf(Urls, MaxNames), pw : BOOLEAN, place : {"new", "old", "same", "stdout"}, stop : Steps]
Fine(c) == (c.cmd # "encrypt" => c.names = <<>>) /\ (c.cmd = "generate" => ~c.pw /\ c.place # "same")
Init == cfg \in {c \in Cfgs : Fine(c)} /\ s = Start(cfg)
Ended == s.end # ""
Go == ~Ended /\ s' = Step(s, cfg) /\ UNCHANGED cfg
Kill == ~Ended /\ s' = [s EXCEPT !.end = "killed"] /\ UNCHANGED cfg
Next == Go \/ Kill
Spec == Init /\ [][Next]_vars /\ WF_vars(Go)
Ends == <>Ended

OnlyOutputI == OnlyOutput(s, cfg)
SamePlaceI == SamePlace(s, cfg)
SilentI == Silent(s, cfg)
AskedI == Asked(s, cfg)
NothingI == Nothing(s)
(* judging effect by effect is as strict as judging the states *)
EachPermitted == \A e \in s.log : Permitted(e, cfg)
=============================================================================
