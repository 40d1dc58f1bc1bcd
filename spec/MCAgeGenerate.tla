----------------------------- MODULE MCAgeGenerate -----------------------------
EXTENDS AgeGenerate
CONSTANTS MaxRuns, Perms
VARIABLES cfg, s, runs, used
vars == <<cfg, s, runs, used>>
Keys == 1 .. MaxRuns + 1
PermSets == IF Perms = "all" THEN SUBSET Bits ELSE {{}, {<<"u", "r">>}, {<<"g", "r">>, <<"u", "w">>}, {<<"o", "x">>}}
Rooms == IF Perms = "all" THEN {0, 2, 3, 4} ELSE {2, 3}
Cfgs == [type : {"regular", "socket", "pipe", "char", "terminal", "none"}, opt : BOOLEAN, perm : PermSets, room : Rooms,
         err : IF MaxRuns > 0 THEN {"open"} ELSE {"open", "closed"}]
Init == cfg \in Cfgs /\ s = Start /\ runs = <<>> /\ used = {}
Go == /\ s.pc # "end"
      /\ s' \in Step(s, cfg, IF "repeat" \in Weak THEN Keys ELSE Keys \ used)
      /\ used' = used \cup ({s'.key} \ {0}) /\ UNCHANGED <<cfg, runs>>
Again == s.pc = "end" /\ Len(runs) < MaxRuns /\ runs' = Append(runs, s.out) /\ cfg' \in Cfgs /\ s' = Start /\ UNCHANGED used
Next == Go \/ Again
Spec == Init /\ [][Next]_vars /\ WF_vars(Go)
FaithfulI == Faithful(s)
ReportedI == s.pc = "end" => Reported(s, cfg)
SilentI == Silent(s)
WarnedI == s.pc = "end" => Warned(s, cfg)
FreshI == Fresh(Append(runs, s.out))
Ends == []<>(s.pc = "end")
=============================================================================
