---------------------------- MODULE TraceAgeEffects ----------------------------
(* L06: what recorded runs of the real commands did around them; every      *)
(* effect has to be one the machine of AgeEffects may have.                  *)
EXTENDS CaseTrace, AgeEffects
VARIABLES l, bad
vars == <<l, bad>>

R == INSTANCE AgeResolve
World(c) == [aliases |-> c.aliases, files |-> c.files, urls |-> c.urls]
Addresses(c) == IF c.cmd # "encrypt" THEN <<>> ELSE [i \in DOMAIN c.x |-> R!Touches(World(c), c.x[i])]
Place(c) == IF c.place = "same" THEN "same" ELSE CASE c.dst = "new" -> "new" [] c.dst \in {"file", "link"} -> "old" [] OTHER -> "stdout"
Cfg(c) == [cmd |-> c.cmd, names |-> Addresses(c), pw |-> c.pw # "", place |-> Place(c), stop |-> "never"]
(* the machine of this configuration, wherever it may stop *)
RECURSIVE Log(_, _)
Log(s, cfg) == IF s.end # "" THEN s.log ELSE Log(Step(s, cfg), cfg)
Name(e) == CASE e.op = "put" /\ e.t \in Secrets -> "secret_in_file" [] e.op = "put" -> "other_file_written" [] e.op = "make" -> "other_file_made"
             [] e.op \in {"remove", "replace"} -> "file_removed" [] e.op = "perm" -> "permissions_changed" [] e.op = "say" -> "secret_said"
             [] e.op = "fetch" -> "unasked_connection" [] OTHER -> "program_started"
Wrong(c) == {e \in {c.effects[i] : i \in DOMAIN c.effects} : ~Permitted(e, Cfg(c))}
Complete(c) == \A e \in Log(Start(Cfg(c)), Cfg(c)) : Permitted(e, Cfg(c))
Verdict(c) == IF ~Complete(c) THEN "machine" ELSE IF Wrong(c) = {} THEN "" ELSE Name(CHOOSE e \in Wrong(c) : TRUE)

TraceInit == l = 1 /\ bad = <<>>
Consume ==
    /\ l <= Len(Trace)
    /\ LET c == Trace[l] v == Verdict(c) IN bad' = IF v = "" THEN bad ELSE Append(bad, Bad(c.id, v, ToString(Wrong(c))))
    /\ l' = l + 1
Report == l = Len(Trace) + 1 /\ WriteVerdict(l - 1, bad) /\ l' = l + 1 /\ UNCHANGED bad
TraceSpec == TraceInit /\ [][Consume \/ Report]_vars
=============================================================================
