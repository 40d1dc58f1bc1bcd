------------------------------ MODULE AgeGenerate ------------------------------
(* L04: the generate command as a machine that runs again and again.          *)
(*                                                                            *)
(* A configuration of one run                                                 *)
(*   type   "regular", "socket", "pipe", "char", "terminal": what the output is; "none": it cannot be opened *)
(*   opt    is it named with -o, or standard output?                          *)
(*   perm   set of permission bits it has, <<who, what>>                      *)
(*   room   number of lines the output takes before writing fails             *)
(*   err    "open" or "closed": is there a standard error stream?             *)
(* A key is a number; its public half is -number.  The output is a list of    *)
(* lines, standard error a set of messages.                                   *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT Weak

Who == {"u", "g", "o"}
What == {"r", "w", "x"}
Bits == Who \X What
Others(perm) == {b \in perm : b[1] # "u"}
MustWarn(cfg) == cfg.type = "regular" /\ Others(cfg.perm) # {}
MustReport(cfg) == cfg.type # "terminal" /\ cfg.err = "open"
Pub(k) == -k
File(k) == <<[k |-> "created", n |-> 0], [k |-> "comment", n |-> Pub(k)], [k |-> "secret", n |-> k]>>

Start == [pc |-> "start", key |-> 0, out |-> <<>>, held |-> <<>>, err |-> {}, rc |-> -1]
(* keys that have not been handed out *)
Warns(cfg) ==
    CASE "anyType" \in Weak -> Others(cfg.perm) # {}
      [] "sockets" \in Weak -> cfg.type \in {"regular", "socket"} /\ Others(cfg.perm) # {}
      [] "readOnly" \in Weak -> cfg.type = "regular" /\ \E b \in Others(cfg.perm) : b[2] = "r"
      [] "groupOnly" \in Weak -> cfg.type = "regular" /\ \E b \in cfg.perm : b[1] = "g"
      [] "both" \in Weak -> cfg.type = "regular" /\ (\E b \in cfg.perm : b[1] = "g") /\ (\E b \in cfg.perm : b[1] = "o")
      [] "named" \in Weak -> MustWarn(cfg) /\ cfg.opt
      [] "owner" \in Weak -> cfg.type = "regular" /\ cfg.perm # {}
      [] OTHER -> MustWarn(cfg)
Message(k, n) == [k |-> k, n |-> n]
Min(a, b) == IF a < b THEN a ELSE b
(* messages that find no standard error stream are dropped *)
Say(s, cfg, ms) ==
    IF cfg.err = "open" THEN [s EXCEPT !.err = @ \cup ms]
    ELSE IF "errToOut" \in Weak /\ ~cfg.opt /\ ms # {} THEN [s EXCEPT !.held = Append(@, [k |-> "junk", n |-> 0])]
    ELSE s
Step(s, cfg, fresh) ==
    CASE s.pc = "start" -> {IF cfg.type = "none" THEN [s EXCEPT !.pc = "end", !.rc = 1] ELSE [s EXCEPT !.pc = "key"]}
      [] s.pc = "key" -> {[s EXCEPT !.key = k, !.pc = "fill"] : k \in fresh}
      [] s.pc = "fill" -> {[s EXCEPT !.held = IF "otherComment" \in Weak THEN [File(s.key) EXCEPT ![2].n = Pub(s.key + 1)] ELSE File(s.key), !.pc = "check"]}
      [] s.pc = "check" -> {[Say(s, cfg, IF Warns(cfg) THEN {Message("warning", 0)} ELSE {}) EXCEPT !.pc = "report"]}
      [] s.pc = "report" ->
            {[Say(s, cfg, IF cfg.type # "terminal" THEN {Message("public", IF "reportSecret" \in Weak THEN s.key ELSE Pub(s.key))} ELSE {})
                EXCEPT !.pc = "flush"]}
      [] s.pc = "flush" ->
            {[s EXCEPT !.out = SubSeq(s.held, 1, Min(Len(s.held), cfg.room)),
                       !.rc = IF cfg.room < Len(s.held) /\ "ignoreFull" \notin Weak THEN 1 ELSE 0, !.pc = "end"]}

(* what an output has to be: judged from the outside *)
Secrets(out) == {out[i].n : i \in {j \in DOMAIN out : out[j].k = "secret"}}
Comments(out) == {out[i].n : i \in {j \in DOMAIN out : out[j].k = "comment"}}
Reads(out) == Cardinality({j \in DOMAIN out : out[j].k = "secret"}) = 1 /\ \A j \in DOMAIN out : out[j].k # "junk"
Faithful(s) == s.rc = 0 =>
    /\ Reads(s.out) /\ Comments(s.out) = {Pub(k) : k \in Secrets(s.out)}
    /\ \A m \in s.err : m.k = "public" => m.n \in Comments(s.out)
Reported(s, cfg) == s.rc = 0 /\ MustReport(cfg) => \E m \in s.err : m.k = "public"
Silent(s) == \A m \in s.err : m.n <= 0
Warned(s, cfg) == s.rc = 0 => ((\E m \in s.err : m.k = "warning") <=> MustWarn(cfg) /\ cfg.err = "open")
Fresh(runs) == \A i, j \in DOMAIN runs : i # j => Secrets(runs[i]) \cap Secrets(runs[j]) = {}
Judgement(s, cfg) == Faithful(s) /\ Reported(s, cfg) /\ Silent(s) /\ Warned(s, cfg)
=============================================================================
