------------------------------ MODULE AgeCommand ------------------------------
(***************************************************************************)
(* The encrypt and decrypt commands as processes among files, pipes,       *)
(* terminals, a full disk, unreadable input and kill -9 (L01, L02, L03,    *)
(* L05).  Names of recipients have the meaning AgeResolve gives them.      *)
(*                                                                         *)
(* Contents are sequences of units.  A plaintext is a sequence of          *)
(* "p1", "p2", ...; sealing puts a head before and a last unit after it,   *)
(* armoring a begin and an end around that.  A reader accepts nothing but  *)
(* a complete structure.                                                   *)
(***************************************************************************)
EXTENDS AgeResolve

Sealed(d, armor) == (IF armor THEN <<"begin">> ELSE <<>>) \o <<"head">> \o d \o <<"last">> \o (IF armor THEN <<"end">> ELSE <<>>)
Body(c, armor) == IF armor THEN SubSeq(c, 2, Len(c) - 1) ELSE c
Accepted(c, armor) ==
    LET b == Body(c, armor) IN
    /\ Len(c) >= (IF armor THEN 4 ELSE 2)
    /\ armor => c[1] = "begin" /\ c[Len(c)] = "end"
    /\ b[1] = "head" /\ b[Len(b)] = "last"
    /\ \A i \in 2 .. Len(b) - 1 : b[i] \notin {"head", "last", "begin", "end", "bad", "note"}
PlainOf(c, armor) == LET b == Body(c, armor) IN SubSeq(b, 2, Len(b) - 1)

---------------------------------------------------------------------------
(* encrypt.  cfg:  names  what each named recipient resolves to: a set of  *)
(*                        keys, {} if to nothing, or an error ({"error"})  *)
(*                 pw     a password is asked for                          *)
(*                 armor, tty                                              *)
(*                 plain  the input                                        *)
(*                 place  "other": the output is another file; "same": the *)
(*                        output file is the input file                    *)
(*                 bad    after how many units reading fails (99: never)   *)
(*                 room   how many units the output can take               *)
(*                 err    "open" or "closed": is there a standard error    *)
(*                        stream for messages?  (The output is then        *)
(*                        standard output.)                                *)
Old == <<"old">>
Initially(cfg) == IF cfg.place = "same" THEN cfg.plain ELSE Old
EncStart(cfg) == [pc |-> IF "openFirst" \in Weak THEN "early" ELSE "tty", i |-> 1, keys |-> {}, data |-> <<>>,
                  out |-> Initially(cfg), done |-> 0, todo |-> <<>>]
To(s, pc) == [s EXCEPT !.pc = pc]
(* a message that finds no standard error stream must not land in the output *)
Astray(cfg, talks) == IF "errToOut" \in Weak /\ cfg.err = "closed" /\ talks THEN <<"note">> ELSE <<>>
Target(s, cfg) == Astray(cfg, cfg.pw /\ cfg.names # <<>>) \o Sealed(s.data, cfg.armor)
EncStep(s, cfg) ==
    CASE s.pc = "early" -> [s EXCEPT !.out = <<>>, !.pc = "tty"]
      [] s.pc = "tty" -> IF cfg.tty /\ "ttyOk" \notin Weak THEN To(s, "refused") ELSE To(s, "names")
      [] s.pc = "names" ->
            IF s.i > Len(cfg.names) THEN To(s, "password")
            ELSE LET r == cfg.names[s.i]
                     next == [s EXCEPT !.i = @ + 1]
                 IN  IF r = {"error"} THEN To(s, "refused")
                     ELSE IF r = {} THEN (IF "skipUnresolved" \in Weak THEN next ELSE To(s, "refused"))
                     ELSE [next EXCEPT !.keys = @ \cup r]
      [] s.pc = "password" ->
            LET k == IF cfg.pw THEN s.keys \cup {"pw"} ELSE s.keys
            IN  IF k = {} /\ "noRecipientOk" \notin Weak THEN To(s, "refused")
                ELSE [s EXCEPT !.keys = k, !.pc = IF "openBeforeRead" \in Weak THEN "open" ELSE "read"]
      [] s.pc = "read" ->
            LET source == IF cfg.place = "same" THEN s.out ELSE cfg.plain IN
            IF cfg.bad < Len(source)
            THEN (IF "sealOnError" \in Weak THEN [s EXCEPT !.data = SubSeq(source, 1, cfg.bad), !.pc = "open"] ELSE To(s, "failed"))
            ELSE [s EXCEPT !.data = source, !.pc = IF "openBeforeRead" \in Weak THEN "write" ELSE "open"]
      [] s.pc = "open" -> [s EXCEPT !.out = <<>>, !.pc = IF "openBeforeRead" \in Weak THEN "read" ELSE "write"]
      [] s.pc = "write" ->
            IF s.done = Len(Target(s, cfg)) THEN To(s, "zero")
            ELSE IF Len(s.out) < cfg.room THEN [s EXCEPT !.out = Append(@, Target(s, cfg)[s.done + 1]), !.done = @ + 1]
            ELSE IF "ignoreWriteError" \in Weak \/ ("ignoreLast" \in Weak /\ s.done + 1 = Len(Target(s, cfg)))
            THEN [s EXCEPT !.done = @ + 1]
            ELSE To(s, "failed")
Ended == {"zero", "refused", "failed", "killed"}
Wanted(cfg) == UNION {cfg.names[i] : i \in DOMAIN cfg.names} \cup (IF cfg.pw THEN {"pw"} ELSE {})
MustRefuse(cfg) == cfg.tty \/ (\E i \in DOMAIN cfg.names : cfg.names[i] \in {{}, {"error"}}) \/ Wanted(cfg) = {}

---------------------------------------------------------------------------
(* decrypt.  cfg:  content, armor (what the user says), fits (an identity  *)
(* fits), room, err, talks (there is something to say: unusable keys,      *)
(* unknown recipient types)                                                *)
DecStart(cfg) == [pc |-> IF "openFirst" \in Weak THEN "early" ELSE "identity", out |-> Old, i |-> 0, done |-> 0, todo |-> <<>>]
DecStep(s, cfg) ==
    CASE s.pc = "early" -> [s EXCEPT !.out = <<>>, !.pc = "identity"]
      [] s.pc = "identity" -> IF cfg.fits THEN To(s, IF "streaming" \in Weak THEN "stream" ELSE "check") ELSE To(s, "failed")
      [] s.pc = "check" -> IF Accepted(cfg.content, cfg.armor) THEN [s EXCEPT !.pc = "open"] ELSE To(s, "failed")
      [] s.pc = "open" -> [s EXCEPT !.out = <<>>, !.pc = "write"]
      [] s.pc = "write" ->
            LET p == Astray(cfg, cfg.talks) \o PlainOf(cfg.content, cfg.armor) IN
            IF s.done = Len(p) THEN To(s, "zero")
            ELSE IF Len(s.out) < cfg.room THEN [s EXCEPT !.out = Append(@, p[s.done + 1]), !.done = @ + 1]
            ELSE IF "ignoreWriteError" \in Weak THEN [s EXCEPT !.done = @ + 1]
            ELSE To(s, "failed")
      (* releasing chunk after chunk *)
      [] s.pc = "stream" ->
            LET b == Body(cfg.content, cfg.armor) IN
            IF s.i = 0 THEN (IF Len(cfg.content) > 1 /\ b # <<>> /\ b[1] = "head" THEN [s EXCEPT !.i = 1, !.out = <<>>] ELSE To(s, "failed"))
            ELSE IF s.i >= Len(b) THEN To(s, "failed")
            ELSE IF b[s.i + 1] = "last" THEN (IF Accepted(cfg.content, cfg.armor) THEN To(s, "zero") ELSE To(s, "failed"))
            ELSE IF b[s.i + 1] \in {"head", "begin", "end", "bad"} THEN To(s, "failed")
            ELSE [s EXCEPT !.i = @ + 1, !.out = Append(@, b[s.i + 1])]
=============================================================================
