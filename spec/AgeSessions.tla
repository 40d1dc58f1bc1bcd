---------------------------- MODULE AgeSessions ----------------------------
(***************************************************************************)
(* Encrypting and decrypting objects over time (C07, C08).                 *)
(*                                                                         *)
(* The state holds any number of writer objects (Encryptor), the output    *)
(* each of them has produced, and reader objects (Decryptor).  Every       *)
(* public call is one step.  The data written to writer h always continues *)
(* plaintext stream number h, so that every byte can be told apart.        *)
(*                                                                         *)
(* The transition function is Apply; Result is what the caller sees.       *)
(* `Weak' switches single mechanisms off; the invariants then fail (see    *)
(* MCAgeSessions).                                                         *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets

CONSTANTS Handles,   \* names of writers, 1 .. n
          Readers,   \* names of readers, 1 .. n
          Weak

Range(s) == {s[i] : i \in DOMAIN s}
Min(a, b) == IF a < b THEN a ELSE b

---------------------------------------------------------------------------
(* st: "none" not created, "open", "closed" complete, "dead" aborted or    *)
(* creation failed.  buf: what was written, as segments <<stream, from,    *)
(* to>>.  out: the output: hdr, and the sealed content (<<>> or <<segs>>). *)
(* rcpts: number of recipients; secrets: everything drawn so far.          *)
Writer0 == [st |-> "none", buf |-> <<>>, off |-> 0, hdr |-> FALSE, sealed |-> <<>>,
            fk |-> 0, rcpts |-> 0]
Reader0 == [st |-> "none", h |-> 0, pos |-> 0, data |-> <<>>]

State0 == [w |-> [h \in Handles |-> Writer0],
           r |-> [d \in Readers |-> Reader0],
           shared |-> <<>>,       \* buffer shared by all writers (only when weakened)
           rng |-> 1,             \* next value of the random source
           drawn |-> <<>>]        \* what was used so far: <<purpose, value>>

Draw(s, purpose) ==
    LET v == IF "fixedFileKey" \in Weak /\ purpose = "fk" THEN 0
             ELSE IF "fixedNonce" \in Weak /\ purpose = "nonce" THEN 0
             ELSE IF "shareAcrossStanzas" \in Weak /\ purpose = "share" /\ s.drawn # <<>>
                     /\ s.drawn[Len(s.drawn)].p = "share" THEN s.drawn[Len(s.drawn)].v
             ELSE s.rng
    IN  [s EXCEPT !.rng = @ + 1, !.drawn = Append(@, [p |-> purpose, v |-> v])]
RECURSIVE DrawN(_, _, _)
DrawN(s, purpose, n) == IF n = 0 THEN s ELSE DrawN(Draw(s, purpose), purpose, n - 1)
LastDrawn(s) == s.drawn[Len(s.drawn)].v

(* adjacent pieces of one stream are one piece; what a reader could see *)
RECURSIVE Merge(_)
Merge(segs) ==
    IF segs = <<>> THEN <<>>
    ELSE IF segs[1][2] = segs[1][3] THEN Merge(Tail(segs))
    ELSE LET rest == Merge(Tail(segs)) IN
         IF rest # <<>> /\ rest[1][1] = segs[1][1] /\ rest[1][2] = segs[1][3]
         THEN <<<<segs[1][1], segs[1][2], rest[1][3]>>>> \o Tail(rest)
         ELSE <<segs[1]>> \o rest
RECURSIVE Total(_)
Total(segs) == IF segs = <<>> THEN 0 ELSE segs[1][3] - segs[1][2] + Total(Tail(segs))

---------------------------------------------------------------------------
(* Calls: [op, h, n, d, k]                                                 *)
(* new: create writer h with n recipients                                  *)
(* newbad: creation fails (k says how) after n usable recipients           *)
(* write: n bytes; close; exit: leave with-block normally; abort: leave it *)
(* by an exception; open: create reader d on the output of h; read: n      *)
(* bytes from reader d (-1: all); line: the next line, or n bytes of it.   *)
(* Where lines end is up to the contents: of a line call it is known how   *)
(* many bytes it gave (cnt) and where in them the first line end is (nl).  *)
Op(op, h, n, d, k) == [op |-> op, h |-> h, n |-> n, d |-> d, k |-> k]

Open(s, h) == s.w[h].st = "open"
Complete(s, h) == s.w[h].sealed # <<>>
Content(s, h) == IF Len(s.w[h].sealed) = 1 THEN s.w[h].sealed[1] ELSE <<>>
Readable(s, h) == s.w[h].hdr /\ Len(s.w[h].sealed) = 1

Enabled(s, o) ==
    CASE o.op \in {"new", "newbad"} -> s.w[o.h].st = "none"
      [] o.op \in {"write", "close", "exit", "abort"} -> s.w[o.h].st # "none"
      [] o.op = "open" -> s.w[o.h].st # "none" /\ s.r[o.d].st = "none"
      [] o.op \in {"read", "line"} -> s.r[o.d].st = "open"

Rest(s, d) == Total(s.r[d].data) - s.r[d].pos
LineFits(s, o) ==
    LET most == IF o.n < 0 THEN Rest(s, o.d) ELSE Min(o.n, Rest(s, o.d)) IN
    /\ o.cnt <= most
    /\ o.nl = 0 => o.cnt = most
    /\ o.nl > 0 => o.cnt = o.nl

Sealed(s, h) ==
    LET t == Draw(s, "nonce")
        content == IF "sharedBuffer" \in Weak THEN s.shared ELSE s.w[h].buf
    IN  [t EXCEPT !.w[h].sealed = Append(@, Merge(content)), !.w[h].st = "closed",
                  !.shared = <<>>]

Apply(s, o) ==
    LET h == o.h
        seg == <<h, s.w[h].off, s.w[h].off + o.n>>
    IN
    CASE o.op = "new" ->
            LET a == Draw(s, "fk") b == DrawN(a, "share", o.n)
            IN  [b EXCEPT !.w[h].st = "open", !.w[h].hdr = TRUE, !.w[h].fk = LastDrawn(a),
                          !.w[h].rcpts = o.n]
      [] o.op = "newbad" ->
            LET b == DrawN(Draw(s, "fk"), "share", o.n)
            IN  IF "sealFailedCreation" \in Weak
                THEN Sealed([b EXCEPT !.w[h].hdr = TRUE], h)
                ELSE [b EXCEPT !.w[h].st = "dead"]
      [] o.op = "write" ->
            IF Open(s, h)
            THEN [s EXCEPT !.w[h].buf = Append(@, seg), !.w[h].off = @ + o.n,
                           !.shared = Append(@, seg)]
            ELSE s
      [] o.op \in {"close", "exit"} ->
            IF Open(s, h) \/ ("closeTwice" \in Weak /\ s.w[h].st = "closed") THEN Sealed(s, h)
            ELSE s
      [] o.op = "abort" ->
            IF ~Open(s, h) THEN s
            ELSE IF "sealOnAbort" \in Weak THEN Sealed(s, h)
            ELSE [s EXCEPT !.w[h].st = "dead"]
      [] o.op = "open" ->
            IF Readable(s, h)
            THEN [s EXCEPT !.r[o.d] = [st |-> "open", h |-> h, pos |-> 0, data |-> Content(s, h)]]
            ELSE s
      [] o.op = "read" ->
            LET total == Total(s.r[o.d].data)
                n == IF o.n < 0 THEN total - s.r[o.d].pos ELSE Min(o.n, total - s.r[o.d].pos)
            IN  [s EXCEPT !.r[o.d].pos = IF "rereads" \in Weak THEN @ ELSE @ + n]
      [] o.op = "line" -> [s EXCEPT !.r[o.d].pos = IF "cnt" \in DOMAIN o THEN @ + o.cnt ELSE @]

(* What the call answers: [r, src, from, n]; src 0: no bytes involved *)
Ans(r, src, from, n) == [r |-> r, src |-> src, from |-> from, n |-> n]
Result(s, o) ==
    CASE o.op = "new" -> Ans("ok", 0, 0, 0)
      [] o.op = "newbad" -> Ans("error", 0, 0, 0)
      [] o.op = "write" -> IF Open(s, o.h) THEN Ans("ok", 0, 0, o.n)
                           ELSE IF "writeAfterClose" \in Weak THEN Ans("ok", 0, 0, o.n)
                           ELSE Ans("error", 0, 0, 0)
      [] o.op \in {"close", "exit", "abort"} -> Ans("ok", 0, 0, 0)
      [] o.op = "open" -> IF Readable(s, o.h) THEN Ans("ok", 0, 0, 0) ELSE Ans("error", 0, 0, 0)
      [] o.op = "read" ->
            LET R == s.r[o.d]
                total == Total(R.data)
                n == IF o.n < 0 THEN total - R.pos ELSE Min(o.n, total - R.pos)
            IN  Ans("ok", IF n = 0 THEN 0 ELSE R.h, IF n = 0 THEN 0 ELSE R.pos, n)
      [] o.op = "line" -> Ans("ok", IF o.cnt = 0 THEN 0 ELSE s.r[o.d].h, IF o.cnt = 0 THEN 0 ELSE s.r[o.d].pos, o.cnt)

---------------------------------------------------------------------------
(* C08 *)
OwnBytes(s) ==      \* a readable output holds exactly what was written to its own object
    \A h \in Handles : Readable(s, h) =>
        Content(s, h) = (IF s.w[h].off = 0 THEN <<>> ELSE <<<<h, 0, s.w[h].off>>>>)
NeverAfterFailure(s) ==
    \A h \in Handles : s.w[h].st = "dead" => ~Readable(s, h) /\ s.w[h].sealed = <<>>
ClosedOnce(s) == \A h \in Handles : s.w[h].st = "closed" => Len(s.w[h].sealed) = 1
(* C07 *)
FreshSecrets(s) ==
    \A i, j \in DOMAIN s.drawn : i # j => s.drawn[i].v # s.drawn[j].v
=============================================================================
