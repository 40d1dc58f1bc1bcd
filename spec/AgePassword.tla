---------------------------- MODULE AgePassword ----------------------------
(***************************************************************************)
(* Password stanzas (C09).  A password is a sequence of byte values; a     *)
(* work factor is a text.  Deriving a key costs 2^work; the reader tries   *)
(* its passwords on the scrypt stanzas of a file one after the other.      *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets

CONSTANTS Lo, Hi,      \* accepted work factors
          Weak         \* mechanisms switched off (design check)

---------------------------------------------------------------------------
(* Texts.  Value(t) is NotInt, or the integer the text denotes (capped).   *)
NotInt == -1000000
Cap == 9999999
Digit == [c \in {"0","1","2","3","4","5","6","7","8","9"} |->
            CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4
              [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] c = "9" -> 9]
Char(t, i) == SubSeq(t, i, i)
AllDigits(t) == \A i \in 1 .. Len(t) : Char(t, i) \in DOMAIN Digit
RECURSIVE Small(_)
Small(t) == IF t = "" THEN 0 ELSE 10 * Small(SubSeq(t, 1, Len(t) - 1)) + Digit[Char(t, Len(t))]
Natural(t) ==
    IF t = "" \/ ~AllDigits(t) THEN NotInt
    ELSE LET nz == {i \in 1 .. Len(t) : Char(t, i) # "0"} IN
         IF nz = {} THEN 0
         ELSE LET first == CHOOSE i \in nz : \A j \in nz : i <= j
              IN  IF Len(t) - first >= 6 THEN Cap ELSE Small(SubSeq(t, first, Len(t)))
(* the form writers produce: digits without leading zero *)
Canonical(t) == t # "" /\ Natural(t) # NotInt /\ (t = "0" \/ Char(t, 1) # "0")
(* other spellings of an integer, which a reader may take or leave *)
RECURSIVE NoBars(_)
NoBars(t) == IF Len(t) < 2 THEN (IF t = "_" THEN "" ELSE t)
             ELSE NoBars(SubSeq(t, 1, Len(t) \div 2)) \o NoBars(SubSeq(t, Len(t) \div 2 + 1, Len(t)))
Eighteen == {"18\\t", "18\\u00a0", "\\u0661\\u0668", "\\uff11\\uff18"}   \* other scripts, white space
Value(t) ==
    IF t \in Eighteen THEN 18 ELSE
    LET u == NoBars(t) IN
    IF u = "" THEN NotInt
    ELSE IF Char(u, 1) = "-" THEN (IF Natural(SubSeq(u, 2, Len(u))) = NotInt THEN NotInt
                                   ELSE 0 - Natural(SubSeq(u, 2, Len(u))))
    ELSE IF Char(u, 1) = "+" THEN Natural(SubSeq(u, 2, Len(u)))
    ELSE Natural(u)
InRange(v) == v # NotInt /\ Lo <= v /\ v <= Hi

---------------------------------------------------------------------------
(* Passwords.  HMAC pads keys with zero bytes, so scrypt itself does not   *)
(* tell trailing zero bytes of short passwords apart.                      *)
RECURSIVE Unpad(_)
Unpad(p) == IF p # <<>> /\ p[Len(p)] = 0 THEN Unpad(SubSeq(p, 1, Len(p) - 1)) ELSE p
SamePassword(p, q) == p = q
Indistinguishable(p, q) == p = q \/ (Len(p) <= 64 /\ Len(q) <= 64 /\ Unpad(p) = Unpad(q))

---------------------------------------------------------------------------
(* The reader.  A stanza: [pw, v, made]: password, stated work factor, and *)
(* the work factor its maker really used.                                  *)
Seen(p) == IF "prefix" \in Weak /\ Len(p) > 1 THEN SubSeq(p, 1, 1) ELSE p
Used(v) == IF "clamp" \in Weak THEN (IF v > Hi THEN Hi ELSE IF v < Lo THEN Lo ELSE v) ELSE v
Refused(v) ==
    \/ v = NotInt
    \/ v < Lo /\ {"noLower", "clamp"} \cap Weak = {}
    \/ v > Hi /\ {"noUpper", "clamp"} \cap Weak = {}
    \/ v = Hi /\ "rejectTop" \in Weak
ReaderInit(st, ids) == [st |-> st, ids |-> ids, i |-> 1, j |-> 1, work |-> <<>>, opened |-> 0]
Busy(s) == s.i <= Len(s.st) /\ s.opened = 0
Advance(s) == IF s.j < Len(s.ids) THEN [s EXCEPT !.j = @ + 1] ELSE [s EXCEPT !.i = @ + 1, !.j = 1]
Step(s) ==
    LET x == s.st[s.i]
        p == s.ids[s.j]
        did == [s EXCEPT !.work = Append(@, Used(x.v))]
    IN  IF Refused(x.v) THEN Advance(IF "checkAfter" \in Weak /\ x.v # NotInt THEN did ELSE s)
        ELSE IF Seen(p) = Seen(x.pw) /\ Used(x.v) = x.made THEN [did EXCEPT !.opened = s.i]
        ELSE Advance(did)

---------------------------------------------------------------------------
(* Judgement on what a run of the reader shows: ok, which stanzas' work    *)
(* was done.  st[i] = [pw, wf (text)], ids = passwords.                    *)
Range(s) == {s[i] : i \in DOMAIN s}
MustOpen(st, ids) ==
    /\ \A x \in Range(st) : Canonical(x.wf) /\ InRange(Value(x.wf))
    /\ \E x \in Range(st), p \in Range(ids) : SamePassword(p, x.pw)
MayOpen(st, ids) ==
    \E x \in Range(st), p \in Range(ids) : InRange(Value(x.wf)) /\ Indistinguishable(p, x.pw)
WorkAllowed(st, ids, work) ==
    /\ \A w \in Range(work) : \E x \in Range(st) : InRange(Value(x.wf)) /\ Value(x.wf) = w
    /\ Len(work) <= Len(st) * Len(ids)
=============================================================================
