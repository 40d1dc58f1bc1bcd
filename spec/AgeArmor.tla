------------------------------ MODULE AgeArmor ------------------------------
(***************************************************************************)
(* The ASCII armor (A01, A02): the text a writer produces, the machine     *)
(* that reads lines, and a grammar saying which texts are acceptable.      *)
(* A text is a sequence of lines (without line ends) plus whether the last *)
(* one is terminated.                                                      *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets

CONSTANTS Columns, Weak

Range(s) == {s[i] : i \in DOMAIN s}
MinOf(a, b) == IF a < b THEN a ELSE b

---------------------------------------------------------------------------
(* Writer: text of a section from the padded base64 text of the data       *)
BodyLines(b64) == [i \in 1 .. (Len(b64) + Columns - 1) \div Columns |->
                     SubSeq(b64, (i - 1) * Columns + 1, MinOf(i * Columns, Len(b64)))]
Section(label, b64) ==
    <<"-----BEGIN " \o label \o "-----">> \o BodyLines(b64) \o <<"-----END " \o label \o "-----">>

---------------------------------------------------------------------------
(* Lines *)
Ch(t, i) == SubSeq(t, i, i)
Starts(t, p) == Len(t) >= Len(p) /\ SubSeq(t, 1, Len(p)) = p
Ends(t, p) == Len(t) >= Len(p) /\ SubSeq(t, Len(t) - Len(p) + 1, Len(t)) = p
Has(t, c) == \E i \in 1 .. Len(t) : Ch(t, i) = c
Marker(t, word) ==      \* -----WORD label-----
    /\ Len(t) >= Len(word) + 11
    /\ Starts(t, "-----" \o word \o " ") /\ Ends(t, "-----")
    /\ ~Has(SubSeq(t, Len(word) + 7, Len(t) - 5), "-")
MarkerLabel(t, word) == SubSeq(t, Len(word) + 7, Len(t) - 5)
Lower == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z"}
ValidLabel(l) ==
    /\ \A i \in 1 .. Len(l) : Ch(l, i) \notin Lower
    /\ l = "" \/ (Ch(l, 1) # " " /\ Ch(l, Len(l)) # " ")

Blank == {" ", "\t", "\f"}
RECURSIVE StripL(_)
StripL(t) == IF t # "" /\ Ch(t, 1) \in Blank THEN StripL(SubSeq(t, 2, Len(t))) ELSE t
RECURSIVE StripR(_)
StripR(t) == IF t # "" /\ Ch(t, Len(t)) \in Blank THEN StripR(SubSeq(t, 1, Len(t) - 1)) ELSE t
Strip(t) == StripR(StripL(t))

Alphabet == Lower \cup
    {"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z",
     "0","1","2","3","4","5","6","7","8","9","+","/"}
RECURSIVE Cat(_)
Cat(ls) == IF ls = <<>> THEN ""
           ELSE IF Len(ls) = 1 THEN ls[1]
           ELSE LET m == Len(ls) \div 2 IN Cat(SubSeq(ls, 1, m)) \o Cat(SubSeq(ls, m + 1, Len(ls)))
PadOf(t) == IF Ends(t, "==") THEN 2 ELSE IF Ends(t, "=") THEN 1 ELSE 0
Base64OK(t) == LET body == Len(t) - PadOf(t) IN
    /\ Len(t) % 4 = 0
    /\ \A i \in 1 .. body : Ch(t, i) \in Alphabet
(* the unused low bits of the last digit are zero *)
Base64Canonical(t) ==
    CASE PadOf(t) = 0 -> TRUE
      [] PadOf(t) = 1 -> Ch(t, Len(t) - 1) \in {"A","E","I","M","Q","U","Y","c","g","k","o","s","w","0","4","8"}
      [] PadOf(t) = 2 -> Ch(t, Len(t) - 2) \in {"A","Q","g","w"}

---------------------------------------------------------------------------
(* The lines of one section: "good", "bad", or "loose" where a reader may  *)
(* be strict or tolerant (white space around lines, non-zero unused bits)  *)
LinesGood(ls, strict) ==
    LET n == Len(ls)
        st == [i \in 1 .. n |-> Strip(ls[i])]
        all == Cat(st)
    IN  IF strict /\ (\/ ("longLines" \notin Weak /\ \E i \in 1 .. n : Len(st[i]) > Columns)
                      \/ ("shortLines" \notin Weak /\ \E i \in 1 .. n - 1 : Len(st[i]) < Columns)) THEN "bad"
        ELSE IF ~Base64OK(all) THEN "bad"
        ELSE IF ~Base64Canonical(all) \/ \E i \in 1 .. n : st[i] # ls[i] THEN "loose"
        ELSE "good"

(* The reader, line by line.  State: in = 0 outside, else the line number  *)
(* of the begin line; sects = complete sections <<from, to, quality>>.     *)
Start == [in |-> 0, label |-> "", sects |-> <<>>, err |-> FALSE]
Line(s, lines, i, terminated, strict) ==
    LET t == lines[i] IN
    IF s.err THEN s
    ELSE IF s.in = 0
    THEN IF Marker(t, "BEGIN") /\ terminated
         THEN IF ValidLabel(MarkerLabel(t, "BEGIN")) \/ "anyLabel" \in Weak
              THEN [s EXCEPT !.in = i, !.label = MarkerLabel(t, "BEGIN")]
              ELSE [s EXCEPT !.err = TRUE]
         ELSE s
    ELSE IF Marker(t, "END")
    THEN IF MarkerLabel(t, "END") # s.label /\ "anyEnd" \notin Weak THEN [s EXCEPT !.err = TRUE]
         ELSE [s EXCEPT !.in = 0,
                        !.sects = Append(@, [from |-> s.in, to |-> i, label |-> s.label,
                                  q |-> LinesGood(SubSeq(lines, s.in + 1, i - 1), strict)])]
    ELSE IF Marker(t, "BEGIN") /\ "restart" \in Weak
    THEN [s EXCEPT !.in = i, !.label = MarkerLabel(t, "BEGIN")]
    ELSE s
Final(s, lines) ==
    IF s.in # 0 /\ ~s.err
    THEN IF "eofEnds" \in Weak
         THEN [s EXCEPT !.in = 0, !.sects = Append(@, [from |-> s.in, to |-> Len(lines) + 1, label |-> s.label,
                       q |-> LinesGood(SubSeq(lines, s.in + 1, Len(lines)), TRUE)])]
         ELSE [s EXCEPT !.err = TRUE]
    ELSE s
RECURSIVE RunFrom(_, _, _, _, _)
RunFrom(s, lines, i, terminated, strict) ==
    IF i > Len(lines) THEN Final(s, lines)
    ELSE RunFrom(Line(s, lines, i, terminated \/ i < Len(lines), strict), lines, i + 1, terminated, strict)
Sections(lines, terminated, strict) == RunFrom(Start, lines, 1, terminated, strict)

(* Looking for the one section with a label.  verdict: accept (the section *)
(* from..to), reject, or either.                                           *)
Verdict(v, a, b) == [v |-> v, from |-> a, to |-> b]
Wanted(s, label) == SelectSeq(s.sects, LAMBDA x : x.label = label)
Lookup(s, label) ==
    LET w == Wanted(s, label) IN
    IF s.err \/ Len(w) = 0 \/ (Len(w) > 1 /\ "firstWins" \notin Weak) \/ w[1].q = "bad"
    THEN Verdict("reject", 0, 0)
    ELSE Verdict(IF \A i \in DOMAIN s.sects : s.sects[i].q = "good" THEN "accept" ELSE "either", w[1].from, w[1].to)

---------------------------------------------------------------------------
(* Grammar: text = (outside line | section)*.  All the ways to read lines  *)
(* i.. as such: the set of lists of sections (empty set: impossible).      *)
RECURSIVE Tilings(_, _, _)
Tilings(lines, i, terminated) ==
    IF i > Len(lines) THEN {<<>>}
    ELSE LET t == lines[i]
             isBegin == Marker(t, "BEGIN") /\ (terminated \/ i < Len(lines))
             skip == IF isBegin THEN {} ELSE Tilings(lines, i + 1, terminated)
             sect == IF ~isBegin \/ ~ValidLabel(MarkerLabel(t, "BEGIN")) THEN {}
                     ELSE UNION {{<<[from |-> i, to |-> j, label |-> MarkerLabel(t, "BEGIN")]>> \o rest
                                    : rest \in Tilings(lines, j + 1, terminated)}
                                 : j \in {k \in i + 1 .. Len(lines) :
                                            /\ lines[k] = "-----END " \o MarkerLabel(t, "BEGIN") \o "-----"
                                            /\ \A m \in i + 1 .. k - 1 : ~Marker(lines[m], "END")}}
         IN  skip \cup sect
WellFormed(lines, terminated, label) ==
    \E x \in Tilings(lines, 1, terminated) :
        /\ Cardinality({k \in DOMAIN x : x[k].label = label}) = 1
        /\ \A k \in DOMAIN x : x[k].label = label =>
               LET ls == SubSeq(lines, x[k].from + 1, x[k].to - 1)
                   st == [m \in DOMAIN ls |-> Strip(ls[m])] IN
               /\ \A m \in DOMAIN ls : IF m < Len(ls) THEN Len(st[m]) = Columns ELSE Len(st[m]) <= Columns
               /\ Base64OK(Cat(st))

---------------------------------------------------------------------------
(* Stream objects: writers buffer, deliver on close; readers have a cursor *)
StreamState == [w |-> [h \in {1, 2} |-> [st |-> "none", n |-> 0, out |-> FALSE]],
                r |-> [h \in {1, 2} |-> [st |-> "none", pos |-> 0]]]
Op(op, h, n) == [op |-> op, h |-> h, n |-> n]
OpEnabled(s, o) ==
    CASE o.op = "new" -> s.w[o.h].st = "none"
      [] o.op \in {"write", "close"} -> s.w[o.h].st # "none"
      [] o.op = "flush" -> s.w[o.h].st = "open"
      [] o.op = "open" -> s.w[o.h].out /\ s.r[o.h].st = "none"
      [] o.op = "read" -> s.r[o.h].st = "open"
ReadLen(s, o) == LET left == s.w[o.h].n - s.r[o.h].pos IN IF o.n < 0 THEN left ELSE MinOf(o.n, left)
OpApply(s, o) ==
    CASE o.op = "new" -> [s EXCEPT !.w[o.h].st = "open"]
      [] o.op = "write" -> IF s.w[o.h].st = "open" THEN [s EXCEPT !.w[o.h].n = @ + o.n] ELSE s
      [] o.op = "flush" -> s
      [] o.op = "close" -> [s EXCEPT !.w[o.h].st = "closed", !.w[o.h].out = TRUE]
      [] o.op = "open" -> [s EXCEPT !.r[o.h].st = "open"]
      [] o.op = "read" -> [s EXCEPT !.r[o.h].pos = @ + ReadLen(s, o)]
(* what the caller and the owner of the underlying stream see:             *)
(* r, from and n of the bytes read; delivered: the text is complete        *)
OpResult(s, o) ==
    CASE o.op = "write" /\ s.w[o.h].st # "open" -> [r |-> "error", from |-> 0, n |-> 0]
      [] o.op = "write" -> [r |-> "ok", from |-> 0, n |-> o.n]
      [] o.op = "read" -> [r |-> "ok", from |-> IF ReadLen(s, o) = 0 THEN 0 ELSE s.r[o.h].pos, n |-> ReadLen(s, o)]
      [] OTHER -> [r |-> "ok", from |-> 0, n |-> 0]
=============================================================================
