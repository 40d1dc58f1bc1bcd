----------------------------- MODULE MCAgeArmor -----------------------------
(* Design check: the line machine accepts exactly the texts of the grammar, *)
(* and never a proper prefix of what the writer produces.                   *)
EXTENDS AgeArmor

CONSTANTS MaxLines, MaxData
VARIABLES doc, term, i, s, mode

Label == "L"
Tokens == {"-----BEGIN L-----", "-----END L-----", "-----BEGIN O-----", "-----END O-----", "-----BEGIN o-----", "-----END o-----",
           "AAAA", "AA", "AAAAAAAA", "", "A*==", " AAAA", "AA=="}
Data == [n \in 0 .. 12 |-> SubSeq("QUJDREVGR0hJ", 1, n)]

Init ==
    /\ i = 1 /\ s = Start /\ term \in BOOLEAN
    /\ \/ mode = "doc" /\ doc \in UNION {[1 .. n -> Tokens] : n \in 0 .. MaxLines}
       \/ mode = "prefix" /\ \E n \in {x \in 0 .. MaxData : x % 4 = 0} :
              \E k \in 0 .. Len(Section(Label, Data[n])) : doc = SubSeq(Section(Label, Data[n]), 1, k)
Next == \/ i <= Len(doc) /\ s' = Line(s, doc, i, term \/ i < Len(doc), TRUE) /\ i' = i + 1
           /\ UNCHANGED <<doc, term, mode>>
        \/ i = Len(doc) + 1 /\ s' = Final(s, doc) /\ i' = i + 1 /\ UNCHANGED <<doc, term, mode>>
Spec == Init /\ [][Next]_<<doc, term, i, s, mode>>
Done == i = Len(doc) + 2
Accepts == Lookup(s, Label).v # "reject"
GrammarOK == (Done /\ mode = "doc") => (Accepts = WellFormed(doc, term, Label))
NoPrefix == (Done /\ mode = "prefix") =>
    (Accepts = (doc # <<>> /\ doc[Len(doc)] = "-----END L-----"))
SameRun == Done => s = Sections(doc, term, TRUE)
=============================================================================
