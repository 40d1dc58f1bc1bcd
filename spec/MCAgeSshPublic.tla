--------------------------- MODULE MCAgeSshPublic ---------------------------
(* Lines of small keys after up to MaxEdits edits: what is read is what is   *)
(* written there, and keys are equal exactly if their texts are.             *)
EXTENDS AgeSshPublic
CONSTANTS MaxEdits, Values, Chars
VARIABLES base, b, edits
vars == <<base, b, edits>>
MRsa == <<82>>
MEd == <<69>>
Keys == {<<MRsa, <<<<3>>, <<5>>>>>>, <<MRsa, <<<<3>>, <<201>>>>>>, <<MRsa, <<<<5>>, <<201>>>>>>, <<MRsa, <<<<1, 1>>, <<1, 0, 129>>>>>>,
         <<MEd, <<<<3, 5>>>>>>, <<MEd, <<<<0, 200>>>>>>, <<MEd, <<<<1, 0>>>>>>}
(* blobs are edited as bytes, lines as characters *)
Init == \E k \in Keys : base = k /\ edits = 0 /\ b = [how |-> "blob", t |-> Blob(k[1], k[2])]
Edit ==
    /\ edits < MaxEdits /\ edits' = edits + 1
    /\ LET t == b.t IN
       \/ \E i \in 1 .. Len(t), x \in IF b.how = "blob" THEN Values ELSE Chars : b' = [b EXCEPT !.t[i] = x] /\ b' # b
       \/ \E i \in 0 .. Len(t) - 1 : b' = [b EXCEPT !.t = SubSeq(t, 1, i)]
       \/ \E i \in 1 .. Len(t) : b' = [b EXCEPT !.t = SubSeq(t, 1, i - 1) \o SubSeq(t, i + 1, Len(t))]
       \/ \E i \in 0 .. Len(t), x \in IF b.how = "blob" THEN Values ELSE Chars : b' = [b EXCEPT !.t = SubSeq(t, 1, i) \o <<x>> \o SubSeq(t, i + 1, Len(t))]
    /\ UNCHANGED base
Write == b.how = "blob" /\ b' = [how |-> "line", t |-> base[1] \o <<32>> \o B64(b.t)] /\ UNCHANGED <<base, edits>>
Next == Edit \/ Write
Spec == Init /\ [][Next]_vars

LineOf == IF b.how = "line" THEN b.t ELSE base[1] \o <<32>> \o B64(b.t)
(* judged without the parser: the text of the line is the text of a key *)
Exact == \A type \in {MRsa, MEd} :
    LET r == Read(LineOf, type)
        l == Words(LineOf)
    IN  r.v = "key" => \E f \in r.may : l.type = type /\ l.text = B64(Blob(type, f)) /\ (type = MEd => Len(f[1]) = EdLen)
(* a line has at most one reading as a key *)
OneKey == ~(Read(LineOf, MRsa).v = "key" /\ Read(LineOf, MEd).v = "key")
RoundTrip == edits = 0 => Read(LineOf, base[1]) = [v |-> "key", may |-> {base[2]}]
Equality == edits = 0 => \A k \in Keys : Same(base[1], base[2], k[1], k[2]) <=> Blob(base[1], base[2]) = Blob(k[1], k[2])
Bijective == edits = 0 => \A n \in 0 .. Len(b.t) : LET s == SubSeq(b.t, 1, n) IN UnB64(NoPad(B64(s))) = s
FingerprintsDiffer == edits = 0 => \A k \in Keys : Md5Text(b.t) = Md5Text(Blob(k[1], k[2])) \/ ShaText(b.t) = ShaText(Blob(k[1], k[2])) => b.how = "line" \/ k = base
=============================================================================
