----------------------------- MODULE MCAgeSshKeys -----------------------------
(* Small container format: names of one or two bytes, keys of two bytes.     *)
(* A state is a container after up to MaxEdits edits; the loader's answer is  *)
(* compared with the key that was put in.                                     *)
EXTENDS AgeSshKeys
CONSTANTS MaxEdits, Values, Few
VARIABLES base, b, given, edits
vars == <<base, b, given, edits>>

MMagic == <<77, 0>>
MRsa == <<82>>
MEd == <<69>>
MDsa == <<68>>
MEcPrefix == <<67>>
MEcMiddle == <<>>
MCurves == {<<50>>}
MKnown == {<<50>>, <<51>>}
MNone == <<78>>
MBcrypt == <<66>>
MCiphers == {<<65>>}

(* ideal functions: public key of a seed; passphrase-dependent shift of every byte *)
PubOf(s) == [i \in DOMAIN s |-> (7 * s[i] + 3 + i) % 256]
Val(s) == IF s = <<>> THEN 0 ELSE s[1]
Good(type, f) ==
    CASE type = MEd -> f[1] = PubOf(f[2])
      [] type = MRsa -> Len(f[1]) = 1 /\ f[1] = <<(Val(f[5]) * Val(f[6])) % 256>> /\ f[3] = <<(Val(f[5]) + Val(f[6])) % 256>>
                        /\ f[4] = <<(Val(f[5]) + 2 * Val(f[6])) % 256>> /\ f[2] = <<3>>
      [] type = MDsa -> f[4] = <<(Val(f[5]) * 3 + Val(f[3])) % 256>> /\ f[1] = <<23>> /\ f[2] = <<11>> /\ f[3] = <<2>>
      [] OTHER -> f[2] = <<4, (Val(f[3]) * 5 + Val(f[1])) % 256>>
Key(p) == Len(p) * 10 + p[1]
Shift(p, s) == [i \in DOMAIN s |-> (s[i] + i * Key(p)) % 256]
Unshift(p, s) == [i \in DOMAIN s |-> (s[i] + 256 * i * Key(p) - i * Key(p)) % 256]
Dec(o) == Unshift(given, o.enc)

Keys == {[type |-> MEd, s |-> <<PubOf(<<9, 200>>), <<9, 200>> \o PubOf(<<9, 200>>)>>, f |-> <<PubOf(<<9, 200>>), <<9, 200>>>>],
         [type |-> MRsa, s |-> <<<<77>>, <<3>>, <<18>>, <<29>>, <<7>>, <<11>>>>, f |-> <<<<77>>, <<3>>, <<18>>, <<29>>, <<7>>, <<11>>>>],
         [type |-> MDsa, s |-> <<<<23>>, <<11>>, <<2>>, <<17>>, <<5>>>>, f |-> <<<<23>>, <<11>>, <<2>>, <<17>>, <<5>>>>],
         [type |-> <<67, 50>>, s |-> <<<<50>>, <<4, 85>>, <<7>>>>, f |-> <<<<50>>, <<4, 85>>, <<7>>>>]}
Passes == {<<>>, <<1>>, <<1, 1>>, <<2>>}
Right == <<1>>
Comments == {<<>>, <<99>>, <<1, 2, 3>>}
Make(k, locked, comment) ==
    IF locked THEN Container(<<65>>, MBcrypt, PutString(<<5, 6>>) \o PutU32(2), <<80>>, Shift(Right, Inner(k.type, k.s, comment, 16)))
    ELSE Container(MNone, MNone, <<>>, <<80>>, Inner(k.type, k.s, comment, 8))

Init == \E k \in Keys, locked \in BOOLEAN, comment \in IF Few THEN {<<1, 2, 3>>} ELSE Comments :
          /\ base = [key |-> k, locked |-> locked, comment |-> comment, b |-> Make(k, locked, comment)]
          /\ b = base.b /\ edits = 0
          /\ given \in IF locked THEN (IF Few THEN {Right} ELSE Passes) ELSE {<<>>}
Edit ==
    /\ edits < MaxEdits /\ edits' = edits + 1
    /\ \/ \E i \in 1 .. Len(b), x \in Values : b' = [b EXCEPT ![i] = x] /\ b' # b
       \/ \E i \in 1 .. Len(b), d \in {1, 255, 128} : b' = [b EXCEPT ![i] = (b[i] + d) % 256]
       \/ \E i \in 0 .. Len(b) - 1 : b' = SubSeq(b, 1, i)
       \/ \E i \in 1 .. Len(b) : b' = SubSeq(b, 1, i - 1) \o SubSeq(b, i + 1, Len(b))
       \/ \E i \in 0 .. Len(b), x \in Values : b' = SubSeq(b, 1, i) \o <<x>> \o SubSeq(b, i + 1, Len(b))
    /\ UNCHANGED <<base, given>>
Next == Edit
Spec == Init /\ [][Next]_vars

Answer == Load(b, given, Dec, Good)
(* an edited container never yields another key *)
NeverOther == Answer.v = "refuse" \/ (Answer.fields = base.key.f /\ Answer.type = base.key.type)
              \/ (Answer.v = "loose" /\ Answer.fields = base.key.f)
(* an unedited container yields its key exactly with the right passphrase *)
RoundTrip == edits = 0 => IF given = (IF base.locked THEN Right ELSE <<>>)
                          THEN Answer.v = "key" /\ Answer.fields = base.key.f
                          ELSE Answer.v = "refuse"
(* cutting or appending is always noticed; so is damage to what is checked *)
Framed == edits = 1 /\ Len(b) # Len(base.b) /\ (IsPrefixOf(b, base.b) \/ IsPrefixOf(base.b, b)) => Answer.v = "refuse"
MagicChecked ==
    edits = 1 /\ Len(b) = Len(base.b) /\ (\E i \in 1 .. Len(Magic) : b[i] # base.b[i]) => Answer.v = "refuse"
CountChecked ==
    LET at == Len(Magic) + (IF base.locked THEN 4 + 1 + 4 + 1 + 4 + 10 ELSE 4 + 1 + 4 + 1 + 4) IN
    edits = 1 /\ Len(b) = Len(base.b) /\ (\E i \in 1 .. 4 : b[at + i] # base.b[at + i]) => Answer.v = "refuse"
CheckIntsChecked ==
    LET n == Len(Inner(base.key.type, base.key.s, base.comment, IF base.locked THEN 16 ELSE 8))
        start == Len(base.b) - n
    IN edits = 1 /\ Len(b) = Len(base.b) /\ (\E i \in 1 .. 8 : b[start + i] # base.b[start + i]) => Answer.v = "refuse"
BodyChecked ==
    LET blk == IF base.locked THEN 16 ELSE 8
        raw == 8 + 4 + Len(base.key.type) + FoldLeft(LAMBDA a, s : a + 4 + Len(s), 0, base.key.s)
        n == Len(Inner(base.key.type, base.key.s, base.comment, blk))
        start == Len(base.b) - n
    IN edits = 1 /\ Len(b) = Len(base.b) /\ (\E i \in 9 .. raw : b[start + i] # base.b[start + i])
       => Answer.v = "refuse" \/ (Answer.v = "loose" /\ IsPrefixOf(MEcPrefix, base.key.type))
PaddingChecked ==
    LET blk == IF base.locked THEN 16 ELSE 8
        raw == 8 + 4 + Len(base.key.type) + FoldLeft(LAMBDA a, s : a + 4 + Len(s), 0, base.key.s) + 4 + Len(base.comment)
        n == Len(Inner(base.key.type, base.key.s, base.comment, blk))
        start == Len(base.b) - n
    IN edits = 1 /\ Len(b) = Len(base.b) /\ (\E i \in raw + 1 .. n : b[start + i] # base.b[start + i]) => Answer.v = "refuse"
LengthsChecked ==   \* a comment length that reaches past the end is not a shorter comment
    LET blk == IF base.locked THEN 16 ELSE 8
        raw == 8 + 4 + Len(base.key.type) + FoldLeft(LAMBDA a, s : a + 4 + Len(s), 0, base.key.s)
        n == Len(Inner(base.key.type, base.key.s, base.comment, blk))
        at == Len(base.b) - n + raw
    IN edits = 1 /\ ~base.locked /\ Len(b) = Len(base.b) /\ (\E i \in 1 .. 3 : b[at + i] # base.b[at + i]) => Answer.v = "refuse"
=============================================================================
