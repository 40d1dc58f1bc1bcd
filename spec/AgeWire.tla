------------------------------ MODULE AgeWire ------------------------------
(***************************************************************************)
(* The age v1 file format as text and chunk sequence (C05, C06).           *)
(* A stanza is [type, args, body], body being unpadded base64 text.        *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets

CONSTANTS Columns,     \* 64; small in the design model
          ChunkSize    \* 65536; small in the design model

Intro == "age-encryption.org/v1"
NL == "\n"

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Range(s) == {s[i] : i \in DOMAIN s}

---------------------------------------------------------------------------
(* Text                                                                    *)

RECURSIVE Join(_, _)
Join(strs, sep) == IF strs = <<>> THEN ""
                   ELSE IF Len(strs) = 1 THEN strs[1]
                   ELSE strs[1] \o sep \o Join(Tail(strs), sep)
RECURSIVE Concat(_)
Concat(strs) == IF strs = <<>> THEN "" ELSE strs[1] \o Concat(Tail(strs))

(* full lines, ended by one that is shorter (possibly empty) *)
BodyLines(body) ==
    LET full == Len(body) \div Columns
    IN  [i \in 1 .. full + 1 |-> SubSeq(body, (i - 1) * Columns + 1, Min(i * Columns, Len(body)))]

RenderStanza(s) ==
    "-> " \o Join(<<s.type>> \o s.args, " ") \o NL \o
    Concat([i \in 1 .. Len(BodyLines(s.body)) |-> BodyLines(s.body)[i] \o NL])

(* what the header MAC covers *)
RenderCovered(stanzas) ==
    Intro \o NL \o Concat([i \in 1 .. Len(stanzas) |-> RenderStanza(stanzas[i])]) \o "---"
RenderHeader(stanzas, mac) == RenderCovered(stanzas) \o " " \o mac \o NL

---------------------------------------------------------------------------
(* The strict reader of stanza lines: lines (without newline) -> stanzas,  *)
(* or <<>> with ok = FALSE.  Only used to show that the text is            *)
(* unambiguous.                                                            *)
StartsWith(str, p) == Len(str) >= Len(p) /\ SubSeq(str, 1, Len(p)) = p
RECURSIVE ParseFrom(_, _, _)
(* mode "head": a stanza line or the footer; "body": body lines            *)
ParseFrom(lines, mode, acc) ==
    IF lines = <<>> THEN [ok |-> FALSE, st |-> acc]
    ELSE LET x == Head(lines) rest == Tail(lines) IN
    IF mode = "head"
    THEN IF StartsWith(x, "---") THEN [ok |-> rest = <<>>, st |-> acc]
         ELSE IF StartsWith(x, "-> ")
         THEN ParseFrom(rest, "body", Append(acc, [head |-> SubSeq(x, 4, Len(x)), body |-> ""]))
         ELSE [ok |-> FALSE, st |-> acc]
    ELSE IF Len(x) > Columns \/ StartsWith(x, "-") THEN [ok |-> FALSE, st |-> acc]
    ELSE ParseFrom(rest, IF Len(x) < Columns THEN "head" ELSE "body",
                   [acc EXCEPT ![Len(acc)].body = @ \o x])
LinesOf(stanzas) ==   \* the lines between intro and footer, then the footer
    LET RECURSIVE R(_)
        R(i) == IF i > Len(stanzas) THEN <<"---">>
                ELSE <<"-> " \o Join(<<stanzas[i].type>> \o stanzas[i].args, " ")>>
                     \o BodyLines(stanzas[i].body) \o R(i + 1)
    IN R(1)

---------------------------------------------------------------------------
(* Stanzas per kind of key                                                 *)
KindOf(name) == SubSeq(name, 1, 1)
TypeName == [x |-> "X25519", r |-> "ssh-rsa", e |-> "ssh-ed25519", p |-> "scrypt"]
TypeOf(name) == TypeName[KindOf(name)]

B64Len(n) == (n * 4 + 2) \div 3
ShareLen == B64Len(32)
TagLen == B64Len(4)
SaltLen == B64Len(16)
KeyBodyLen == B64Len(32)            \* 16 byte file key + 16 byte tag
ShapeOK(name, s, modulus) ==        \* modulus: bytes of the RSA modulus
    /\ s.type = TypeOf(name)
    /\ CASE KindOf(name) = "x" -> Len(s.args) = 1 /\ Len(s.args[1]) = ShareLen /\ Len(s.body) = KeyBodyLen
         [] KindOf(name) = "e" -> Len(s.args) = 2 /\ Len(s.args[1]) = TagLen /\ Len(s.args[2]) = ShareLen
                                  /\ Len(s.body) = KeyBodyLen
         [] KindOf(name) = "r" -> Len(s.args) = 1 /\ Len(s.args[1]) = TagLen /\ Len(s.body) = B64Len(modulus)
         [] KindOf(name) = "p" -> Len(s.args) = 2 /\ Len(s.args[1]) = SaltLen /\ Len(s.body) = KeyBodyLen
                                  /\ s.args[2] \in {"1","2","3","4","5","6","7","8","9","10","11","12","13",
                                        "14","15","16","17","18","19","20","21","22"}

---------------------------------------------------------------------------
(* Payload                                                                 *)
ChunkCount(len) == Max(1, (len + ChunkSize - 1) \div ChunkSize)
Layout(len) ==
    [i \in 1 .. ChunkCount(len) |->
        [ctr |-> i - 1, last |-> i = ChunkCount(len),
         len |-> IF i < ChunkCount(len) THEN ChunkSize ELSE len - ChunkSize * (ChunkCount(len) - 1)]]
=============================================================================
