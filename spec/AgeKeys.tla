------------------------------ MODULE AgeKeys ------------------------------
(***************************************************************************)
(* Key strings (K01) and identity files (K02).  Bech32 is specified in     *)
(* full, so that every text can be judged, not only texts made from keys.  *)
(* Bytes and 5-bit groups are numbers; texts are strings.                  *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, Bitwise, SequencesExt

CONSTANT Weak

Ch(t, i) == SubSeq(t, i, i)
XorOf(a, b) == a + b - 2 * (a & b)

---------------------------------------------------------------------------
(* Characters *)
Charset == "qpzry9x8gf2tvdw0s3jn54khce6mua7l"
Index == [c \in {Ch(Charset, i) : i \in 1 .. 32} |-> CHOOSE i \in 0 .. 31 : Ch(Charset, i + 1) = c]
Printable == "!\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Ord == [c \in {Ch(Printable, i) : i \in 1 .. Len(Printable)} |->
          32 + CHOOSE i \in 1 .. Len(Printable) : Ch(Printable, i) = c]
Uppers == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Lowers == "abcdefghijklmnopqrstuvwxyz"
LowerOf == [c \in {Ch(Uppers, i) : i \in 1 .. 26} |-> Ch(Lowers, CHOOSE i \in 1 .. 26 : Ch(Uppers, i) = c)]
UpperOf == [c \in {Ch(Lowers, i) : i \in 1 .. 26} |-> Ch(Uppers, CHOOSE i \in 1 .. 26 : Ch(Lowers, i) = c)]
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1]
          ELSE LET m == Len(s) \div 2 IN Cat(SubSeq(s, 1, m)) \o Cat(SubSeq(s, m + 1, Len(s)))
MapChars(t, f) == Cat([i \in 1 .. Len(t) |-> IF Ch(t, i) \in DOMAIN f THEN f[Ch(t, i)] ELSE Ch(t, i)])
ToLower(t) == MapChars(t, LowerOf)
ToUpper(t) == MapChars(t, UpperOf)

---------------------------------------------------------------------------
(* Checksum: remainder of a polynomial over GF(32)                         *)
Generator == <<996825010, 642813549, 513874426, 1027748829, 705979059>>
RECURSIVE Combine(_, _)
Combine(top, i) == IF i = 5 THEN 0
                   ELSE XorOf(IF (top \div (2 ^ i)) % 2 = 1 THEN Generator[i + 1] ELSE 0, Combine(top, i + 1))
Reduction == [top \in 0 .. 31 |-> Combine(top, 0)]
Shift(chk, v) == XorOf(XorOf((chk % 33554432) * 32, v), Reduction[chk \div 33554432])
Polymod(values) == FoldLeft(Shift, 1, values)
Expand(hrp) == [i \in 1 .. Len(hrp) |-> Ord[Ch(hrp, i)] \div 32] \o <<0>> \o
               [i \in 1 .. Len(hrp) |-> Ord[Ch(hrp, i)] % 32]
ChecksumOK(hrp, data) == "noChecksum" \in Weak \/ Polymod(Expand(hrp) \o data) = 1
ChecksumTo(hrp, data, const) ==      \* Bech32: const = 1
    LET p == XorOf(Polymod(Expand(hrp) \o data \o <<0, 0, 0, 0, 0, 0>>), const)
    IN  [i \in 1 .. 6 |-> (p \div (32 ^ (6 - i))) % 32]
Checksum(hrp, data) == ChecksumTo(hrp, data, 1)

---------------------------------------------------------------------------
(* Regrouping of bits *)
Bit(values, width, k) == (values[(k - 1) \div width + 1] \div (2 ^ (width - 1 - ((k - 1) % width)))) % 2
RECURSIVE Number(_, _, _, _, _)
Number(values, width, from, n, total) ==     \* n bits starting at bit number from; zero beyond the end
    IF n = 0 THEN 0
    ELSE 2 ^ (n - 1) * (IF from > total THEN 0 ELSE Bit(values, width, from)) + Number(values, width, from + 1, n - 1, total)
To5(bytes) == LET total == 8 * Len(bytes) IN
    [g \in 1 .. (total + 4) \div 5 |-> Number(bytes, 8, 5 * g - 4, 5, total)]
PadBits(groups) == (5 * Len(groups)) % 8
PadOK(groups) == "padIgnored" \in Weak \/
    /\ PadBits(groups) < 5
    /\ \A k \in 5 * Len(groups) - PadBits(groups) + 1 .. 5 * Len(groups) : Bit(groups, 5, k) = 0
To8(groups) == [b \in 1 .. (5 * Len(groups)) \div 8 |-> Number(groups, 5, 8 * b - 7, 8, 5 * Len(groups))]

---------------------------------------------------------------------------
(* Bech32 *)
EncodeGroups(hrp, groups) ==
    LET all == groups \o Checksum(hrp, groups)
    IN  hrp \o "1" \o Cat([i \in 1 .. Len(all) |-> Ch(Charset, all[i] + 1)])
Encode(hrp, bytes) == EncodeGroups(hrp, To5(bytes))
Fails == [ok |-> FALSE, hrp |-> "", bytes |-> <<>>]
DecodeLower(t) ==
    LET ones == {i \in 1 .. Len(t) : Ch(t, i) = "1"} IN
    IF ones = {} THEN Fails ELSE
    LET pos == CHOOSE i \in ones : \A j \in ones : j <= i
        hrp == SubSeq(t, 1, pos - 1)
        rest == SubSeq(t, pos + 1, Len(t))
    IN  IF Len(hrp) < 1 \/ Len(hrp) > 83 \/ Len(rest) < 6 THEN Fails
        ELSE IF \E i \in 1 .. Len(hrp) : Ch(hrp, i) \notin DOMAIN Ord THEN Fails
        ELSE IF \E i \in 1 .. Len(rest) : Ch(rest, i) \notin DOMAIN Index THEN Fails
        ELSE LET data == [i \in 1 .. Len(rest) |-> Index[Ch(rest, i)]]
                 payload == SubSeq(data, 1, Len(data) - 6)
             IN  IF ~ChecksumOK(hrp, data) \/ ~PadOK(payload) THEN Fails
                 ELSE [ok |-> TRUE, hrp |-> hrp, bytes |-> To8(payload)]
OneCase(t) == t = ToLower(t) \/ t = ToUpper(t)
Decode(t) == IF OneCase(t) THEN DecodeLower(ToLower(t)) ELSE Fails

---------------------------------------------------------------------------
(* Keys: kind "pub" or "priv"; a key is its 32 bytes.  Texts mixing upper  *)
(* and lower case may be taken or refused.                                 *)
Hrp == [pub |-> "age", priv |-> "age-secret-key-"]
KeyText(kind, bytes) == IF kind = "pub" THEN Encode(Hrp[kind], bytes) ELSE ToUpper(Encode(Hrp[kind], bytes))
ReadKey(kind, t) ==      \* [v: key/none/either, bytes]
    LET d == DecodeLower(ToLower(t)) IN
    IF ~d.ok \/ (d.hrp # Hrp[kind] /\ "anyPrefix" \notin Weak)
             \/ (Len(d.bytes) # 32 /\ "anyLength" \notin Weak) THEN [v |-> "none", bytes |-> <<>>]
    ELSE [v |-> IF OneCase(t) THEN "key" ELSE "either", bytes |-> d.bytes]

---------------------------------------------------------------------------
(* Identity files: a sequence of lines                                     *)
Blank == {" ", "\t"}
RECURSIVE StripL(_)
StripL(t) == IF t # "" /\ Ch(t, 1) \in Blank THEN StripL(SubSeq(t, 2, Len(t))) ELSE t
RECURSIVE StripR(_)
StripR(t) == IF t # "" /\ Ch(t, Len(t)) \in Blank THEN StripR(SubSeq(t, 1, Len(t) - 1)) ELSE t
Strip(t) == StripR(StripL(t))
(* "~" stands for a character which some take for white space, or for the end of a line: at the edges of *)
(* a line it may be passed over or not, elsewhere it is a character like others                          *)
Odd == Blank \cup {"~"}
RECURSIVE BareL(_)
BareL(t) == IF t # "" /\ Ch(t, 1) \in Odd THEN BareL(SubSeq(t, 2, Len(t))) ELSE t
RECURSIVE BareR(_)
BareR(t) == IF t # "" /\ Ch(t, Len(t)) \in Odd THEN BareR(SubSeq(t, 1, Len(t) - 1)) ELSE t
LineKind(t) ==
    LET s == Strip(t)
        u == BareR(BareL(s))
    IN
    IF s = "" THEN [v |-> "skip", bytes |-> <<>>]
    ELSE IF Ch(s, 1) = "#" THEN [v |-> "skip", bytes |-> <<>>]
    ELSE IF u # s THEN IF u = "" \/ Ch(u, 1) = "#" THEN [v |-> "mayskip", bytes |-> <<>>]
                       ELSE LET k == ReadKey("priv", u) IN IF k.v = "key" THEN [k EXCEPT !.v = "either"] ELSE k
    ELSE ReadKey("priv", s)

(* "~" as a character that is no white space anywhere (NUL, SUB, a byte order mark, a zero-width space) *)
SolidKind(t) == LET s == Strip(t) IN
    IF s = "" \/ Ch(s, 1) = "#" THEN [v |-> "skip", bytes |-> <<>>] ELSE ReadKey("priv", s)
(* "~" as a byte that belongs to no character: never white space; who cannot decode it may refuse even a comment *)
RECURSIVE Has(_, _)
Has(t, c) == t # "" /\ (Ch(t, 1) = c \/ Has(SubSeq(t, 2, Len(t)), c))
RawKind(t) ==
    LET s == Strip(t) IN
    IF ~Has(t, "~") THEN LineKind(t)
    ELSE IF Ch(s, 1) = "#" THEN [v |-> "mayskip", bytes |-> <<>>]
    ELSE [v |-> "none", bytes |-> <<>>]

(* the reader: one line after the other; kinds[i] = LineKind(lines[i])     *)
FileStart == [i |-> 1, keys |-> <<>>, err |-> FALSE, loose |-> FALSE]
FileStep(s, kinds) ==
    LET x == kinds[s.i] IN
    CASE x.v = "skip" -> [s EXCEPT !.i = @ + 1]
      [] x.v = "mayskip" -> [s EXCEPT !.i = @ + 1, !.loose = TRUE]
      [] x.v \in {"key", "either"} ->
            [s EXCEPT !.i = @ + 1, !.loose = @ \/ x.v = "either",
                      !.keys = IF "lastKeyOnly" \in Weak THEN <<x.bytes>>
                               ELSE IF "newestFirst" \in Weak THEN <<x.bytes>> \o @ ELSE Append(@, x.bytes)]
      [] x.v = "none" ->
            IF "skipDamaged" \in Weak THEN [s EXCEPT !.i = @ + 1]
            ELSE IF "stopAtDamaged" \in Weak THEN [s EXCEPT !.i = Len(kinds) + 1]
            ELSE [s EXCEPT !.err = TRUE, !.i = Len(kinds) + 1]
RECURSIVE FileRun(_, _)
FileRun(s, kinds) == IF s.i > Len(kinds) THEN s ELSE FileRun(FileStep(s, kinds), kinds)
Raws == {"rawff", "rawe9", "rawc3", "raw80"}
Solids == {"nul", "sub", "bom", "zwsp"}
ReadFile(lines, sep) == FileRun(FileStart, [i \in DOMAIN lines |->
    IF sep \in Raws THEN RawKind(lines[i]) ELSE IF sep \in Solids THEN SolidKind(lines[i]) ELSE LineKind(lines[i])])
=============================================================================
