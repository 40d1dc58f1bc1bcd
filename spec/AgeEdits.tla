------------------------------ MODULE AgeEdits ------------------------------
(* The attacker's single edits of a file with n stanzas / m chunks, taking  *)
(* parts from file number 2.                                                *)
EXTENDS Naturals

E(op, i, j, g, w) == [op |-> op, i |-> i, j |-> j, g |-> g, w |-> w]

(* made-up stanzas *)
Grease == {"plain", "noarg", "nobody", "args", "long", "full", "odd", "dashes", "lower", "prefix", "suffix"}
HeaderEdits(n, n2) ==
    {E("H.drop", i, 0, 0, "") : i \in 1 .. n} \cup {E("H.dup", i, 0, 0, "") : i \in 1 .. n} \cup
    {E("H.swap", i, i + 1, 0, "") : i \in 1 .. n - 1} \cup
    {E("H.ins", i, j, 2, "") : i \in 1 .. n2, j \in 1 .. n + 1} \cup
    {E("H.repl", i, j, 2, "") : i \in 1 .. n2, j \in 1 .. n} \cup
    {E("H.type", i, 0, 0, w) : i \in 1 .. n, w \in {"known", "unknown"}} \cup
    {E("H.arg", i, j, 0, w) : i \in 1 .. n, j \in 0 .. 1, w \in {"flip", "drop", "bits", "pad", "add"}} \cup
    {E("H.body", i, 0, 0, w) : i \in 1 .. n, w \in {"flip", "cut", "add", "empty", "pad", "noise", "bits"}} \cup
    {E("H.fmt", i, 0, 0, w) : i \in 1 .. n, w \in {"trail", "dbl", "tab", "lead", "rewrap", "crlf", "blank"}} \cup
    {E("H.new", i, 0, 0, w) : i \in 1 .. n + 1, w \in Grease} \cup
    {E("H.merge", i, 0, 0, "") : i \in 1 .. n - 1} \cup
    {E("H.pre", 0, 0, 0, w) : w \in {"junk", "blank"}} \cup
    {E("H.intro", 0, 0, 0, w) : w \in {"trail", "crlf", "lead", "v2", "case", "empty", "twice", "bom", "nul", "vt", "tab", "dbl", "cut", "slash", "v1b"}} \cup
    {E("M.mac", 0, 0, 0, w) : w \in {"flip", "cut", "empty", "zero", "none", "long", "long1", "twice", "half", "word", "words", "front", "comma"}} \cup
    {E("M.other", 0, 0, 2, ""), E("M.remac", 0, 0, 2, "")} \cup
    {E("M.enc", 0, 0, 0, w) : w \in {"pad", "bits", "trail"}}

PayloadEdits(m, m2) ==
    {E("P.drop", i, 0, 0, "") : i \in 1 .. m} \cup {E("P.dup", i, 0, 0, "") : i \in 1 .. m} \cup
    {E("P.swap", i, j, 0, "") : i \in 1 .. m - 1, j \in 2 .. m} \cup
    {E("P.all", 0, 0, 2, ""), E("P.none", 0, 0, 0, ""), E("N.flip", 0, 0, 0, ""),
     E("N.flip", 0, 127, 0, ""), E("N.cut", 0, 15, 0, ""), E("N.cut", 0, 0, 0, ""),
     E("N.other", 0, 0, 2, "")} \cup
    {E("P.app", 0, j, 0, "") : j \in {1, 16, 17, 65552}} \cup
    {E("P.app", 0, 0, 0, w) : w \in {"crlf", "nlnl", "eof", "zeros16", "zeros512", "blanks"}} \cup
    {E("P.app", 0, j, 0, "byte") : j \in {0, 10, 13, 26, 32}} \cup
    {E("N.ins", 0, j, 0, "") : j \in {0, 10, 13, 32}} \cup
    {E("P.ins", i, j, 2, "") : i \in 1 .. m2, j \in 1 .. m + 1} \cup
    {E("P.repl", i, j, 2, "") : i \in 1 .. m2, j \in 1 .. m} \cup
    {E("P.edit", i, j, 0, "flip") : i \in 1 .. m, j \in {0, 77}} \cup
    {E("P.edit", i, 0, 0, w) : i \in 1 .. m, w \in {"tagflip", "cut", "cuttag", "add", "zero"}} \cup
    {E("P.trunc", i, j, 0, "") : i \in 0 .. m - 1, j \in {0, 1, 15, 16, 17}}
=============================================================================
