----------------------------- MODULE GenAgeSshKeys -----------------------------
(* Scenarios for K03: containers with deviations from the format, sweeps of    *)
(* byte edits, files of ssh-keygen, PEM files, edits of the text around.       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
VARIABLE x

Thorough == IOEnv.TIER = "thorough"
N(quick, thorough) == IF Thorough THEN thorough ELSE quick
Pick(S) == RandomElement(S)

Keys == {"ed1", "rsa4", "ec256", "ec521", "ec224", "dsa1"}
MoreKeys == Keys \cup {"ed2", "ed3", "rsa1", "rsa2", "rsa3", "rsa5", "ec384"}
EntryOf(k) == IF k \in {"ed1", "ed2", "ed3"} THEN {"openssh", "edpem", "file"}
              ELSE IF k \in {"rsa1", "rsa2", "rsa3", "rsa4", "rsa5"} THEN {"openssh", "rsapem", "file"}
              ELSE {"openssh", "file"}
Ciphers == {"none", "aes128-ctr", "aes192-ctr", "aes256-ctr"}
Passes == {"one", "two", "utf", "long", "nul", "space"}
Givens == {"right", "none", "empty", "other", "longer", "prefix"}
NearGivens == {"nul", "cutnul", "newline", "crlf", "trail", "lead", "strip", "case", "first72", "change73", "last", "twice", "first8", "latin"}
Rounds == N({"1", "2", "3", "16", "64", "65", "100", "250"}, {"1", "2", "3", "15", "16", "17", "31", "32", "63", "64", "65", "100", "127", "128", "129", "250", "256", "1000", "4096"})

Devs == {
    <<"magic", "short">>, <<"magic", "v2">>, <<"magic", "lower">>, <<"magic", "empty">>,
    <<"cipher", "aes256-cbc">>, <<"cipher", "3des-cbc">>, <<"cipher", "aes256-gcm@openssh.com">>,
    <<"cipher", "AES256-CTR">>, <<"cipher", "aes256-ct">>, <<"cipher", "">>, <<"cipher", "none ">>, <<"cipher", "None">>,
    <<"kdf", "none">>, <<"kdf", "bcrypt">>, <<"kdf", "scrypt">>, <<"kdf", "">>, <<"kdf", "BCRYPT">>,
    <<"opts", "empty">>, <<"opts", "nosalt">>, <<"opts", "norounds">>, <<"opts", "extra">>, <<"opts", "zero">>,
    <<"count", "0">>, <<"count", "2">>, <<"count", "3">>, <<"count", "256">>, <<"count", "16777217">>,
    <<"pub", "empty">>, <<"pub", "other">>, <<"pub", "garbage">>, <<"pub", "long">>,
    <<"privlen", "-1">>, <<"privlen", "1">>, <<"privlen", "-8">>, <<"privlen", "8">>, <<"privlen", "65536">>, <<"privlen", "zero">>,
    <<"tail", "1">>, <<"tail", "8">>, <<"tail", "300">>,
    <<"check", "differ1">>, <<"check", "differ2">>, <<"check", "differ3">>, <<"check", "differ4">>,
    <<"check", "zeroes">>, <<"check", "zeroes1">>, <<"check", "ones1">>, <<"check", "ones">>, <<"check", "bothzero">>, <<"check", "bothones">>, <<"check", "last">>, <<"check", "complement">>, <<"check", "swapped">>,
    <<"type", "">>, <<"type", "ssh-xmss@openssh.com">>, <<"type", "sk-ssh-ed25519@openssh.com">>, <<"type", "SSH-RSA">>,
    <<"type", "ssh-rsa">>, <<"type", "ssh-ed25519">>, <<"type", "ssh-dss">>, <<"type", "ecdsa-sha2-nistp256">>,
    <<"type", "ssh-ed25519-cert-v01@openssh.com">>, <<"type", "ssh-ed2551">>, <<"type", "ssh-rsa ">>, <<"type", "ssh-ed448">>,
    <<"body", "otherpub">>, <<"body", "otherpriv">>, <<"body", "halfpub1">>, <<"body", "halfpub2">>, <<"body", "short">>, <<"body", "long">>,
    <<"body", "negative">>, <<"body", "empty">>, <<"body", "missing">>, <<"body", "extra">>, <<"body", "plusone">>,
    <<"body", "swap">>, <<"body", "lead0">>, <<"body", "shortpub">>, <<"body", "zero">>,
    <<"comment", "0">>, <<"comment", "1">>, <<"comment", "7">>, <<"comment", "255">>, <<"comment", "3000">>, <<"comment", "bytes">>,
    <<"comment", "past">>, <<"comment", "missing">>,
    <<"pad", "none">>, <<"pad", "short">>, <<"pad", "long">>, <<"pad", "verylong">>, <<"pad", "wrong">>, <<"pad", "wrong1">>, <<"pad", "zero">>, <<"pad", "from0">>,
    <<"pad", "reversed">>, <<"pad", "wrong257">>,
    <<"cut", "1">>, <<"cut", "8">>, <<"cut", "half">>, <<"cut", "all">>}
Base(k, ci, p, g, e, devs) == [kind |-> "fields", key |-> k, cipher |-> ci, pass |-> p, given |-> g, entry |-> e, devs |-> devs]
SomeEntry(k) == Pick(EntryOf(k))

Plain ==   \* every key, cipher, passphrase, given passphrase and entry point without deviation
    {Base(k, "none", "one", g, e, <<>>) : k \in MoreKeys, g \in {"none", "other"}, e \in {"openssh", "file"}}
    \cup {Base(k, "none", "one", "none", e, <<>>) : k \in MoreKeys, e \in {"rsapem", "edpem"}}
    \cup {Base(k, ci, p, g, "openssh", <<>>) : k \in N({"ed1"}, {"ed1", "rsa4", "ec256"}), ci \in Ciphers \ {"none"}, p \in Passes, g \in Givens}
    \cup {Base(k, ci, Pick(Passes), Pick(Givens), SomeEntry(k), <<>>) : k \in MoreKeys, ci \in Ciphers}
Single ==
    {Base(k, "none", "one", "none", "openssh", <<d>>) : k \in Keys, d \in Devs}
    \cup {Base(k, Pick(Ciphers \ {"none"}), "one", "right", "openssh", <<d>>) : k \in {"ed1", "rsa4"}, d \in Devs}
    \cup {Base(k, "none", "one", "none", e, <<d>>) : k \in {"ed1"}, e \in {"edpem", "file"}, d \in Devs}
    \cup {Base(k, "none", "one", "none", e, <<d>>) : k \in {"rsa4"}, e \in {"rsapem", "file"}, d \in Devs}
Locks ==   \* passphrases near the right one; numbers of rounds; lengths of salts
    {Base(k, Pick(Ciphers \ {"none"}), p, g, Pick(EntryOf(k)), <<>>) : k \in N({"ed1"}, {"ed1", "rsa4"}), p \in Passes, g \in NearGivens}
    \cup {Base(k, Pick(Ciphers \ {"none"}), Pick(Passes), Pick({"right", "right", "other"}), Pick(EntryOf(k)), <<<<"opts", "rounds" \o r>>>>) : k \in {"ed1", "rsa4"}, r \in Rounds}
    \cup {Base("ed1", Pick(Ciphers \ {"none"}), "one", "right", e, <<<<"opts", "rounds" \o r>>>>) : e \in EntryOf("ed1"), r \in {"16", "100"}}
    \cup {Base("ed1", Pick(Ciphers \ {"none"}), "one", "right", Pick(EntryOf("ed1")), <<<<"opts", "salt" \o n>>>>) : n \in {"1", "8", "15", "17", "32", "64", "255", "1000"}}
Double(z) ==
    {LET k == Pick(Keys) ci == Pick(Ciphers) IN
     Base(k, ci, Pick(Passes), IF ci = "none" THEN "none" ELSE Pick({"right", "right", "right", "none", "other"}), SomeEntry(k),
          [i \in 1 .. Pick(2 .. 3) |-> Pick(Devs)]) : n0 \in 1 .. N(300, 4000)}
Sweep(k, ci, op, step, from) == [kind |-> "sweep", key |-> k, cipher |-> ci, pass |-> "one", given |-> IF ci = "none" THEN "none" ELSE "right",
                                 entry |-> "openssh", op |-> op, step |-> step, from |-> from]
Ops == {"flip0", "flip7", "flip", "cut", "drop", "insert", "zero"}
Sweeps ==
    {Sweep("ed1", "none", op, N(4, 4), f) : op \in Ops, f \in 0 .. 3}
    \cup {Sweep("ed1", "aes256-ctr", op, N(8, 8), f) : op \in Ops, f \in N({Pick(0 .. 7)}, 0 .. 7)}
    \cup {Sweep(k, "none", op, N(16, 16), f) : k \in {"rsa4", "ec256", "dsa1"}, op \in Ops, f \in N({Pick(0 .. 15)}, 0 .. 15)}
Keygen ==
    {[kind |-> "keygen", type |-> t[1], bits |-> t[2], cipher |-> ci, pass |-> p, given |-> g, entry |-> e, comment |-> m, rounds |-> Pick({1, 2, 16, 100})] :
        t \in {<<"ed25519", 0>>, <<"ecdsa", 256>>, <<"ecdsa", 521>>, <<"ecdsa", 384>>, <<"rsa", 1024>>, <<"rsa", 2048>>},
        ci \in {"none", "aes256-ctr"}, p \in {"one"}, g \in {"right"}, e \in {"openssh", "file"}, m \in {"", "user@host"}}
    \cup {[kind |-> "keygen", type |-> "ed25519", bits |-> 0, cipher |-> ci, pass |-> p, given |-> g, entry |-> e, comment |-> "a b c", rounds |-> Pick({1, 16, 70, 120})] :
        ci \in Ciphers, p \in N({"two"}, Passes \ {"nul"}), g \in {"right", "other"}, e \in {"openssh", "edpem"}}
Texts ==
    {[kind |-> "text", key |-> k, cipher |-> "none", pass |-> "one", given |-> "none", entry |-> e, op |-> op, n |-> n] :
        k \in {"ed1"}, e \in {"openssh", "file"},
        op \in {"none", "crlf", "leading", "trailing", "width70", "width64", "oneline", "label", "endlabel", "noend", "nobegin", "othersection",
                "badchar", "badpad", "empty", "binary", "utf8"}, n \in {0}}
    \cup {[kind |-> "text", key |-> k, cipher |-> "none", pass |-> "one", given |-> "none", entry |-> "openssh", op |-> "cutchars", n |-> n] :
        k \in {"ed1"}, n \in 1 .. N(40, 420)}
    \cup {[kind |-> "text", key |-> "rsa4", cipher |-> "none", pass |-> "one", given |-> "none", entry |-> "rsapem", op |-> "cutlines", n |-> n] : n \in 1 .. 18}
Pems ==
    {[kind |-> "pem", key |-> k, format |-> f, pass |-> p, given |-> g, entry |-> e, cut |-> 0] :
        k \in {"rsa1", "rsa4", "ed1"}, f \in {"traditional", "pkcs8"}, p \in {"", "one", "utf"}, g \in {"right", "none", "other"}, e \in {"class", "file"}}
    \cup {[kind |-> "pem", key |-> k, format |-> f, pass |-> p, given |-> "right", entry |-> e, cut |-> n] :
        k \in {"rsa4", "ed1"}, f \in {"traditional", "pkcs8"}, p \in {"", "one"}, e \in {"class", "file"}, n \in {2, 20, 30, 40, 60, 100, 5000}}


GenInit == x = 0 /\ JsonSerialize(IOEnv.OUT, SetToSeq(Plain \cup Single \cup Locks \cup Double(0)) \o SetToSeq(Sweeps) \o SetToSeq(Keygen) \o SetToSeq(Texts) \o SetToSeq(Pems))
GenNext == FALSE /\ x' = x
GenSpec == GenInit /\ [][GenNext]_x
=============================================================================
