----------------------------- MODULE GenAgeSshDir -----------------------------
EXTENDS AgeSshDir, TLC, Json, IOUtils, SequencesExt
VARIABLE x

Thorough == IOEnv.TIER = "thorough"
N(quick, thorough) == IF Thorough THEN thorough ELSE quick
Pick(S) == RandomElement(S)

GoodNames == {"id_rsa", "id_ed25519", "id_dsa", "id_", "id_rsa.pub", "id_rsa.bak", "id_a b", "id_-o", "id_[x]", "id_*", "id_ü", "id_rsa~",
              "id_.hidden", "id_\\n", "id_RSA", "id_zzz", "id_0"}
BadNames == {"my_id_rsa", "ID_rsa", ".id_rsa", "identity", "id-rsa", "id", "xid_rsa", "known_hosts", "config"}
Roots == {"home", "explicit", "tilde", "slash", "glob", "star", "question", "space"}
AllKinds == Kinds \cup Either
File(n, k, key) == [name |-> n, kind |-> k, key |-> IF k = "rsalarge" THEN "big" ELSE key]   \* there is one such key
(* keys are numbered; the driver has one of each kind per number *)
Case(root, files, others, target) == [root |-> root, files |-> files, others |-> others, target |-> target]

(* every kind beside two usable keys, sorted before, between and after them by name *)
Beside == {Case("home", <<File("id_c", k1, "k1"), File("id_f", k2, "k2"), File(n, k, "k3")>>, "none", "none") :
             n \in {"id_a", "id_d", "id_z"}, k \in AllKinds, <<k1, k2>> \in {<<"rsaopenssh", "edopenssh">>}}
Alone == {Case(r, <<File(n, k, "k1")>>, "none", "none") : r \in {"explicit"}, n \in {"id_x", "id_rsa.pub", "my_id_rsa"}, k \in AllKinds}
Named == {Case(Pick(Roots), <<File(n, k, "k1")>>, "none", "none") : n \in GoodNames \cup BadNames, k \in {"rsaopenssh", "edpkcs8"}}
Rooted == {Case(r, <<File("id_rsa", "rsapem", "k1"), File("id_ed25519", "edopenssh", "k2")>>, "none", "none") : r \in Roots}
NoDir == {Case(r, <<>>, "none", "none") : r \in Roots \cup {"missing", "isfile", "dangling"}}
Decrypts == {Case("home", <<File("id_c", k, "k1"), File("id_f", k2, "k2")>>, o, "age") :
               k \in AllKinds, k2 \in {"edopenssh"}, o \in {"keysfile", "keystxt", "password"}}
            \cup {Case("home", <<File(n, k, "k1"), File("id_f", "edopenssh", "k2"), File("id_h", "rsapem", "k3")>>, Pick({"none", "keystxt"}), t) :
               n \in {"id_a", "id_z"}, k \in AllKinds \ KeyKinds, t \in {"k2", "k3"}}
RECURSIVE Names(_, _)
Names(n, from) == IF n = 0 THEN <<>> ELSE LET m == Pick(from) IN <<m>> \o Names(n - 1, from \ {m})
Random(z) ==
    {LET m == Pick(2 .. 8)
         ns == Names(m, GoodNames \cup BadNames)
     IN Case(Pick(Roots), [i \in 1 .. m |-> File(ns[i], IF Pick({1, 2, 3}) = 1 THEN Pick(KeyKinds) ELSE Pick(AllKinds), "k" \o ToString(i))],
             "none", "none") : n0 \in 1 .. N(150, 3000)}
    \cup
    {LET m == Pick(2 .. 6)
         ns == Names(m, GoodNames)
     IN Case("home", [i \in 1 .. m |-> File(ns[i], Pick(AllKinds), "k" \o ToString(i))],
             Pick({"none", "keystxt", "keysfile"}), Pick({"age", "k1", "k2"})) : n0 \in 1 .. N(100, 2000)}
All(z) == Beside \cup Alone \cup Named \cup Rooted \cup NoDir \cup Decrypts \cup Random(z)
GenInit == x = 0 /\ JsonSerialize(IOEnv.OUT, SetToSeq(All(0)))
GenNext == FALSE /\ x' = x
GenSpec == GenInit /\ [][GenNext]_x
=============================================================================
