------------------------------ MODULE AgeSshDir ------------------------------
(***************************************************************************)
(* Looking for SSH identities in a directory (K04).  A directory is a set  *)
(* of entries [name, kind, key]; kinds say what the file is.  The scan     *)
(* visits the entries in an order nobody controls.                         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANT Weak

(* files that hold one usable private key *)
KeyKinds == {"rsaopenssh", "edopenssh", "rsapem", "rsapkcs8", "edpkcs8", "linkrsa", "linked", "private644", "commented",
             "private666", "private664", "private777", "private400", "stranger", "rsalarge", "longcomment", "longlead", "hardlink", "old", "future"}
(* files on which a loader raises; files on which it finds nothing *)
Raising == {"encopenssh", "encpem", "encpkcs8", "binary", "ecdsa384", "damagedbase64", "damagedpadding", "utf8text", "cert", "damagedseed",
            "unknowntype", "unknowncipher", "truncated", "nul", "wrongcheck", "der"}
Nothing == {"pub", "ecdsa", "ecdsapem", "dsa", "empty", "text", "directory", "dangling", "loop", "fifo", "socket", "agekey", "pubpem", "blank"}
Kinds == KeyKinds \cup Raising \cup Nothing
(* files that are usable or not depending on taste: they must not disturb the others *)
Either == {"longtrail", "twokeys", "encempty", "crlf", "leadingtext"}

Prefix(n) == IF Len(n) < 3 THEN n ELSE SubSeq(n, 1, 3)
Matches(n) == Prefix(n) = "id_"
Usable(e) == Matches(e.name) /\ e.kind \in KeyKinds
Wanted(dir) == {e.key : e \in {x \in dir : Usable(x)}}
Tolerated(dir) == Wanted(dir) \cup {e.key : e \in {x \in dir : Matches(x.name) /\ x.kind \in Either}}

(* one step of the scan: the effect of an entry on what was found *)
Effect(e, s) ==
    IF ~Matches(e.name) /\ "anyName" \notin Weak THEN s
    ELSE IF e.kind \in KeyKinds THEN [s EXCEPT !.found = @ \cup {e.key}]
    ELSE IF e.kind \in Raising THEN
        (IF "raise" \in Weak THEN [s EXCEPT !.state = "failed"]
         ELSE IF "stop" \in Weak THEN [s EXCEPT !.state = "done"] ELSE s)
    ELSE IF e.kind \in Nothing /\ "stopAtNothing" \in Weak THEN [s EXCEPT !.state = "done"]
    ELSE s

(* a decryption with the identities of the directory and others *)
Opens(dir, others, recipients) == (Wanted(dir) \cup others) \cap recipients # {}
=============================================================================
