----------------------------- MODULE GenAgeGenerate -----------------------------
EXTENDS AgeGenerate, TLC, Json, IOUtils, SequencesExt
VARIABLE z0
Thorough == IOEnv.TIER = "thorough"
N(quick, thorough) == IF Thorough THEN thorough ELSE quick
Pick(S) == RandomElement(S)
Run(kind, mode) == [k |-> "run", kind |-> kind, mode |-> mode, umask |-> 18, old |-> "long", room |-> -1, err |-> "pipe", so |-> Pick({"open", "closed"}), env |-> Pick({"plain", "odd"}), si |-> Pick({"null", "null", "tty", "closed"}),
    spell |-> Pick({"short", "long", "attached", "joined"}), name |-> Pick({"out.txt", "out.txt", "key file", "-k", "schlüssel", "folder/keys", "./x"}), unbuf |-> Pick({FALSE, FALSE, TRUE}), real |-> FALSE]
Regular == {"file", "link", "stdout", "dash", "hard", "hardout"}
Other == {"pipe", "socket", "tty", "dashtty", "fifo", "null", "nullout", "charlink", "dashpipe", "rdwr"}
Broken == {"nodir", "folder", "full", "stdoutfull", "closed", "epipe", "readonly"}
Out(z) ==
    {Run(k, m) : k \in {"file", "stdout"}, m \in 0 .. 511} \cup
    {Run(k, m) : k \in {"link", "dash", "fifo", "hard", "hardout"}, m \in {0, 7, 56, 63, 64, 384, 420, 438, 448, 511} \cup {Pick(0 .. 511) : n0 \in 1 .. N(8, 100)}} \cup
    {[Run("new", 438) EXCEPT !.umask = u] : u \in 0 .. 63 \cup {127, 511 - 384}} \cup
    {Run(k, 511) : k \in Other} \cup {Run(k, 384) : k \in Other} \cup {Run(k, 420) : k \in Broken} \cup
    {[Run(k, m) EXCEPT !.old = o] : k \in {"file", "stdout"}, m \in {384, 420}, o \in {"empty", "short", "keys"}} \cup
    {Run(k, s * 512 + m) : k \in {"file", "stdout"}, s \in 1 .. 7, m \in {0, 384, 420, 448, 457}} \cup
    {[Run(k, 420) EXCEPT !.room = r, !.unbuf = FALSE] : k \in {"file", "stdout", "new"}, r \in {0, 1, 20, 28, 29, 30, 93, 94, 95, 150, 168, 169, 170, 171, 172}} \cup
    {[Run(k, m) EXCEPT !.err = "closed", !.real = r] : k \in {"file", "stdout", "new", "dash", "pipe", "tty", "nullout", "socket"}, m \in {384, 420},
        r \in BOOLEAN} \cup
    {[Run(Pick(Regular \cup Other \cup Broken), 420) EXCEPT !.err = "closed"] : n0 \in 1 .. N(20, 200)} \cup
    {[Run(Pick(Regular \cup {"pipe", "tty", "new"}), Pick(0 .. 511)) EXCEPT !.real = TRUE] : n0 \in 1 .. N(24, 300)}
GenInit == z0 = 0 /\ JsonSerialize(IOEnv.OUT, SetToSeq(Out(0)))
GenNext == FALSE /\ z0' = z0
GenSpec == GenInit /\ [][GenNext]_z0
=============================================================================
