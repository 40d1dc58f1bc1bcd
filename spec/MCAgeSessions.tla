--------------------------- MODULE MCAgeSessions ---------------------------
(* AgeSessions as a behaviour specification, for small constants *)
EXTENDS AgeSessions, TLC

CONSTANTS MaxOps, Sizes

VARIABLES s,         \* state of all objects
          given,     \* bytes accepted per writer (answers "ok" to write), by the caller's account
          got,       \* bytes returned per reader
          aborted,   \* writers whose creation failed or whose block was aborted while open
          ops        \* number of calls so far
vars == <<s, given, got, aborted, ops>>

AllOps == {Op("new", h, n, 0, "") : h \in Handles, n \in 1 .. 2} \cup
          {Op("newbad", h, n, 0, "key") : h \in Handles, n \in 0 .. 1} \cup
          {Op("write", h, n, 0, "") : h \in Handles, n \in Sizes} \cup
          {Op(k, h, 0, 0, "") : h \in Handles, k \in {"close", "abort"}} \cup
          {Op("open", h, 0, d, "") : h \in Handles, d \in Readers} \cup
          {Op("read", 1, n, d, "") : n \in {-1, 1}, d \in Readers} \cup
          {Op("line", 1, n, d, "") @@ [cnt |-> c, nl |-> e] : n \in {-1, 1}, d \in Readers, c \in 0 .. 2, e \in 0 .. 2}

Init == s = State0 /\ given = [h \in Handles |-> 0] /\ got = [d \in Readers |-> <<>>]
        /\ aborted = {} /\ ops = 0
Call(o) ==
    /\ ops < MaxOps /\ Enabled(s, o) /\ (o.op = "line" => LineFits(s, o))
    /\ LET a == Result(s, o) IN
       /\ s' = Apply(s, o)
       /\ given' = IF o.op = "write" /\ a.r = "ok" THEN [given EXCEPT ![o.h] = @ + a.n] ELSE given
       /\ got' = IF o.op \in {"read", "line"} /\ a.n > 0
                 THEN [got EXCEPT ![o.d] = Append(@, <<a.src, a.from, a.from + a.n>>)] ELSE got
    /\ aborted' = IF o.op = "newbad" \/ (o.op = "abort" /\ Open(s, o.h)) THEN aborted \cup {o.h}
                  ELSE aborted
    /\ ops' = ops + 1
Next == \E o \in AllOps : Call(o)
Spec == Init /\ [][Next]_vars

InvOwnBytes == OwnBytes(s)
InvAccepted == \* every accepted byte is in the completed file
    \A h \in Handles : s.w[h].st = "closed" /\ s.w[h].hdr => given[h] = Total(Content(s, h))
InvAbort == NeverAfterFailure(s) /\ \A h \in aborted : s.w[h].sealed = <<>>
InvOnce == ClosedOnce(s)
InvReads == \* reads concatenate to a prefix of the file
    \A d \in Readers : LET m == Merge(got[d]) IN
        m = <<>> \/ (Len(m) = 1 /\ m[1][1] = s.r[d].h /\ m[1][2] = 0 /\ m[1][3] <= s.w[s.r[d].h].off)
InvFresh == FreshSecrets(s)
=============================================================================
