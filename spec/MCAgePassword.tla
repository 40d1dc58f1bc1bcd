--------------------------- MODULE MCAgePassword ---------------------------
(* Design check: the reader of AgePassword satisfies C09. *)
EXTENDS AgePassword

CONSTANTS MaxStanzas, MaxIds
VARIABLE s

Passwords == {<<>>, <<1>>, <<2>>, <<1, 2>>, <<1, 3>>}
Values == {NotInt, -1, 0, Lo, Hi - 1, Hi, Hi + 1, Cap}
Stanzas == {[pw |-> p, v |-> v, made |-> m] : p \in Passwords, v \in Values, m \in {Lo, Hi}}
            \cup {[pw |-> p, v |-> v, made |-> v] : p \in Passwords, v \in Values}
Init == \E n \in 1 .. MaxStanzas, k \in 0 .. MaxIds :
            \E st \in [1 .. n -> Stanzas], ids \in [1 .. k -> Passwords] :
                s = [ReaderInit(st, ids) EXCEPT !.i = IF k = 0 THEN n + 1 ELSE 1]
Next == Busy(s) /\ s' = Step(s)
Spec == Init /\ [][Next]_s /\ WF_s(Next)

Honest(x) == x.v = x.made /\ InRange(x.v)
OnlyRightPassword == s.opened # 0 =>
    /\ InRange(s.st[s.opened].v)
    /\ \E p \in Range(s.ids) : SamePassword(p, s.st[s.opened].pw)
BoundedWork ==
    /\ \A w \in Range(s.work) : Lo <= w /\ w <= Hi
    /\ \A w \in Range(s.work) : \E x \in Range(s.st) : x.v = w
    /\ Len(s.work) <= Len(s.st) * Len(s.ids)
ValidHonoured == (~Busy(s) /\ \E x \in Range(s.st), p \in Range(s.ids) : Honest(x) /\ SamePassword(p, x.pw))
                 => s.opened # 0
Terminates == <>(~Busy(s))
=============================================================================
