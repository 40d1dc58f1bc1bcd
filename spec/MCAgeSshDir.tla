----------------------------- MODULE MCAgeSshDir -----------------------------
EXTENDS AgeSshDir
CONSTANT MaxFiles
VARIABLES dir, todo, s, others
vars == <<dir, todo, s, others>>

Names == {"id_a", "id_b", "id_", "my_id_a", "id"}
SomeKinds == {"rsaopenssh", "edpkcs8", "encopenssh", "binary", "pub", "directory"}
Entry(n, k) == [name |-> n, kind |-> k, key |-> n]
Dirs == {{Entry(n, f[n]) : n \in {m \in Names : f[m] # "none"}} :
           f \in {g \in [Names -> SomeKinds \cup {"none"}] : Cardinality({m \in Names : g[m] # "none"}) <= MaxFiles}}
Init == /\ dir \in Dirs
        /\ todo = dir /\ s = [found |-> {}, state |-> "scan"] /\ others \in SUBSET {"age"}
Visit == /\ s.state = "scan" /\ todo # {}
         /\ \E e \in todo : todo' = todo \ {e} /\ s' = Effect(e, s)
         /\ UNCHANGED <<dir, others>>
Finish == /\ s.state = "scan" /\ todo = {} /\ s' = [s EXCEPT !.state = "done"] /\ UNCHANGED <<dir, todo, others>>
Next == Visit \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

NeverFails == s.state # "failed"
Complete == s.state = "done" => s.found = Wanted(dir)
(* a decryption never fails because of unusable files *)
Sufficient == s.state \in {"done", "failed"} /\ Opens(dir, others, {"age", "id_a"}) =>
              s.state = "done" /\ (s.found \cup others) \cap {"age", "id_a"} # {}
Ends == <>(s.state = "done")
=============================================================================
