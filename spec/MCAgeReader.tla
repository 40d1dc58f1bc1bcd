---------------------------- MODULE MCAgeReader ----------------------------
(* Constants for model checking AgeReader *)
EXTENDS AgeReader, AgeEdits

MCIds == {"x1", "x2", "p1"}
MCRcptLists == <<<<"x1", "p1">>, <<"x2">>>>
MCIds1 == {"x1", "x2"}
MCRcptLists1 == <<<<"x1">>, <<"x2">>>>
MCLens == {0, 3, 4}
MCLens1 == {3}
MCNone == {}

MCHeaderEdits == HeaderEdits(2, 2)
MCPayloadEdits == PayloadEdits(2, 2)
MCMixedEdits == {e \in MCHeaderEdits : e.op \in {"M.remac", "M.other", "H.ins", "H.drop", "H.repl"}} \cup
                {e \in MCPayloadEdits : e.op \in {"P.all", "N.other", "P.repl", "P.drop"}}
=============================================================================
