----------------------------- MODULE MCAgeWire -----------------------------
(***************************************************************************)
(* Design check of the writer: the chunk loop and the line wrapping, step  *)
(* by step, produce the format of AgeWire, and the format is unambiguous.  *)
(***************************************************************************)
EXTENDS AgeWire

CONSTANTS MaxLen, MaxBody, MaxStanzas, Weak

VARIABLES mode, len, pos, ctr, chunks,   \* the chunk loop
          todo, lines, cur               \* the header loop
vars == <<mode, len, pos, ctr, chunks, todo, lines, cur>>

Bodies == [n \in 0 .. MaxBody |-> SubSeq("abcdefghijklmnop", 1, n)]
StanzaSet == {[type |-> t, args |-> a, body |-> Bodies[n]]
                : t \in {"X", "grease"}, a \in {<<>>, <<"q">>, <<"---", "q">>}, n \in 0 .. MaxBody}

Init ==
    /\ chunks = <<>> /\ pos = 0 /\ ctr = 0 /\ lines = <<>> /\ cur = ""
    /\ \/ mode = "payload" /\ len \in 0 .. MaxLen /\ todo = <<>>
       \/ mode = "header" /\ len = 0
          /\ todo \in UNION {[1 .. k -> StanzaSet] : k \in 1 .. MaxStanzas}

(* for i in range(0, max(len, 1), size) *)
Chunk ==
    /\ mode = "payload"
    /\ pos < Max(len, IF "noEmptyChunk" \in Weak THEN 0 ELSE 1)
       \/ ("extraEmptyChunk" \in Weak /\ pos = len /\ len % ChunkSize = 0 /\ len > 0)
    /\ LET n == Min(ChunkSize, len - pos)
           last == IF "lastIfShort" \in Weak THEN n < ChunkSize ELSE pos + n >= len
       IN  chunks' = Append(chunks, [ctr |-> ctr, last |-> last, len |-> n])
    /\ pos' = pos + ChunkSize /\ ctr' = ctr + 1
    /\ UNCHANGED <<mode, len, todo, lines, cur>>
Chunked ==
    /\ mode = "payload" /\ ~(pos < Max(len, IF "noEmptyChunk" \in Weak THEN 0 ELSE 1))
    /\ ~("extraEmptyChunk" \in Weak /\ pos = len /\ len % ChunkSize = 0 /\ len > 0)
    /\ mode' = "payload done" /\ UNCHANGED <<len, pos, ctr, chunks, todo, lines, cur>>

(* per recipient: head line, then wrapped body, then an empty line if the  *)
(* last one is full                                                        *)
HeadLine ==
    /\ mode = "header" /\ todo # <<>>
    /\ lines' = Append(lines, "-> " \o Join(<<todo[1].type>> \o todo[1].args, " "))
    /\ cur' = todo[1].body /\ todo' = Tail(todo)
    /\ mode' = IF "noTerminator" \in Weak /\ todo[1].body = "" THEN "header" ELSE "body"
    /\ UNCHANGED <<len, pos, ctr, chunks>>
BodyLine ==
    /\ mode = "body"
    /\ LET n == Min(Columns, Len(cur)) IN
       /\ lines' = Append(lines, SubSeq(cur, 1, n))
       /\ cur' = SubSeq(cur, n + 1, Len(cur))
       /\ mode' = IF n < Columns \/ ("noTerminator" \in Weak /\ n = Len(cur)) THEN "header" ELSE "body"
    /\ UNCHANGED <<len, pos, ctr, chunks, todo>>
Footer ==
    /\ mode = "header" /\ todo = <<>>
    /\ lines' = Append(lines, "---") /\ mode' = "header done"
    /\ UNCHANGED <<len, pos, ctr, chunks, todo, cur>>
Next == Chunk \/ Chunked \/ HeadLine \/ BodyLine \/ Footer
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* C05: the loop yields the prescribed layout *)
LayoutOK == mode = "payload done" => chunks = Layout(len)
LastExactlyAtEnd == mode = "payload done" =>
    /\ chunks # <<>>
    /\ \A i \in DOMAIN chunks : chunks[i].last = (i = Len(chunks))
    /\ \A i \in DOMAIN chunks : chunks[i].len = 0 => len = 0
(* the lines read back as the stanzas they came from (so two different     *)
(* headers never have the same text)                                       *)
Heads(st) == [i \in DOMAIN st |-> [head |-> Join(<<st[i].type>> \o st[i].args, " "), body |-> st[i].body]]
Parsed == ParseFrom(lines, "head", <<>>)
TextOK == mode = "header done" =>
    /\ Parsed.ok
    /\ LinesOf([i \in DOMAIN Parsed.st |->
          [type |-> Parsed.st[i].head, args |-> <<>>, body |-> Parsed.st[i].body]]) = lines
RoundTrip == \A k \in 1 .. Min(2, MaxStanzas) :
    (mode = "header" /\ lines = <<>> /\ Len(todo) = k) =>
        LET p == ParseFrom(LinesOf(todo), "head", <<>>) IN p.ok /\ p.st = Heads(todo)
Terminates == <>(mode \in {"payload done", "header done"})
=============================================================================
