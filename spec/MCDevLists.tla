---------------------------- MODULE MCDevLists ----------------------------
EXTENDS DevLists, TLC, Json
CONSTANTS MaxOps
VARIABLE hist
Addrs == {0, 1, 256, 263, 1792}
Ids3 == {1, 2, 3}
MCInit == Init /\ hist = <<>>
Step(op, A) == A /\ hist' = Append(hist, op)
MCNext == /\ Len(hist) < MaxOps
          /\ \/ \E id \in Ids3, a \in Addrs : Step(<<"a", id, a>>, Add(id, a))
             \/ \E id \in Ids3, a \in {1, 256, 1792} : Step(<<"d", id, a>>, Del(id, a))
             \/ \E k \in {1, 2} : Step(<<"A", k>>, AddDisk(k))
             \/ \E k \in {1, 2} : Step(<<"D", k>>, DelDisk(k))
MCSpec == MCInit /\ [][MCNext]_<<vars, hist>>
Emit == Len(hist) = MaxOps => PrintT("H " \o ToJson(hist))
\* what is found matches, and nothing that matches stands before it
FoundOK == \A a \in Addrs, m \in {255, 248, 65535, 65528} :
             LET f == Found(a, m) IN
             (f = -1) <=> (Matches(a, m) = {})
=============================================================================
