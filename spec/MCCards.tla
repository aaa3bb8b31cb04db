------------------------------ MODULE MCCards ------------------------------
(* Bounded check of Cards, and generator of the histories replayed. *)
EXTENDS Cards, Json
CONSTANTS MaxOps
VARIABLES hist, next
mcvars == <<vars, hist, next>>
MCInit == Init /\ hist = <<>> /\ next = 1
Op(o) == Len(hist) < MaxOps /\ hist' = Append(hist, o)
Ids(n) == [i \in 1..n |-> next + i - 1]
MCNext == \E c \in Ctx :
  \/ \E n \in {1, 2} : Load(c, Ids(n), 1) /\ next' = next + n /\ Op(<<"L", c, n>>)
  \/ Blank(c, 1) /\ Op(<<"B", c, 1>>) /\ UNCHANGED next
  \/ stack[c] # <<>> /\ (\E n \in {1, 2}, ids \in {SubSeq(Rest(c), 1, k) : k \in 0..(IF Len(Rest(c)) < 2 THEN Len(Rest(c)) ELSE 2)}, ret \in {0, 1} : Read(c, n, ids, ret) /\ Op(<<"r", c, n>>)) /\ UNCHANGED next
  \/ Stack(c, Ids(1), 0) /\ next' = next + 1 /\ Op(<<"S", c, 1>>)
  \/ stack[c] # <<>> /\ Empty(c) /\ Op(<<"E", c>>) /\ UNCHANGED next
  \/ (c = 0 \/ stack[c] # <<>>) /\ (\E n \in Names : Save(c, n, 0) /\ Op(<<"V", c, n>>)) /\ UNCHANGED next
  \/ out[c] # None /\ ((Close(c) /\ Op(<<"C", c>>)) \/ (SaveFails(c, -1) /\ Op(<<"N", c>>))) /\ UNCHANGED next
MCSpec == MCInit /\ [][MCNext]_mcvars
Emit == Len(hist) = MaxOps => PrintT("H " \o ToJson(hist))
=============================================================================
