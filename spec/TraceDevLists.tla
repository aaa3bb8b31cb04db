--------------------------- MODULE TraceDevLists ---------------------------
EXTENDS DevLists, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES rr, ll
tvars == <<vars, rr, ll>>
TInit == Init /\ ll = 1 /\ rr \in 1..Len(Runs)
Ev == Runs[rr][ll]
Is(n) == ll <= Len(Runs[rr]) /\ Ev[1] = n /\ ll' = ll + 1 /\ rr' = rr
\* the recorded chains are those of the next state
Shown(q) == \A c \in 1..Len(q) : q[c] = [i \in 1..Len(chains'[c-1]) |-> chains'[c-1][i].id]
\* channels beyond the recorded ones hold nothing
Fits(q) == \A c \in Channels : c >= Len(q) => chains'[c] = <<>>
TNext ==
  \/ Is("add") /\ Add(Ev[2], Ev[3]) /\ Ev[4] = Ev[3] /\ Shown(Ev[5]) /\ Fits(Ev[5])
  \/ Is("del") /\ Del(Ev[2], Ev[3]) /\ Shown(Ev[4]) /\ Fits(Ev[4])
  \/ Is("find") /\ Ev[4] = Found(Ev[2], Ev[3]) /\ UNCHANGED vars
  \/ Is("adisk") /\ AddDisk(Ev[2])
  \/ Is("ddisk") /\ DelDisk(Ev[2])
  \/ Is("step") /\ SameBag(Ev[2], disks) /\ UNCHANGED vars
  \/ Is("init") /\ SameBag(Ev[2], Without(All, LAMBDA x : x % 3 = 0)) /\ UNCHANGED vars
  \/ Is("close") /\ SameBag(Ev[2], Without(All, LAMBDA x : x % 4 = 0)) /\ UNCHANGED vars
  \/ ll > Len(Runs[rr]) /\ UNCHANGED tvars
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
