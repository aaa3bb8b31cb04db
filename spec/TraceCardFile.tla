--------------------------- MODULE TraceCardFile ---------------------------
EXTENDS CardFile, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES rr, ll
tvars == <<vars, rr, ll>>
TInit == Init /\ ll = 1 /\ rr \in 1..Len(Runs)
Ev == Runs[rr][ll]
Is(n) == ll <= Len(Runs[rr]) /\ Ev[1] = n /\ ll' = ll + 1 /\ rr' = rr
TNext ==
  \/ Is("mode") /\ SetMode(Ev[2])
  \/ Is("deck") /\ Deck(Ev[2])
  \/ Is("write") /\ Write(Ev[2])
  \/ Is("save") /\ Save(Ev[2], Ev[3])
  \/ Is("load") /\ Load(Ev[2], Ev[3])
  \/ Is("ebc") /\ Ev[3] = EbcCode(Ev[2]) /\ UNCHANGED vars
  \/ Is("hol") /\ (IF Ev[2] \in HolCodes THEN EbcCode(Ev[3] % 256) = Ev[2] /\ Ev[3] < 256 ELSE Ev[3] \in {256, 127}) /\ UNCHANGED vars
  \/ Is("asc") /\ (IF Ev[2] \in AscCodes THEN Ev[3] \in 32..126 /\ AscHol(Ev[3]) = Ev[2] ELSE Ev[3] = 255) /\ UNCHANGED vars
  \/ ll > Len(Runs[rr]) /\ UNCHANGED tvars
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
