---------------------------- MODULE TraceConfig ----------------------------
EXTENDS Config, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES rr, ll
tvars == <<rr, ll>>
TInit == ll = 1 /\ rr \in 1..Len(Runs)
Ev == Runs[rr][ll]
Is(n) == ll <= Len(Runs[rr]) /\ Ev[1] = n /\ ll' = ll + 1 /\ rr' = rr
Says(r) == Ev[3] = r.made /\ Ev[4] = r.result
TNext ==
  \/ Is("line") /\ ((LongNumber(Ev[2]) \/ Says(Line(Ev[2]))) = TRUE)
  \/ Is("file") /\ ((LongNumber(Ev[2]) \/ Says(File(Ev[2], 1, <<>>))) = TRUE)
  \/ ll > Len(Runs[rr]) /\ UNCHANGED tvars
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
