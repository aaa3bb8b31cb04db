----------------------------- MODULE TraceTape -----------------------------
EXTENDS Tape, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES rr, ll
tvars == <<vars, rr, ll>>
TInit == Init /\ ll = 1 /\ rr \in 1..Len(Runs)
Ev == Runs[rr][ll]
Is(n) == ll <= Len(Runs[rr]) /\ Ev[1] = n /\ ll' = ll + 1 /\ rr' = rr
B(x) == x = 1
TNext ==
  \/ Is("mkfile") /\ MakeFile(Ev[2], B(Ev[3]), Ev[4])
  \/ Is("attach") /\ Attach(Ev[2], B(Ev[3]), Ev[4])
  \/ Is("detach") /\ Detach
  \/ Is("wstart") /\ (WriteStart(Ev[2]) \/ Refused(Ev[2]))
  \/ Is("wframes") /\ WriteFrames(Ev[2], Ev[3], Ev[4], Ev[5])
  \/ Is("mark") /\ (WriteMark(Ev[2]) \/ Refused(Ev[2]))
  \/ Is("rforw") /\ (ReadForw(Ev[2]) \/ Refused(Ev[2]))
  \/ Is("rback") /\ (ReadBack(Ev[2]) \/ Refused(Ev[2]))
  \/ Is("rframes") /\ ReadFrames(Ev[2], Ev[3], Ev[4])
  \/ Is("rframes") /\ Ev[3] = <<>> /\ ReadFramesMark(Ev[4])
  \/ Is("finish") /\ (Finish(Ev[2]) \/ Refused(Ev[2]))
  \/ Is("rewind") /\ (Rewind(Ev[2]) \/ Refused(Ev[2]))
  \/ Is("q") /\ Query(B(Ev[2]), B(Ev[3]), B(Ev[4]))
  \/ Is("raw") /\ File(Ev[2])
  \/ Is("file") /\ FileItems(Ev[2], Ev[3])
  \* reading remains of overwritten data: the rest of the run is not judged
  \/ ll <= Len(Runs[rr]) /\ Ev[1] = "rforw" /\ att /\ Unknown /\ ll' = Len(Runs[rr]) + 1 /\ UNCHANGED <<vars, rr>>
  \/ ll > Len(Runs[rr]) /\ UNCHANGED tvars
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
