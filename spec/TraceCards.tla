----------------------------- MODULE TraceCards -----------------------------
EXTENDS Cards, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES rr, ll
tvars == <<vars, rr, ll>>
TInit == Init /\ ll = 1 /\ rr \in 1..Len(Runs)
Ev == Runs[rr][ll]
Is(n) == ll <= Len(Runs[rr]) /\ Ev[1] = n /\ ll' = ll + 1 /\ rr' = rr
\* long runs of cards are written as <<count, first, step>>
RECURSIVE Exp(_)
Exp(s) == IF s = <<>> THEN <<>> ELSE [i \in 1..Head(s)[1] |-> Head(s)[2] + (i - 1) * Head(s)[3]] \o Exp(Tail(s))
TNext ==
  \/ Is("load") /\ Load(Ev[2], Exp(Ev[3]), Ev[4])
  \/ Is("nofile") /\ LoadMissing(Ev[2], Ev[3])
  \/ Is("blank") /\ Blank(Ev[2], Ev[3])
  \/ Is("read") /\ Read(Ev[2], Ev[3], Exp(Ev[4]), Ev[5])
  \/ Is("stack") /\ Stack(Ev[2], Exp(Ev[3]), Ev[4])
  \/ Is("empty") /\ Empty(Ev[2])
  \/ Is("save") /\ Save(Ev[2], Ev[3], Ev[4])
  \/ Is("nosave") /\ SaveFails(Ev[2], Ev[3])
  \/ Is("close") /\ Close(Ev[2])
  \/ Is("sizes") /\ Sizes(Ev[2], Ev[3], Ev[4])
  \/ Is("file") /\ FileIs(Ev[2], Exp(Ev[3]))
  \/ ll > Len(Runs[rr]) /\ UNCHANGED tvars
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
