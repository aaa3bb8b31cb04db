---------------------------- MODULE TraceEvents ----------------------------
(* Recorded runs of the real scheduler must be behaviours of Events. *)
EXTENDS Events, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES rr, ll
tvars == <<vars, rr, ll>>
TInit == Init /\ ll = 1 /\ rr \in 1..Len(Runs)
Ev == Runs[rr][ll]
Is(n) == ll <= Len(Runs[rr]) /\ Ev[1] = n /\ ll' = ll + 1 /\ rr' = rr
TNext == \/ Is("add") /\ Add(Ev[2], Ev[3], Ev[4], Ev[5], Ev[6], Ev[7])
         \/ Is("cancel") /\ ~Ambiguous(Ev[2], Ev[3]) /\ Cancel(Ev[2], Ev[3])
         \/ Is("fire") /\ Fire(Ev[2], Ev[3], Ev[4], Ev[5], Ev[6])
         \/ Is("tick") /\ Tick
         \/ Is("tickend") /\ TickEnd
         \* which of several tied events a cancellation removes is not promised:
         \* the rest of such a run is not judged
         \/ ll <= Len(Runs[rr]) /\ Ev[1] = "cancel" /\ Ambiguous(Ev[2], Ev[3])
            /\ ll' = Len(Runs[rr]) + 1 /\ UNCHANGED <<vars, rr>>
         \/ ll > Len(Runs[rr]) /\ UNCHANGED tvars
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
