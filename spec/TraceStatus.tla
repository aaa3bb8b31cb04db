---------------------------- MODULE TraceStatus ----------------------------
(* Recorded operations of the real devices against Status. *)
EXTENDS Status, Json, IOUtils, TLC
ASSUME TLCGet("config").mode = "bfs"
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES rr, ll, st
vars == <<rr, ll, st>>
(* dev: by address; cus: the control units <<address, units>> *)
S0 == [dev |-> <<>>, cus |-> <<>>]
Ev == Runs[rr][ll]
Unit(a) == \E i \in 1..Len(st.cus) : IF st.cus[i][2] > 1 THEN a \div 8 = st.cus[i][1] \div 8 /\ a % 8 < st.cus[i][2] ELSE a = st.cus[i][1]
Same(a) == {b \in 0..255 : a = b \/ (a \div 8 = b \div 8 /\ \E i \in 1..Len(st.cus) : st.cus[i][2] > 1 /\ a \div 8 = st.cus[i][1] \div 8)}
Dev(a) == IF a \in DOMAIN st.dev THEN st.dev[a] ELSE D0
Upd(a, d) == [st EXCEPT !.dev = TLCEval((a :> d) @@ st.dev)]
Init == rr \in 1..Len(Runs) /\ ll = 1 /\ st = S0
Next ==
    /\ ll <= Len(Runs[rr])
    /\ ll' = ll + 1
    /\ UNCHANGED rr
    /\ CASE Ev[1] = "conf" -> st' = [st EXCEPT !.cus = Ev[3]]
         [] Ev[1] = "io" /\ Ev[4] = "none" -> ~Unit(Ev[2]) /\ st' = st
         [] Ev[1] = "io" /\ Ev[4] = "busy" -> Unit(Ev[2]) /\ (\E b \in Same(Ev[2]) : Dev(b).owed # {} \/ Dev(b).stk # 0 \/ Dev(b).extra # 0 \/ Dev(b).rew) /\ st' = st
         [] Ev[1] = "io" /\ Ev[4] = "ok" ->
              /\ Unit(Ev[2])
              /\ (InitOK(Dev(Ev[2]), Ev[3], Ev[5])) = TRUE
              /\ st' = Upd(Ev[2], InitNext(Dev(Ev[2]), Ev[3], Ev[5]))
         [] Ev[1] = "est" ->
              /\ (LaterOK(Dev(Ev[2]), Ev[3])) = TRUE
              /\ st' = Upd(Ev[2], LaterNext(Dev(Ev[2]), Ev[3], Ev[4] = "acc"))
         [] Ev[1] = "btn" -> st' = IF Ev[3] = "START" THEN Upd(Ev[2], [Dev(Ev[2]) EXCEPT !.extra = 1]) ELSE st
         [] Ev[1] = "reset" -> st' = [st EXCEPT !.dev = [a \in DOMAIN st.dev |-> LET on == st.dev[a].owed # {} \/ st.dev[a].extra # 0 \/ st.dev[a].away \/ st.dev[a].rew
                               IN [D0 EXCEPT !.extra = IF on THEN 1 ELSE 0, !.away = on]]]   \* a tape goes on rewinding
         [] Ev[1] = "quiet" -> /\ (Ev[3] >= 50000) => (Ev[2] = 1 /\ \A a \in DOMAIN st.dev : st.dev[a].owed = {} /\ ~st.dev[a].rew /\ st.dev[a].stk = 0)
                               /\ st' = st
         [] Ev[1] \in {"sio", "in", "out", "load", "stacker", "file"} -> st' = st
         [] OTHER -> FALSE /\ st' = st
Done == ll > Len(Runs[rr]) /\ UNCHANGED vars
Spec == Init /\ [][Next \/ Done]_vars
=============================================================================
