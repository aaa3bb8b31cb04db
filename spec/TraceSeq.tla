------------------------------ MODULE TraceSeq ------------------------------
(* Recorded histories of I/O instructions against ChanSeq. *)
EXTENDS ChanSeq, Json, IOUtils
ASSUME TLCGet("config").mode = "bfs"
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES rr, ll, oo, ss
vars == <<rr, ll, oo, ss>>
R == Runs[rr][1]
E == Runs[rr][2]
Log == E.o[1]
W(i) == SubSeq(Log, 16 * i - 15, 16 * i)
N == Cardinality({i \in 1..(Len(Log) \div 16) : \E j \in 1..16 : Log[16 * i - 16 + j] # 0})
Sel == R.addr >= 256
IsInt(w) == w[1] < 64
(* status that waits and may come through comes before the next instruction *)
Boundary(S) == {s \in S : ~(s.on /\ s.ph = "chp")}
Init == rr \in 1..Len(Runs) /\ ll = 1 /\ oo = 1 /\ ss = {S0}
Op == R.ops[oo]
Logged == Op[1] \in {"SIO", "TIO", "HIO", "TCH"}
Silent == oo <= Len(R.ops) /\ ~Logged
(* the end of the program: everything is enabled and comes through *)
Rest == {[s EXCEPT !.on = TRUE] : s \in Close(R.beh, ss)}
More1(S, w) == UNION {Interrupt(R.beh, s, w) : s \in Close(R.beh, S)}
AddrOk(w) == w[11] = R.addr \div 256 /\ w[12] = R.addr % 256
Step ==
    LET inter == IF ll <= N /\ IsInt(W(ll)) /\ AddrOk(W(ll)) THEN TLCEval(More1(IF oo > Len(R.ops) THEN Rest ELSE ss, SubSeq(W(ll), 1, 8))) ELSE {}
    IN IF ll <= N /\ IsInt(W(ll)) /\ inter # {} /\ (oo > Len(R.ops) \/ Logged) THEN ss' = inter /\ ll' = ll + 1 /\ UNCHANGED oo
       ELSE IF ll <= N /\ IsInt(W(ll)) /\ inter # {} /\ Silent THEN ss' = inter /\ ll' = ll + 1 /\ UNCHANGED oo
       ELSE IF Silent THEN /\ oo' = oo + 1 /\ UNCHANGED ll
                           /\ ss' = IF Op[1] = "mask" THEN {[s EXCEPT !.on = Op[2] = 1] : s \in Close(R.beh, ss)} ELSE Close(R.beh, ss)
       ELSE IF oo <= Len(R.ops) /\ ll <= N /\ ~IsInt(W(ll))
            THEN /\ ss' = UNION {Do(R.beh, Sel, Op, s, (W(ll)[1] \div 16) % 4, SubSeq(W(ll), 9, 16)) : s \in Close(R.beh, Boundary(ss))}
                 /\ ss' # {}
                 /\ oo' = oo + 1 /\ ll' = ll + 1
       ELSE FALSE
Finished == oo > Len(R.ops) /\ ll > N
Good == E.wait /\ \E s \in Rest : s.ph = "idle"
Next == IF Finished THEN Good /\ ll < 1000 /\ ll' = 1000 /\ UNCHANGED <<rr, oo, ss>>
        ELSE Step /\ UNCHANGED rr
Done == ll = 1000 /\ UNCHANGED vars
Spec == Init /\ [][Next \/ Done]_vars
=============================================================================
