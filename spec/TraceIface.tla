----------------------------- MODULE TraceIface -----------------------------
(* Recorded cycles of the bus with the real control units on it. *)
EXTENDS Iface, Json, IOUtils, TLC
ASSUME TLCGet("config").mode = "bfs"
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES rr, ll, st
vars == <<rr, ll, st>>
(* who: the control unit that has the bus (0: none), short: by short busy;
   cus: the control units in the order of the select line;
   tail: the control unit that had it last, until it has seen the channel's
   answers down: it may still hold select-out down *)
S0 == [cus |-> <<>>, who |-> 0, short |-> FALSE, tail |-> 0]
Ev == Runs[rr][ll]

RECURSIVE Walk(_, _, _, _, _)
(* the state after control units k.. of the cycle e; b, bi: what the next one sees; no |-> rejected *)
Walk(s, e, k, b, bi) ==
    IF k > Len(s.cus) THEN s
    ELSE LET a  == e[6][k][1]
             ai == e[6][k][2]
             cu == s.cus[k]
         IN IF IsReset(b)
            THEN IF (ResetOK(b, a)) THEN Walk([s EXCEPT !.who = IF Own(a) = 0 THEN 0 ELSE s.who, !.short = FALSE], e, k + 1, a, ai) ELSE [s EXCEPT !.who = -1]
            ELSE IF s.who = k /\ ~s.short
            THEN IF (OwnerOK(cu, b, a, e[3], bi, ai))
                 THEN Walk([s EXCEPT !.who = IF Up(a, OPRI) THEN k ELSE 0, !.tail = IF Up(a, OPRI) THEN 0 ELSE k], e, k + 1, a, ai)
                 ELSE [s EXCEPT !.who = -1]
            ELSE IF s.who = k
            THEN IF (ShortOK(cu, b, a, bi, ai))
                 THEN Walk([s EXCEPT !.who = IF Own(a) = 0 THEN 0 ELSE k, !.short = Own(a) # 0], e, k + 1, a, ai)
                 ELSE [s EXCEPT !.who = -1]
            ELSE IF s.tail = k /\ Down(b)
            THEN IF (TailOK(b, a, bi, ai)) THEN Walk([s EXCEPT !.tail = 0], e, k + 1, a, ai) ELSE [s EXCEPT !.who = -4]
            ELSE IF s.tail = k
            THEN IF (TailOK(b, a, bi, ai)) THEN Walk(s, e, k + 1, a, ai) ELSE [s EXCEPT !.who = -4]
            ELSE IF (Untouched(b, a, bi, ai))
                 THEN IF (Up(b, SELO) /\ Up(b, ADRO) /\ Own(b) = 0 /\ Matches(cu, Byte(e[3])))
                      THEN [s EXCEPT !.who = -2]            \* its address, and no answer
                      ELSE Walk(s, e, k + 1, a, ai)
                 ELSE IF (s.who = 0 /\ CaptureOK(cu, b, a, e[3], ai))
                 THEN Walk([s EXCEPT !.who = k, !.short = Up(a, STAI)], e, k + 1, a, ai)
                 ELSE [s EXCEPT !.who = -3]

Init == rr \in 1..Len(Runs) /\ ll = 1 /\ st = S0
Next ==
    /\ ll <= Len(Runs[rr])
    /\ ll' = ll + 1
    /\ UNCHANGED rr
    /\ st' = IF (Ev[1] = "conf") THEN [st EXCEPT !.cus = Ev[3]]
             ELSE IF (Ev[1] = "b") THEN TLCEval(Walk(st, Ev, 1, Ev[2] + Ev[5], Ev[4]))
             ELSE st
    /\ Ev[1] \notin {"hang", "badaddr", "noone", "nostatus"}
    /\ (Ev[1] = "io") => Ev[4] # "nostatus"
    /\ (Ev[1] = "reset") => Ev[2] = 0
Done == ll > Len(Runs[rr]) /\ UNCHANGED vars
Spec == Init /\ [][Next \/ Done]_vars
Sound == st.who >= 0
=============================================================================
