--------------------------- MODULE TraceDev1442 ---------------------------
(* Recorded operations of the real 1442 against Dev1442. *)
EXTENDS Dev1442, Json, IOUtils
ASSUME TLCGet("config").mode = "bfs"
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES rr, ll, st
vars == <<rr, ll, st>>
Ev == Runs[rr][ll]
Init == rr \in 1..Len(Runs) /\ ll = 1 /\ st = [d |-> D0, sio |-> <<>>]
D == st.d
To(e) == st' = [st EXCEPT !.d = TLCEval(e)]
Next ==
    /\ ll <= Len(Runs[rr])
    /\ ll' = ll + 1
    /\ UNCHANGED rr
    /\ CASE Ev[1] = "conf" -> UNCHANGED st
         [] Ev[1] = "sio" -> st' = [st EXCEPT !.sio = Ev]
         [] Ev[1] = "io" /\ Ev[4] = "busy" -> D.op.owed # {} /\ Ev[5] = BSY /\ UNCHANGED st
         [] Ev[1] = "io" /\ Ev[4] = "ok" ->
              IF D.op.owed # {} THEN \E e \in Present(D, Ev[5], TRUE) : To(e)
              ELSE LET r == Command(D, st.sio[3], st.sio[4], st.sio[5], st.sio[6]) IN Ev[5] = r[2] /\ To(r[1])
         [] Ev[1] = "in" -> D.op.k \in {"read", "sense"} /\ To([D EXCEPT !.op.got = @ \o Ev[3], !.op.stop = @ \/ Ev[4] = 1])
         [] Ev[1] = "out" -> D.op.k = "write" /\ To([D EXCEPT !.op.n = @ + Ev[3], !.op.stop = @ \/ Ev[4] = 1])
         [] Ev[1] = "est" -> \E e \in Present(D, Ev[3], Ev[4] = "acc") : To(e)
         [] Ev[1] = "load" -> To(Load(D, Ev[3]))
         [] Ev[1] = "btn" -> D.op.owed = {} /\ To(CASE Ev[3] = "START" -> Start(D) [] Ev[3] = "NPRO" -> Npro(D) [] Ev[3] = "STOP" -> Stop(D)
                                  [] Ev[3] = "END-OF-FILE" -> EndOfFile(D) [] OTHER -> D)
         [] Ev[1] = "quiet" -> Ev[2] = 1 /\ D.op.owed = {} /\ UNCHANGED st
         [] Ev[1] = "reset" -> To(Reset(D))
         [] Ev[1] = "stacker" -> Ev[4] = D.stk[Ev[3]] /\ To([D EXCEPT !.stk[Ev[3]] = <<>>])
         [] OTHER -> FALSE /\ UNCHANGED st
Done == ll > Len(Runs[rr]) /\ UNCHANGED vars
Spec == Init /\ [][Next \/ Done]_vars
=============================================================================
