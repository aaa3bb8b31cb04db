--------------------------- MODULE TraceDev2415 ---------------------------
(* Recorded operations of the real 2415 against Dev2415. *)
EXTENDS Dev2415, Json, IOUtils
ASSUME TLCGet("config").mode = "bfs"
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES rr, ll, st
vars == <<rr, ll, st>>
Ev == Runs[rr][ll]
RECURSIVE Image(_, _)
Bytes4(b, i) == b[i] + 256 * b[i + 1] + 65536 * b[i + 2]
Image(b, i) ==
    IF i + 3 > Len(b) THEN <<>>
    ELSE IF b[i + 3] # 0 THEN <<>>
    ELSE LET n == Bytes4(b, i) IN
         IF n = 0 THEN <<Mark>> \o Image(b, i + 4)
         ELSE IF i + 3 + n > Len(b) THEN <<>>
         ELSE <<SubSeq(b, i + 4, i + 3 + n)>> \o Image(b, i + 8 + n + (n % 2))
(* st is the set of the states the control unit may be in: what it did not show yet may have gone either way.
   A state has the last start I/O, and free: the program read what is not promised *)
Init == rr \in 1..Len(Runs) /\ ll = 1 /\ st = {[c |-> C0, sio |-> <<>>, free |-> FALSE]}
If(p, s) == IF p THEN s ELSE {}
StartIO(x, u, st0) ==
    LET c == x.c  t == c.dr[u] IN
    {y[1] : y \in {z \in Command(c, u, x.sio) : z[2] = st0}}
    \* contingent connection: unit check waits for its sense
    \cup If(c.sense = BUSCHK /\ u = 0 /\ st0 = BSY, {c})
    \cup If(t.rew /\ st0 = DE, {Upd(c, u, [t EXCEPT !.rew = FALSE, !.lp = 1])})
    \* the device end of a rewind may come with the status of a command that was not understood
    \cup If(t.rew /\ x.sio[5] = 1 /\ st0 = CE + DE + UC,
            {Upd(y[1], u, [t EXCEPT !.rew = FALSE, !.lp = 1]) : y \in Command(c, u, x.sio)})
    \cup If(t.away /\ st0 = 14, {[Upd(c, u, [t EXCEPT !.att = FALSE, !.away = FALSE]) EXCEPT !.sense = INTERV]})
    \cup If(t.away /\ st0 \in {4, 38}, {c})
    \cup If(t.away /\ st0 = 12 /\ x.sio[3] % 8 = 3, {[Upd(c, u, [t EXCEPT !.att = FALSE, !.away = FALSE]) EXCEPT !.sense = 0]})
On(x, e) ==
    LET c == x.c  u == e[2] % 8
        to(s) == {[x EXCEPT !.c = y] : y \in s}
    IN IF x.free THEN {x} ELSE
       CASE e[1] = "conf" -> {x}
         [] e[1] = "drive" -> to({Upd(c, e[2], Drive(e[3] = 1, e[4] = 1, e[5]))})
         [] e[1] = "sio" -> {[x EXCEPT !.sio = e]}
         [] e[1] = "io" /\ e[4] = "busy" -> If(c.op.owed # {} \/ (\E v \in 0..5 : c.dr[v].rew \/ c.dr[v].away), {x})
         [] e[1] = "io" /\ e[4] = "ok" ->
              IF c.op.owed # {} THEN {}
              ELSE IF Unknown(c.dr[u], x.sio[3]) /\ ~c.dr[u].rew THEN {[x EXCEPT !.free = TRUE]}
              ELSE to(StartIO(x, u, e[5]))
         [] e[1] = "in" -> If(c.op.k \in {"read", "back", "sense"} /\ c.op.u = u,
                              to({[c EXCEPT !.op.got = @ \o e[3], !.op.stop = @ \/ e[4] = 1]}))
         [] e[1] = "out" -> If(c.op.k = "write" /\ c.op.u = u, to({[c EXCEPT !.op.n = @ + e[3], !.op.stop = @ \/ e[4] = 1]}))
         [] e[1] = "est" -> to(Present(c, u, e[3], e[4] = "acc")) \cup If(c.dr[u].away /\ e[3] = 38, {x})   \* it ended, and unloads
         [] e[1] = "quiet" -> If(e[2] = 1 /\ c.op.owed = {} /\ ((e[3] >= 100000) => ~\E v \in 0..5 : c.dr[v].rew), {x})
         [] e[1] = "file" -> LET its == Image(e[4], 1)
                                 t == c.dr[IF e[2] = "T0.TAP" THEN 0 ELSE 1]
                                 n == Len(t.items)
                             IN If(Len(its) >= n /\ SubSeq(its, 1, n) = t.items /\ (~t.junk => Len(its) = n), {x})
         [] OTHER -> {}
Next ==
    /\ ll <= Len(Runs[rr])
    /\ ll' = ll + 1
    /\ UNCHANGED rr
    /\ st' = TLCEval(UNION {On(x, Ev) : x \in st})
    /\ st' # {}
Done == ll > Len(Runs[rr]) /\ UNCHANGED vars
Spec == Init /\ [][Next \/ Done]_vars
=============================================================================
