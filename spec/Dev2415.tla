------------------------------ MODULE Dev2415 ------------------------------
(***************************************************************************)
(* The 2415 tape control unit with 9-track drives as a program sees it.    *)
(* A drive t is a record                                                   *)
(*   on     there is a drive;  att  a tape is on it;  ring  it may be written *)
(*   items  what is on the tape: blocks (sequences of bytes), <<>> a mark  *)
(*   junk   behind that are remains of overwritten data, not promised      *)
(*   pos    items before the head                                          *)
(*   lp     load point indicated: 1 yes, 0 no, 2 either (at load point, but *)
(*          not by rewinding)                                              *)
(*   rew    it rewinds and owes a device end;  away  it unloads            *)
(* The control unit has the first sense byte and the operation going on.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CMDREJ == 128  INTERV == 64  BUSCHK == 32  WCZERO == 2
TUA == 64  TUB == 32  LOAD == 8  NORING == 2
CE == 8  DE == 4  UC == 2  UE == 1  BSY == 16
Bit(x, m) == (x \div m) % 2 = 1
Min(a, b) == IF a < b THEN a ELSE b
NoOp == [k |-> "none", u |-> 0, cnt |-> 0, perr |-> 0, data |-> <<>>, got |-> <<>>, n |-> 0, stop |-> FALSE, owed |-> {}]
NoDrive == [on |-> FALSE, att |-> FALSE, ring |-> FALSE, items |-> <<>>, junk |-> FALSE, pos |-> 0, lp |-> 2, rew |-> FALSE, away |-> FALSE]
C0 == [dr |-> [u \in 0..5 |-> NoDrive], sense |-> 0, op |-> NoOp]
Drive(att, ring, items) == [NoDrive EXCEPT !.on = TRUE, !.att = att, !.ring = ring, !.items = items, !.lp = 1]
Mark == <<>>
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

AtEnd(t) == t.pos = Len(t.items)
Forw(t) == [t EXCEPT !.pos = @ + 1, !.lp = 0]
Back(t) == [t EXCEPT !.pos = @ - 1, !.lp = IF t.pos = 1 THEN 2 ELSE 0]
Put(t, x) == [t EXCEPT !.items = Append(SubSeq(t.items, 1, t.pos), x), !.junk = t.junk \/ ~AtEnd(t), !.pos = @ + 1, !.lp = 0]
(* spacing: to behind the next mark or to the end; to before the last mark or to load point *)
RECURSIVE SpaceF(_)
SpaceF(t) == IF AtEnd(t) THEN t ELSE IF t.items[t.pos + 1] = Mark THEN Forw(t) ELSE SpaceF(Forw(t))
RECURSIVE SpaceB(_)
SpaceB(t) == IF t.pos = 0 THEN t ELSE IF t.items[t.pos] = Mark THEN Back(t) ELSE SpaceB(Back(t))
MarkAhead(t) == \E i \in (t.pos + 1)..Len(t.items) : t.items[i] = Mark
MarkBehind(t) == \E i \in 1..t.pos : t.items[i] = Mark

(* would an operation look at what is not promised? *)
Unknown(t, cmd) == t.att /\ t.junk /\ ((cmd % 16 \in {2, 6, 10, 14} /\ AtEnd(t)) \/ (cmd = 55 /\ AtEnd(t)) \/ (cmd = 63 /\ ~MarkAhead(t)))

(* outcomes of a command: a set of <<control unit, initial status>>.       *)
Upd(c, u, t) == [c EXCEPT !.dr = TLCEval([@ EXCEPT ![u] = t])]
Fail(c, m) == {<<[c EXCEPT !.sense = m], CE + DE + UC>>}
Go(c, k, u, sio, owed, st) == {<<[c EXCEPT !.op = [NoOp EXCEPT !.k = k, !.u = u, !.cnt = sio[4], !.perr = sio[5], !.data = sio[6], !.owed = owed]], st>>}
Command(c, u, sio) ==
    LET t == c.dr[u]  cmd == sio[3]  low == cmd % 16
        z == [c EXCEPT !.sense = 0]
        moving == t.rew \/ t.away
        ready == t.att
        rd == low \in {2, 6, 10, 14}
        move == low \in {7, 15}
    IN CASE sio[5] = 1 -> {<<[c EXCEPT !.sense = IF Bit(@, BUSCHK) THEN @ ELSE @ + BUSCHK], CE + DE + UC>>}
         [] sio[5] # 1 /\ low = 0 -> {<<c, 0>>}
         [] sio[5] # 1 /\ low = 4 -> Go(c, "sense", u, sio, {CE, DE}, 0)
         [] sio[5] # 1 /\ ready /\ moving /\ low \notin {0, 4} -> {<<c, BSY>>}
         [] sio[5] # 1 /\ ~(ready /\ moving) /\ low \in {3, 11} -> {<<z, CE + DE>>}
         [] sio[5] # 1 /\ ~ready /\ low \notin {0, 3, 4, 11} -> Fail(c, INTERV)
         [] sio[5] # 1 /\ ready /\ ~moving /\ low \in {1, 5, 9, 13} ->
              IF ~t.ring THEN Fail(c, CMDREJ) ELSE Go(z, "write", u, sio, {CE, DE}, 0)
         [] sio[5] # 1 /\ ready /\ ~moving /\ rd ->
              IF AtEnd(t) THEN {<<[Upd(c, u, [t EXCEPT !.lp = IF t.pos = 0 THEN 2 ELSE 0]) EXCEPT !.sense = INTERV], CE + DE + UC>>}
              ELSE Go(z, "read", u, sio, {CE, DE}, 0)
         [] sio[5] # 1 /\ ready /\ ~moving /\ low = 12 ->
              IF t.pos = 0 THEN (IF t.lp # 0 THEN {<<z, CE + DE + UC>>} ELSE {}) \cup (IF t.lp # 1 THEN {<<[Upd(c, u, [t EXCEPT !.lp = 1]) EXCEPT !.sense = INTERV], CE + DE + UC>>} ELSE {})
              ELSE Go(z, "back", u, sio, {CE, DE}, 0)
         [] sio[5] # 1 /\ ready /\ ~moving /\ move /\ cmd \in {23, 31} ->
              IF ~t.ring THEN Fail(c, CMDREJ) ELSE Go(z, IF cmd = 31 THEN "mark" ELSE "erase", u, sio, {DE}, CE)
         [] sio[5] # 1 /\ ready /\ ~moving /\ move /\ cmd \in {7, 15} ->
              {<<Upd(z, u, IF cmd = 7 THEN [t EXCEPT !.rew = TRUE, !.pos = 0, !.lp = 2] ELSE [t EXCEPT !.away = TRUE, !.pos = 0, !.lp = 2]), CE>>}
         [] sio[5] # 1 /\ ready /\ ~moving /\ move /\ cmd \in {55, 63} ->
              IF AtEnd(t) THEN {<<[Upd(c, u, [t EXCEPT !.lp = IF t.pos = 0 THEN 2 ELSE 0]) EXCEPT !.sense = INTERV], CE + DE + UC>>}
              ELSE Go(z, IF cmd = 55 THEN "fsb" ELSE "fsf", u, sio, {DE}, CE)
         [] sio[5] # 1 /\ ready /\ ~moving /\ move /\ cmd \in {39, 47} ->
              IF t.pos = 0 THEN (IF t.lp # 0 THEN {<<z, CE + DE + UC>>} ELSE {}) \cup (IF t.lp # 1 THEN {<<[Upd(c, u, [t EXCEPT !.lp = 1]) EXCEPT !.sense = INTERV], CE + DE + UC>>} ELSE {})
              ELSE Go(z, IF cmd = 39 THEN "bsb" ELSE "bsf", u, sio, {DE}, CE)
         [] sio[5] # 1 /\ ready /\ ~moving /\ move /\ cmd \notin {7, 15, 23, 31, 39, 47, 55, 63} -> Fail(c, CMDREJ)
         [] OTHER -> {<<c, 0>>, <<c, CE + DE>>, <<c, CE + DE + UC>>}

(* the sense bytes *)
SenseOK(c, b) ==
    LET t == c.dr[c.op.u]
        must == (IF t.on THEN (IF t.att THEN TUA + (IF t.ring THEN 0 ELSE NORING) ELSE TUB) ELSE 0) + (IF t.att /\ t.lp = 1 /\ ~t.rew /\ ~t.away THEN LOAD ELSE 0)
        may == {0} \cup (IF t.lp = 2 THEN {LOAD} ELSE {})
        rew == IF t.att /\ (t.rew \/ t.away) THEN {0, TUB} ELSE {0}   \* it may just be done
        \* an unloading drive may have become not ready
        gone == IF t.away THEN {TUB} ELSE {}
    IN /\ Len(b) = Min(c.op.cnt, 6) /\ c.op.stop = (c.op.cnt < 6)
       /\ Len(b) > 0 => b[1] = c.sense
       /\ Len(b) > 1 => b[2] \in {must + x + y : x \in may, y \in rew} \cup gone
       /\ Len(b) > 2 => b[3] = 3
       /\ \A i \in 4..Len(b) : b[i] = 0
BadByte(o) == o.k = "write" /\ o.perr >= 2 /\ o.perr - 1 <= o.cnt
(* the data moved as they should *)
DataDone(c) ==
    LET o == c.op  t == c.dr[o.u]
        block == IF o.k = "read" THEN t.items[t.pos + 1] ELSE IF o.k = "back" THEN Rev(t.items[t.pos]) ELSE <<>>
    IN CASE o.k \in {"read", "back"} -> /\ o.got = SubSeq(block, 1, Min(o.cnt, Len(block)))
                                        /\ o.stop = (block # Mark /\ o.cnt < Len(block))
         [] o.k = "sense" -> SenseOK(c, o.got)
         [] o.k = "write" -> IF BadByte(o) THEN o.n = o.perr - 1 /\ ~o.stop ELSE o.n = o.cnt /\ o.stop
         [] OTHER -> TRUE
(* how the operation ends: set of <<control unit, status>> *)
Ends(c) ==
    LET o == c.op  t == c.dr[o.u]
        d == [c EXCEPT !.op = NoOp]
        n == IF BadByte(o) THEN o.perr - 2 ELSE o.cnt
        near(e) == {e.lp = 1, e.lp = 2} \cap {TRUE}
    IN CASE o.k = "sense" -> {<<d, CE + DE>>}
         [] o.k = "read" -> {<<Upd(d, o.u, Forw(t)), IF t.items[t.pos + 1] = Mark THEN CE + DE + UE ELSE CE + DE>>}
         [] o.k = "back" -> {<<Upd(d, o.u, Back(t)), IF t.items[t.pos] = Mark THEN CE + DE + UE ELSE CE + DE>>}
         [] o.k = "write" ->
              LET e == IF n = 0 THEN d ELSE Upd(d, o.u, Put(t, SubSeq(o.data, 1, n)))
                  s == (IF n = 0 THEN WCZERO ELSE 0) + (IF BadByte(o) THEN BUSCHK ELSE 0)
              IN {<<[e EXCEPT !.sense = s], IF s = 0 THEN CE + DE ELSE CE + DE + UC>>}
         [] o.k = "mark" -> {<<Upd(d, o.u, Put(t, Mark)), DE>>}
         [] o.k = "erase" -> {<<d, DE>>}
         [] o.k = "fsb" -> {<<Upd(d, o.u, Forw(t)), IF t.items[t.pos + 1] = Mark THEN DE + UE ELSE DE>>}
         [] o.k = "bsb" ->
              LET e == Upd(d, o.u, Back(t))
              IN IF t.items[t.pos] = Mark THEN {<<e, DE + UE>>}
                 ELSE IF t.pos = 1 THEN {<<e, DE>>, <<e, DE + UC>>} ELSE {<<e, DE>>}
         [] o.k = "fsf" -> {<<Upd(d, o.u, SpaceF(t)), DE>>}
         [] o.k = "bsf" -> IF MarkBehind(t) THEN {<<Upd(d, o.u, SpaceB(t)), DE>>}
                           ELSE {<<Upd(d, o.u, SpaceB(t)), DE>>, <<Upd(d, o.u, SpaceB(t)), DE + UC>>}
         [] OTHER -> {}

(* ending status st of unit u; the states after it when it is taken *)
Present(c, u, st, acc) ==
    (IF c.op.owed # {} /\ c.op.u = u /\ DataDone(c) THEN {IF acc THEN x[1] ELSE c : x \in {y \in Ends(c) : y[2] = st}} ELSE {})
    \cup (IF c.dr[u].rew /\ st = DE THEN {IF acc THEN Upd(c, u, [c.dr[u] EXCEPT !.rew = FALSE, !.lp = 1]) ELSE c} ELSE {})
=============================================================================
