------------------------------ MODULE Dev1442 ------------------------------
(***************************************************************************)
(* The 1442 card read-punch as a program sees it.  Cards go from the       *)
(* hopper through the read station and the punch station to one of two     *)
(* stackers; a card is the sequence of its columns without trailing blank  *)
(* ones.  A machine state d is a record                                    *)
(*   hop     cards in the hopper, next first                               *)
(*   rdr, pch  the card in each station: <<>> or <<card>>                  *)
(*   col     columns punched so far on the card in the punch station       *)
(*   stk     the cards in the two stackers                                 *)
(*   sel     the stacker selected                                          *)
(*   sense   the sense byte;  eof, rdy, stop  end of file, ready, stop key *)
(*   made    a device end is due because the operator made it ready        *)
(*   op      the operation going on:                                       *)
(*     k "none"/"read"/"write"/"feed"/"sense",  cmd, cnt, perr, data       *)
(*     got   bytes moved (read, sense: the bytes; write: how many)         *)
(*     stop  the channel ended the data;  owed  ends still to come         *)
(*     stat  unit check / unit exception due with the device end           *)
(***************************************************************************)
EXTENDS CardCode, Bitwise, TLC

CMDREJ == 128  INTERV == 64  BUSCHK == 32  DATCHK == 8
CE == 8  DE == 4  UC == 2  UE == 1  BSY == 16
NoOp == [k |-> "none", cmd |-> 0, cnt |-> 0, perr |-> 0, data |-> <<>>, got |-> <<>>, n |-> 0, stop |-> FALSE, owed |-> {}, stat |-> 0]
D0 == [hop |-> <<>>, rdr |-> <<>>, pch |-> <<>>, col |-> 0, stk |-> << <<>>, <<>> >>, sel |-> 1,
       sense |-> 0, eof |-> FALSE, rdy |-> FALSE, stop |-> FALSE, made |-> FALSE, op |-> NoOp]
Bit(x, m) == (x \div m) % 2 = 1
Set(x, m) == IF Bit(x, m) THEN x ELSE x + m
Clr(x, m) == IF Bit(x, m) THEN x - m ELSE x
Min(a, b) == IF a < b THEN a ELSE b
Column(c, i) == IF i <= Len(c) THEN c[i] ELSE 0
RECURSIVE Trim(_)
Trim(c) == IF c = <<>> THEN c ELSE IF c[Len(c)] = 0 THEN Trim(SubSeq(c, 1, Len(c) - 1)) ELSE c
HolMap == TLCEval([h \in HolCodes |-> EbcOf(h)])

(* one step of the card path *)
Feed(d) ==
    IF d.hop = <<>> /\ ~d.eof THEN [d EXCEPT !.sense = Set(d.sense, INTERV), !.rdy = FALSE]
    ELSE LET stk1 == IF d.pch = <<>> THEN d.stk ELSE [d.stk EXCEPT ![d.sel] = Append(@, Trim(d.pch[1]))]
             new == IF d.stop \/ d.hop = <<>> THEN <<>> ELSE <<Head(d.hop)>>
             hop1 == IF new = <<>> THEN d.hop ELSE Tail(d.hop)
             rdy1 == new # <<>> /\ (hop1 # <<>> \/ d.eof)
         IN [d EXCEPT !.stk = stk1, !.pch = d.rdr, !.col = IF d.pch = <<>> THEN d.col ELSE 0, !.rdr = new, !.hop = hop1, !.rdy = rdy1, !.stop = FALSE,
                      !.sense = IF rdy1 THEN Clr(d.sense, INTERV) ELSE Set(d.sense, INTERV)]
(* the feed that ends an operation, and what goes with its device end *)
EndFeed(d) ==
    IF d.hop = <<>> /\ d.eof THEN <<Feed([d EXCEPT !.eof = FALSE]), UE>>
    ELSE LET e == Feed(d) IN <<e, IF e.sense # 0 THEN UC ELSE 0>>

(* the operator *)
Start(d) == LET e == IF d.rdr = <<>> THEN Feed(d) ELSE d IN [e EXCEPT !.made = e.made \/ e.rdr # <<>>]
Npro(d) == [Feed(d) EXCEPT !.eof = FALSE]
Stop(d) == [d EXCEPT !.stop = TRUE]
EndOfFile(d) == [d EXCEPT !.eof = ~d.eof]
Load(d, cs) == [d EXCEPT !.hop = @ \o cs]
Reset(d) == [d EXCEPT !.sense = 0, !.made = FALSE, !.op = NoOp]

(* a command is taken: the state and the initial status *)
Rej(d, m) == LET s == Set(d.sense, m) IN <<[d EXCEPT !.sense = s], CE + DE + UC>>
Begin(d, k, cmd, cnt, perr, data, owed) ==
    [d EXCEPT !.op = [NoOp EXCEPT !.k = k, !.cmd = cmd, !.cnt = cnt, !.perr = perr, !.data = data, !.owed = owed]]
Command(d, cmd, cnt, perr, data) ==
    LET low == cmd % 8
        e == [d EXCEPT !.sense = IF Bit(@, INTERV) THEN INTERV ELSE 0]
        f == [e EXCEPT !.sel = IF Bit(cmd, 32) THEN 2 ELSE 1]
    IN CASE perr = 1 -> <<[d EXCEPT !.made = FALSE, !.sense = Set(@, BUSCHK)], CE + DE + UC>>
         [] perr # 1 /\ d.made -> <<[d EXCEPT !.made = FALSE], DE>>
         [] ~d.made /\ perr # 1 /\ low = 0 -> <<d, IF d.sense = 0 THEN 0 ELSE UC>>
         [] ~d.made /\ perr # 1 /\ low = 1 ->
              IF (cmd & 92) # 0 THEN Rej(e, CMDREJ)
              ELSE IF d.pch = <<>> THEN <<f, IF f.sense = 0 THEN CE + DE ELSE CE + DE + UC>>
              ELSE <<Begin(f, "write", cmd, cnt, perr, data, {CE, DE}), 0>>
         [] ~d.made /\ perr # 1 /\ low = 2 ->
              IF (cmd & 220) # 0 THEN Rej(e, CMDREJ)
              ELSE IF ~d.rdy THEN Rej(f, INTERV)
              ELSE <<Begin(f, "read", cmd, cnt, perr, data, {CE, DE}), 0>>
         [] ~d.made /\ perr # 1 /\ low = 3 ->
              IF (cmd & 92) # 0 THEN Rej(e, CMDREJ)
              ELSE IF cmd < 128 THEN <<f, CE + DE>>
              ELSE IF ~d.rdy THEN Rej(f, INTERV)
              ELSE <<Begin(f, "feed", cmd, cnt, perr, data, {DE}), CE>>
         [] ~d.made /\ perr # 1 /\ low = 4 ->
              IF cmd # 4 THEN Rej(d, CMDREJ) ELSE <<Begin(d, "sense", cmd, cnt, perr, data, {CE, DE}), 0>>
         [] OTHER -> Rej(d, CMDREJ)

(* the bytes a read or sense of n bytes gives *)
Bytes(d) ==
    CASE d.op.k = "read" -> [i \in 1..Min(d.op.cnt, 80) |->
            LET h == Column(d.rdr[1], i) IN IF h \in HolCodes THEN HolMap[h] ELSE 0]
      [] d.op.k = "sense" -> IF d.op.cnt = 0 THEN <<>> ELSE <<d.sense>>
      [] OTHER -> <<>>
BadByte(d) == d.op.k = "write" /\ d.op.perr >= 2 /\ d.op.perr - 1 <= d.op.cnt
Punched(d, n) ==
    LET c == d.pch[1] IN
    [i \in 1..80 |-> IF i > d.col /\ i <= d.col + n THEN (Column(c, i) | EbcCode(d.op.data[i - d.col])) ELSE Column(c, i)]
(* all data have moved as they should *)
DataDone(d) ==
    CASE d.op.k = "read" -> d.op.got = Bytes(d) /\ d.op.stop = (d.op.cnt < 80)
      [] d.op.k = "sense" -> d.op.got = Bytes(d) /\ d.op.stop = (d.op.cnt = 0)
      [] d.op.k = "write" -> IF BadByte(d) THEN d.op.n = d.op.perr - 1 /\ ~d.op.stop ELSE d.op.n = d.op.cnt /\ d.op.stop
      [] OTHER -> TRUE
(* what the transfer of the data does: the new state, and status with the channel end *)
AfterData(d) ==
    CASE d.op.k = "read" ->
           <<[d EXCEPT !.sense = IF \E i \in 1..Min(d.op.cnt + 1, 80) : Column(d.rdr[1], i) \notin HolCodes THEN Set(@, DATCHK) ELSE @], 0>>
      [] d.op.k = "write" ->
           LET n == IF BadByte(d) THEN d.op.perr - 2 ELSE d.op.cnt
               e == [d EXCEPT !.pch = <<Punched(d, n)>>, !.col = Min(80, d.col + n)]
           IN IF BadByte(d) THEN <<[e EXCEPT !.sense = Set(@, BUSCHK)], UC>> ELSE <<e, 0>>
      [] OTHER -> <<d, 0>>
(* device end comes with the channel end, without a feed *)
EndsTogether(d) == d.op.k = "sense" \/ (d.op.k = "write" /\ (BadByte(d) \/ d.op.cmd < 128))

(* Status st is presented (taken if acc).  The set of states after it.     *)
Present(d, st, acc) ==
    LET mine == {m \in {CE, DE} : Bit(st, m)}
        odd == (st & (CE + DE)) # st - (st & (UC + UE))
        a == IF CE \in d.op.owed /\ d.op.stat = 0 THEN AfterData(d) ELSE <<d, 0>>
        tog == EndsTogether(d)
        uc0 == IF d.op.k = "write" /\ tog THEN (IF a[1].sense # 0 THEN UC ELSE 0) ELSE 0
    IN IF odd \/ mine = {} \/ ~(mine \subseteq d.op.owed) \/ (CE \in d.op.owed /\ (CE \notin mine \/ ~DataDone(d))) THEN {}
       ELSE IF tog THEN
              IF st # CE + DE + uc0 THEN {}
              ELSE IF acc THEN {[a[1] EXCEPT !.op = NoOp]} ELSE {d}
       ELSE IF DE \notin mine THEN
              IF st # CE THEN {} ELSE IF acc THEN {[a[1] EXCEPT !.op.owed = {DE}]} ELSE {d}
       ELSE LET f == EndFeed(a[1]) IN
              IF (st & (UC + UE)) # f[2] THEN {}
              ELSE IF acc THEN {[f[1] EXCEPT !.op = NoOp]} ELSE {d}
=============================================================================
