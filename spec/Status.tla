------------------------------- MODULE Status -------------------------------
(***************************************************************************)
(* What a device owes the channel.  A command that is accepted owes one    *)
(* channel end and one device end, in that order (or together); each is    *)
(* presented until the channel takes it, and never again after that.       *)
(* Status of one address is never presented under another.                 *)
(*   owed   channel end / device end still to come                         *)
(*   extra  device ends the operator caused (START makes a device ready)   *)
(*   away   the drive is unloading its tape: it ended, and stays busy      *)
(*   rew    the drive answered a sense while it rewinds: the device end of  *)
(*          the rewind is owed besides what the sense owes                 *)
(*   stk    status the channel refused: it comes again, no bit missing     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CE == 8  DE == 4  UC == 2  UE == 1  BSY == 16  CUE == 32
Bit(s, m) == (s \div m) % 2 = 1
Ends(st) == {m \in {CE, DE} : Bit(st, m)}
D0 == [owed |-> {}, extra |-> 0, stk |-> 0, away |-> FALSE, rew |-> FALSE]

(* the ends in st may be presented now; device end not before channel end *)
EndsOK(d, st) ==
    /\ (Ends(st) \ d.owed) \subseteq (IF d.extra > 0 \/ d.rew THEN {DE} ELSE {})
    /\ (DE \in Ends(st) /\ CE \in d.owed) => CE \in Ends(st)
    /\ \A m \in {CE, DE, UC, UE} : Bit(d.stk, m) => Bit(st, m)
Taken(d, st) ==
    [d EXCEPT !.owed = d.owed \ Ends(st),
     !.extra = IF DE \in Ends(st) /\ DE \notin d.owed /\ ~d.rew THEN d.extra - 1 ELSE d.extra,
     !.rew = d.rew /\ ~(DE \in Ends(st) /\ DE \notin d.owed),
     !.stk = 0]

(* a rewinding drive takes sense meanwhile *)
RewSense(d, cmd, st) == (d.rew \/ d.owed = {DE}) /\ d.stk = 0 /\ cmd = 4 /\ st = 0
(* initial status st for a command *)
InitOK(d, cmd, st) ==
    IF Bit(st, BSY) THEN Ends(st) = {} /\ (d.owed # {} \/ d.away \/ d.rew)
    ELSE IF RewSense(d, cmd, st) THEN TRUE
    ELSE IF d.owed # {} \/ d.stk # 0 THEN IF cmd = 0 /\ st % 16 = 0 THEN TRUE ELSE EndsOK(d, st) /\ Ends(st) # {}
    ELSE IF cmd = 0 THEN Ends(st) = {} \/ EndsOK(d, st)
    ELSE (DE \in Ends(st) => CE \in Ends(st)) \/ EndsOK(d, st)
InitNext(d, cmd, st) ==
    IF Bit(st, BSY) THEN d
    ELSE IF RewSense(d, cmd, st) THEN [d EXCEPT !.owed = {CE, DE}, !.rew = TRUE]
    ELSE IF d.owed # {} \/ d.stk # 0 THEN Taken(d, st)
    ELSE IF cmd = 0 \/ Ends(st) = {DE} THEN Taken(d, st)   \* what was pending, and no new command
    ELSE [d EXCEPT !.owed = {CE, DE} \ Ends(st), !.away = cmd = 15 \/ (cmd = 4 /\ d.away)]

(* status presented later *)
LaterOK(d, st) == Ends(st) # {} /\ ~Bit(st, BSY) /\ EndsOK(d, st)
LaterNext(d, st, acc) == IF acc THEN Taken(d, st) ELSE [d EXCEPT !.stk = st]
=============================================================================
