------------------------------- MODULE Iface -------------------------------
(***************************************************************************)
(* The System/360 channel to control unit interface as the rules for one   *)
(* control unit: how the tags may change between what the control unit saw *)
(* (in: the out tags of the channel and the in tags of the bus) and what   *)
(* it left.  The rules are about one bus shared by all control units; the  *)
(* select line visits them in turn (IBM GA22-6974).                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

SELO == 32768  ADRO == 16384  CMDO == 8192  SRVO == 4096
SUPO == 2048   HLDO == 1024   OPRO == 512
OPRI == 128    ADRI == 64     STAI == 32    SRVI == 16   REQI == 8

Up(t, m) == (t \div m) % 2 = 1
OutTags(t) == t \div 256
(* the tags that answer the channel, without request-in *)
Own(t) == ((t % 256) \div 16)
Byte(b) == b % 256
RECURSIVE Ones(_)
Ones(n) == IF n = 0 THEN 0 ELSE (n % 2) + Ones(n \div 2)
OddPar(b) == Ones(b % 512) % 2 = 1

(* addresses of control unit k: base and the number of units behind it *)
Matches(cu, a) == IF cu[2] > 1 THEN a \div 8 = cu[1] \div 8 /\ a % 8 < cu[2] ELSE a = cu[1]

RisesT(b, a, m) == ~Up(b, m) /\ Up(a, m)
FallsT(b, a, m) == Up(b, m) /\ ~Up(a, m)

(***************************************************************************)
(* A control unit that is not connected leaves the bus alone, except that  *)
(* it may raise or lower request-in.                                       *)
(***************************************************************************)
Untouched(b, a, bi, ai) ==
    /\ OutTags(a) = OutTags(b)
    /\ Own(a) = Own(b)
    /\ ai = bi

(***************************************************************************)
(* It may capture select-out, if nobody has the bus: for an address that   *)
(* is its own, or, in a poll, for a request of its own.                    *)
(***************************************************************************)
CaptureOK(cu, b, a, bo, ai) ==
    /\ Up(b, SELO) /\ ~Up(a, SELO)
    /\ Own(b) = 0
    /\ Up(b, ADRO) => Matches(cu, Byte(bo))
    /\ ~Up(a, ADRI) /\ ~Up(a, SRVI)
    /\ (Up(a, OPRI) # Up(a, STAI))                     \* connected, or short busy
    /\ Up(a, STAI) => (Up(b, ADRO) /\ OddPar(ai) /\ Up(Byte(ai), 16))

(* a control unit that has the bus *)
OwnerOK(cu, b, a, bo, bi, ai) ==
    /\ (OutTags(a) = OutTags(b) \/ OutTags(a) = OutTags(b) - 128)   \* only select-out may be lowered
    /\ Up(a, OPRI) => Cardinality({m \in {ADRI, STAI, SRVI} : Up(a, m)}) <= 1
    /\ ~Up(a, OPRI) => Own(a) = 0
    \* address-in only after address-out is gone, with its own address
    /\ RisesT(b, a, ADRI) => (~Up(b, ADRO) /\ Matches(cu, Byte(ai)) /\ OddPar(ai))
    /\ FallsT(b, a, ADRI) => (Up(b, CMDO) \/ (Up(b, ADRO) /\ ~Up(b, HLDO)))
    \* status and data wait until the channel has taken its answers back
    /\ RisesT(b, a, STAI) => (~Up(b, CMDO) /\ ~Up(b, SRVO) /\ OddPar(ai))
    /\ RisesT(b, a, SRVI) => (~Up(b, CMDO) /\ ~Up(b, SRVO) /\ OddPar(ai))
    /\ FallsT(b, a, STAI) => (Up(b, CMDO) \/ Up(b, SRVO) \/ Up(b, ADRO))
    /\ FallsT(b, a, SRVI) => (Up(b, CMDO) \/ Up(b, SRVO) \/ Up(b, ADRO))
    \* what is on the bus stays there while its tag is up
    /\ (Up(b, ADRI) /\ Up(a, ADRI)) => ai = bi
    /\ (Up(b, STAI) /\ Up(a, STAI)) => ai = bi
    /\ (Up(b, SRVI) /\ Up(a, SRVI)) => ai = bi

(* short busy: status-in alone, dropped when the channel takes select-out back *)
ShortOK(cu, b, a, bi, ai) ==
    /\ (OutTags(a) = OutTags(b) \/ OutTags(a) = OutTags(b) - 128)
    /\ (Own(a) = 2 \/ Own(a) = 0)
    /\ Own(a) = 0 => ~Up(b, SELO)
    /\ Own(a) # 0 => ai = bi

(* a control unit that has just let go of the bus *)
Down(b) == ~Up(b, CMDO) /\ ~Up(b, SRVO) /\ ~Up(b, ADRO)
TailOK(b, a, bi, ai) ==
    /\ (OutTags(a) = OutTags(b) \/ OutTags(a) = OutTags(b) - 128)
    /\ Own(a) = Own(b)

(* reset: neither operational-out nor suppress-out *)
IsReset(b) == ~Up(b, OPRO) /\ ~Up(b, SUPO)
ResetOK(b, a) == OutTags(a) = OutTags(b) /\ (Own(a) = Own(b) \/ Own(a) = 0)
=============================================================================
