------------------------------ MODULE ChanSeq ------------------------------
(***************************************************************************)
(* Histories of I/O instructions and interruptions with one device: what   *)
(* START, TEST, HALT I/O and TEST CHANNEL answer in each state of channel  *)
(* and device, and which interruptions there are. When the device gets     *)
(* somewhere is its own affair, so a history is followed by the set of     *)
(* states it may have led to.                                              *)
(*  ph  idle; work: a channel program runs; chp: the channel holds status  *)
(*      for an interruption; busy: channel end was presented, device end   *)
(*      is still to come; dend: the device offers device end               *)
(*  st  the status held or offered    more: device end still to come       *)
(*  pgm the status is of the channel program (its CSW has an address)      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CE == 8  DE == 4  BSY == 16
Has(x, m) == (x \div m) % 2 = 1
S0 == [ph |-> "idle", k |-> 0, st |-> 0, pgm |-> FALSE, halted |-> FALSE, on |-> FALSE]
NoBeh == [init |-> 14, n |-> 0, e1 |-> 0, e2 |-> 0, delay |-> 0]
Beh(b, k) == IF k <= Len(b) THEN b[k] ELSE NoBeh
More(b, s) == LET x == Beh(b, s.k) IN (IF x.init # 0 THEN Has(x.init, CE) /\ ~Has(x.init, DE) ELSE ~Has(x.e1, DE))
After(b, s) == IF s.pgm /\ More(b, s) THEN [s EXCEPT !.ph = "busy", !.st = 0, !.pgm = FALSE, !.halted = FALSE]
               ELSE [s EXCEPT !.ph = "idle", !.st = 0, !.pgm = FALSE, !.halted = FALSE]
(* what may happen by itself *)
Tau(b, s) ==
    CASE s.ph = "work" -> {[s EXCEPT !.ph = "chp", !.st = Beh(b, s.k).e1, !.pgm = TRUE]}
      [] s.ph = "busy" -> {[s EXCEPT !.ph = "dend", !.st = Beh(b, s.k).e2]}
      [] s.ph = "dend" -> {[s EXCEPT !.ph = "chp", !.pgm = FALSE]}
      [] OTHER -> {}
RECURSIVE Close(_, _)
Close(b, S) == LET T == S \cup UNION {Tau(b, s) : s \in S} IN IF T = S THEN S ELSE Close(b, TLCEval(T))
(* the CSW w (8 bytes) of status held by the channel *)
CswOf(b, s, w) ==
    /\ w[5] = s.st
    /\ s.pgm => /\ w[1] = 0 /\ <<w[2], w[3], w[4]>> = <<0, 7, 8>>
                /\ IF s.halted THEN w[6] \in {0, 64} ELSE w[6] = 0 /\ w[7] * 256 + w[8] = 20 - Beh(b, s.k).n
    /\ ~s.pgm => w[6] = 0
Untouched(w) == w = [i \in 1..8 |-> 165]
Portion(w, st) == w = <<165, 165, 165, 165, st, 0, 165, 165>>
Clear(b, s) == {After(b, s)}
(* sel: a selector channel (a program holds all of it); answers and states after *)
Start(b, sel, s, cc, w) ==
    CASE s.ph = "idle" ->
            LET t == [s EXCEPT !.k = @ + 1]
                x == Beh(b, t.k)
            IN IF x.init = 0 THEN (IF cc = 0 /\ Untouched(w) THEN {[t EXCEPT !.ph = "work", !.halted = FALSE]} ELSE {})
               ELSE IF cc = 1 /\ Portion(w, x.init)
                    THEN {IF More(b, t) THEN [t EXCEPT !.ph = "busy"] ELSE t} ELSE {}
      [] s.ph = "chp" /\ ~s.pgm /\ cc = 1 -> IF Portion(w, s.st + BSY) THEN Clear(b, s) ELSE {}
      [] s.ph \in {"work", "chp"} -> IF cc = 2 /\ Untouched(w) THEN {s} ELSE {}
      [] s.ph = "busy" -> IF cc = 1 /\ Portion(w, BSY) THEN {s} ELSE {}
      [] s.ph = "dend" -> IF cc = 1 /\ Portion(w, s.st + BSY) THEN Clear(b, s) ELSE {}
      [] OTHER -> {}
Test(b, sel, s, cc, w) ==
    CASE s.ph = "idle" -> IF cc = 0 /\ Untouched(w) THEN {s} ELSE {}
      [] s.ph = "work" -> IF cc = 2 /\ Untouched(w) THEN {s} ELSE {}
      [] s.ph = "chp" -> IF cc = 1 /\ CswOf(b, s, w) THEN Clear(b, s) ELSE {}
      [] s.ph = "busy" -> IF cc = 1 /\ w[5] = BSY /\ w[6] = 0 THEN {s} ELSE {}
      [] s.ph = "dend" -> IF cc = 1 /\ w[5] = s.st /\ w[6] = 0 THEN Clear(b, s) ELSE {}
      [] OTHER -> {}
Channel(b, sel, s, cc, w) ==
    IF ~Untouched(w) THEN {}
    ELSE CASE s.ph = "work" -> IF cc = 2 \/ (~sel /\ cc = 0) THEN {s} ELSE {}
           [] s.ph = "chp" -> IF cc = 1 THEN {s} ELSE {}
           [] s.ph = "dend" -> IF cc \in {0, 1} THEN {s} ELSE {}
           [] OTHER -> IF cc = 0 THEN {s} ELSE {}
Halt(b, sel, s, own, cc, w) ==
    CASE s.ph = "work" -> IF cc = 2 /\ Untouched(w) THEN {[s EXCEPT !.halted = TRUE]} ELSE {}
      [] s.ph = "chp" -> IF cc = 0 /\ Untouched(w) THEN {s} ELSE {}
      [] OTHER -> IF own THEN (IF cc = 1 /\ Portion(w, IF s.ph = "busy" THEN BSY ELSE 0) THEN {s} ELSE {})
                  ELSE IF cc = 3 /\ Untouched(w) THEN {s} ELSE {}
Absent(b, sel, s, cc, w) ==
    IF ~Untouched(w) THEN {}
    ELSE IF sel /\ s.ph \in {"work", "chp"} THEN (IF cc = 2 THEN {s} ELSE {})
    ELSE IF cc = 3 \/ (cc = 2 /\ s.ph = "work") THEN {s} ELSE {}
Do(b, sel, op, s, cc, w) ==
    CASE op[1] = "SIO" /\ op[2] = 1 -> Start(b, sel, s, cc, w)
      [] op[1] = "TIO" /\ op[2] = 1 -> Test(b, sel, s, cc, w)
      [] op[1] = "TCH" -> Channel(b, sel, s, cc, w)
      [] op[1] = "HIO" -> Halt(b, sel, s, op[2] = 1, cc, w)
      [] OTHER -> Absent(b, sel, s, cc, w)
Interrupt(b, s, w) == IF s.on /\ s.ph = "chp" /\ CswOf(b, s, w) THEN Clear(b, s) ELSE {}
=============================================================================
