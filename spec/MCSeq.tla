------------------------------- MODULE MCSeq -------------------------------
(* Laws of ChanSeq: in every state every instruction has exactly one       *)
(* condition code (but where device and program race), and every condition *)
(* - the end of a program, a device end - is presented exactly once, by an *)
(* instruction or by an interruption.                                      *)
EXTENDS ChanSeq
CONSTANT Sel
VARIABLES bb, s, progs, csws, lates, dends
vars == <<bb, s, progs, csws, lates, dends>>
B(i, n, e, f) == [init |-> i, n |-> n, e1 |-> e, e2 |-> f, delay |-> 0]
Behs == {B(8, 0, 0, 4), B(0, 1, 12, 0), B(0, 4, 8, 4), B(2, 0, 0, 0), B(12, 0, 0, 0), B(0, 1, 14, 0)}
A5 == [i \in 1..8 |-> 165]
Sts == {0, 2, 4, 8, 12, 14, 16, 20}
Ws == {A5} \cup {<<165, 165, 165, 165, x, 0, 165, 165>> : x \in Sts}
      \cup {<<0, 0, 0, 0, x, 0, 0, 0>> : x \in Sts} \cup {<<0, 0, 7, 8, x, 0, 0, n>> : x \in Sts, n \in {16, 19}}
Ops == {<<"SIO", 1>>, <<"TIO", 1>>, <<"TCH", 1>>, <<"SIO", 0>>, <<"TIO", 0>>}
Answers(op, x) == {a \in (0..3) \X Ws : Do(bb, Sel, op, x, a[1], a[2]) # {}}
Codes(op, x) == {a[1] : a \in Answers(op, x)}
Init == /\ bb \in {<<x, y>> : x, y \in Behs} /\ s = [S0 EXCEPT !.on = TRUE]
        /\ progs = 0 /\ csws = 0 /\ lates = 0 /\ dends = 0
B2N(x) == IF x THEN 1 ELSE 0
InProg(x) == x.ph = "work" \/ (x.ph = "chp" /\ x.pgm)
InLate(x) == x.ph \in {"busy", "dend"} \/ (x.ph = "chp" /\ ~x.pgm)
Count(t) == /\ progs' = progs + B2N(t.k > s.k /\ t.ph = "work")
            /\ csws' = csws + B2N(InProg(s) /\ ~InProg(t))
            /\ lates' = lates + B2N(~InLate(s) /\ InLate(t))
            /\ dends' = dends + B2N(InLate(s) /\ ~InLate(t))
Op(op) == \E a \in Answers(op, s) : \E t \in Do(bb, Sel, op, s, a[1], a[2]) : t.k <= Len(bb) /\ s' = t /\ Count(t)
Taken == \E w \in Ws : \E t \in Interrupt(bb, s, w) : s' = t /\ Count(t)
Self == \E t \in Tau(bb, s) : s' = t /\ Count(t)
Mask == s' = [s EXCEPT !.on = ~@] /\ Count(s')
Next == UNCHANGED bb /\ (Self \/ Taken \/ Mask \/ \E op \in Ops : Op(op))
Spec == Init /\ [][Next]_vars
(* what was started is either still under way or was presented exactly once *)
Once == progs = csws + B2N(InProg(s)) /\ lates = dends + B2N(InLate(s))
(* every instruction is answered; with one code, but for the two that race *)
Answered == \A op \in Ops : Codes(op, s) # {}
OneCode == \A op \in Ops : Cardinality(Codes(op, s)) = 1
             \/ (op[1] = "TCH" /\ (s.ph = "dend" \/ (s.ph = "work" /\ ~Sel)))
             \/ (op[2] = 0 /\ s.ph = "work" /\ ~Sel) \/ (op = <<"SIO", 1>> /\ s.ph = "chp" /\ ~s.pgm)
(* nothing comes through while the channel is masked *)
Masked == ~s.on => \A w \in Ws : Interrupt(bb, s, w) = {}
(* and what waits comes through when it may *)
Comes == s.on /\ s.ph = "chp" => \E w \in Ws : Interrupt(bb, s, w) # {}
=============================================================================
