----------------------------- MODULE TraceChan -----------------------------
(* Recorded channel programs of the real processors against Channel. *)
EXTENDS Channel, Json, IOUtils
ASSUME TLCGet("config").mode = "bfs"
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES rr, ll, st
vars == <<rr, ll, st>>
R == Runs[rr][1]
E == Runs[rr][2]
Log == E.o[1]
W(i) == [j \in 1..16 |-> Log[16 * i + j]]           \* i-th record of the log; 0 is of the START I/O
Same(x, y) == y = AnyV \/ x = y
CcOk(x) == (Log[1] \div 16) % 4 = x.cc
CswOk(x) == IF x.cc = 1 THEN Log[13] = x.st /\ Log[14] = x.cs ELSE SubSeq(Log, 9, 16) = [i \in 1..8 |-> 165]
IntOk(w, t) ==
    /\ Same(w[1], IF t.key = AnyV THEN AnyV ELSE t.key * 16)
    /\ Same(w[2] * 65536 + w[3] * 256 + w[4], t.ca)
    /\ Same(w[5], t.st)
    /\ (Same(w[6], t.cs) \/ (t.cs \in {PROG, PROT} /\ w[6] = t.cs + IL))
    /\ Same(w[7] * 256 + w[8], t.cnt)
    /\ w[11] = R.addr \div 256 /\ w[12] = R.addr % 256
NInts == Cardinality({i \in 1..15 : \E j \in 1..16 : Log[16 * i + j] # 0})
SeenOk(x) ==
    LET d == E.dev[1] IN
    /\ Len(d) = Len(x.seen)
    /\ \A i \in 1..Len(d) : /\ d[i][1] = x.seen[i].cmd
                            /\ IF x.seen[i].lax    \* an error in the middle: a byte more may have been taken before it is noticed
                               THEN d[i][2] \in {x.seen[i].n, x.seen[i].n + 1}
                                    /\ \E k \in 0..1 : k <= Len(d[i][4]) /\ SubSeq(d[i][4], 1, Len(d[i][4]) - k) = x.seen[i].out
                               ELSE d[i][2] = x.seen[i].n /\ d[i][4] = x.seen[i].out /\ (d[i][3] = 1) = x.seen[i].stop
WinOk(x) == \A i \in 1..Len(R.win) : E.o[2][i] = x.win[R.lo + i - 1]
Inside(a, n, lo, hi) == lo <= a /\ a + n - 1 <= hi
Elsewhere == \A i \in 1..Len(E.m) : LET a == E.m[i][1]  n == Len(E.m[i][2]) IN
                Inside(a, n, 24, 71) \/ Inside(a, n, R.log, R.log + 255) \/ Inside(a, n, R.lo, R.lo + Len(R.win) - 1)
Verdict(x) ==
    IF ~CcOk(x) THEN "condition code" ELSE IF ~CswOk(x) THEN "status stored by START I/O"
    ELSE IF ~SeenOk(x) THEN "what the device saw"
    ELSE IF NInts # Len(x.ints) THEN "number of interruptions"
    ELSE IF \E i \in 1..Len(x.ints) : ~IntOk(W(i), x.ints[i]) THEN "channel status word"
    ELSE IF ~WinOk(x) THEN "data in storage" ELSE IF ~Elsewhere THEN "other storage" ELSE IF ~E.wait THEN "not in the wait state" ELSE "ok"
Init == rr \in 1..Len(Runs) /\ ll = 1 /\ st = "none"
Expect == [StartIO(R) EXCEPT !.win = <<>>]
Next ==
    /\ ll = 1 /\ UNCHANGED rr
    /\ LET v == TLCEval(Verdict(TLCEval(StartIO(R)))) IN st' = v /\ (IF v = "ok" THEN TRUE ELSE (PrintT(ToJson(<<"EXPECT", rr, v, Expect>>)) /\ FALSE))
    /\ ll' = 3
Done == ll > Len(Runs[rr]) /\ UNCHANGED vars
Spec == Init /\ [][Next \/ Done]_vars
=============================================================================
