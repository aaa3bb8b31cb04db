------------------------------- MODULE MCChan -------------------------------
(* All channel programs of one or two command words over small counts and   *)
(* record lengths; laws of Channel, and the programs for the real channels. *)
EXTENDS Channel, Json
CONSTANT Emit
VARIABLE p
L1 == 5888  L2 == 5952           \* where the data goes: 0x1700, 0x1740
Ends == {<<12, 0>>, <<8, 4>>, <<14, 0>>}
Cmds == {1, 2, 12}
One == [kind : {"one"}, cmd : {<<c>> : c \in Cmds}, fl : {<<0>>, <<32>>}, cnt : {<<i>> : i \in 1..3}, n : {<<i>> : i \in 1..4}, e : {<<e>> : e \in Ends}]
Data == [kind : {"data"}, cmd : {<<c, 0>> : c \in Cmds}, fl : {<<f, g>> : f \in {128, 160}, g \in {0, 32}},
         cnt : {<<i, j>> : i \in 1..2, j \in 1..3}, n : {<<i>> : i \in 1..6}, e : {<<e>> : e \in Ends}]
Cmd2 == [kind : {"cmd"}, cmd : {<<c, d>> : c, d \in Cmds}, fl : {<<f, g>> : f \in {64, 96}, g \in {0, 32}},
         cnt : {<<2, 2>>}, n : {<<i, j>> : i, j \in 1..3}, e : {<<e, f>> : e, f \in Ends}]
(* the device does not end exactly where one command word gives way to the next *)
Sensible(q) == q.kind = "data" => q.n[1] # q.cnt[1]
Pair(c, l, cnt) == IF c = 12 THEN l + cnt - 1 ELSE l
Ccw(cmd, a, f, cnt) == <<cmd, 0, a \div 256, a % 256, f, 0, 0, cnt>>
Words(q) == Ccw(q.cmd[1], Pair(q.cmd[1], L1, q.cnt[1]), q.fl[1], q.cnt[1])
            \o (IF Len(q.cnt) = 1 THEN <<>>
                ELSE Ccw(q.cmd[2], Pair(IF q.kind = "data" THEN q.cmd[1] ELSE q.cmd[2], L2, q.cnt[2]), q.fl[2], q.cnt[2]))
RunOf(q) == [caw |-> <<0, 0, 5, 0>>, size |-> 8192, keys |-> <<0, 0, 0, 0>>, lo |-> 5888, win |-> [i \in 1..128 |-> i],
             mem |-> << <<1280, Words(q)>> >>,
             beh |-> [k \in 1..Len(q.n) |-> [init |-> 0, n |-> q.n[k], e1 |-> q.e[k][1], e2 |-> q.e[k][2], data |-> [i \in 1..q.n[k] |-> 200 + 10 * k + i]]]]
Init == p \in {q \in One \cup Data \cup Cmd2 : Sensible(q)}
Next == FALSE /\ UNCHANGED p
Spec == Init /\ [][Next]_p
Res == StartIO(RunOf(p))
Min(a, b) == IF a < b THEN a ELSE b
Stops(k) == p.e[k][1] = 14 \/ (p.cnt[k] # p.n[k] /\ p.fl[k] % 64 < 32)
Last == IF p.kind = "cmd" /\ ~Stops(1) THEN 2 ELSE 1
Total == IF p.kind = "data" THEN p.cnt[1] + p.cnt[2] ELSE p.cnt[Last]
Laws ==
    LET r == TLCEval(Res)
        final == r.ints[1]
        inl1 == {L1 + i : i \in 0..(Min(p.n[1], p.cnt[1]) - 1)}
    IN /\ r.cc = 0
       /\ Len(r.seen) = (IF p.kind = "cmd" THEN Last ELSE 1)
       /\ \A k \in 1..Len(r.seen) : p.kind = "cmd" => r.seen[k].n = Min(p.n[k], p.cnt[k]) /\ r.seen[k].stop = (p.n[k] > p.cnt[k])
       /\ (p.kind # "cmd" => r.seen[1].n = Min(p.n[1], Total) /\ r.seen[1].stop = (p.n[1] > Total))
       /\ Len(r.ints) = (IF p.e[Last][1] = 8 THEN 2 ELSE 1)
       /\ final.st = p.e[Last][1]
       /\ (p.kind = "data" => (Has(final.cs, IL) <=> (p.n[1] # Total /\ ~(p.n[1] >= p.cnt[1] /\ p.fl[2] = 32))))
       /\ (p.kind # "data" => (Has(final.cs, IL) <=> (p.n[Last] # Total /\ p.fl[Last] % 64 < 32)))
       /\ final.cnt = (IF p.kind = "data" /\ p.n[1] < p.cnt[1] THEN p.cnt[1] ELSE Total) - (IF p.kind = "data" /\ p.n[1] < p.cnt[1] THEN p.n[1] ELSE Min(p.n[Last], Total))
       /\ \A a \in 5888..6015 : r.win[a] # a - 5887 =>
             (a \in L1..(L1 + p.cnt[1] - 1) /\ p.cmd[1] # 1) \/ (Len(p.cnt) = 2 /\ a \in L2..(L2 + p.cnt[2] - 1))
       /\ (p.cmd[1] # 1 => Cardinality({a \in inl1 \cup L1..(L1 + p.cnt[1] - 1) : r.win[a] >= 200}) = Min(p.n[1], p.cnt[1]))
Hist == Emit => PrintT("H " \o ToJson(<<Words(p), RunOf(p).beh>>))
=============================================================================
