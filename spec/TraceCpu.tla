----------------------------- MODULE TraceCpu -----------------------------
(* Recorded runs of the real processors are behaviours of S360. Each run is
   <<start, end>>: the machine before, and after it has stopped in the wait
   state. In between, the specification executes the instructions.          *)
EXTENDS S360, Json, IOUtils, SequencesExt

Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES rr, ll, st, nn, snap      \* st: possible states; nn: instructions executed
vars == <<rr, ll, st, nn, snap>>
(* no program that stops within the cycles given executes as many *)
LoopLimit == Runs[rr][1].lim
Marks == {7, 11, 15, 19, 23, 27, 31, 63, 127, 255, 511, 1023, 2047, 4095, 8191}

ChunkMem(ch) == LET addrs == UNION {ch[i][1]..(ch[i][1] + Len(ch[i][2]) - 1) : i \in 1..Len(ch)}
                    At(a) == LET i == CHOOSE j \in 1..Len(ch) : a \in ch[j][1]..(ch[j][1] + Len(ch[j][2]) - 1)
                             IN ch[i][2][a - ch[i][1] + 1]
                IN [a \in addrs |-> At(a)]
Start(e) ==
  LET m == ChunkMem(e.m)
      b == [i \in 1..8 |-> IF i - 1 \in DOMAIN m THEN m[i - 1] ELSE 0]
      s0 == [r |-> [n \in 0..15 |-> e.r[n + 1]], f |-> [n \in 0..3 |-> e.f[n + 1]], m |-> m, k |-> e.k,
             size |-> e.size, mask |-> 0, key |-> 0, amwp |-> 0, cc |-> 0, pm |-> 0, ia |-> 8, ilc |-> 2,
             um |-> {}, ur |-> {}, uf |-> {}, uc |-> {}, ul |-> {}, ucc |-> FALSE, ulc |-> FALSE, tp |-> e.tp, ik |-> e.ik, tq |-> {e.tq[i] : i \in 1..Len(e.tq)}, pend |-> {}, fl |-> e.fl, kf |-> e.kf, wrap |-> e.wrap]
  IN LoadPsw(s0, b)

(* st is the set of machine states possible so far *)
TInit == /\ rr \in 1..Len(Runs)
         /\ ll = 2
         /\ st = {Start(Runs[rr][1])}
         /\ nn = 0
         /\ snap = {}
Ev == Runs[rr][2]
(* a program that keeps doing what is not predictable is followed no further *)
WideLimit == IF nn <= 30 THEN 90 ELSE IF ~Ev.wait THEN 4 ELSE IF nn <= 200 THEN 90 ELSE IF nn <= 1000 THEN 12 ELSE 3
(* Timer pulses and presses of the interrupt key arrive between instructions,
   at any moment before the end. What is pending and allowed is taken before
   the next instruction; several sources may be taken together or one by one. *)
Takeable(s) == s.pend # {} /\ s.mask % 2 = 1
Final(s) == "any" \in DOMAIN s \/ (Waiting(s) /\ s.tp = 0 /\ s.ik = 0 /\ ~Takeable(s))
Tick(s, q) == LET o == MemN(s, 80, 4) v == Sub4(o, <<0, q \div 256, q % 256, 0>>).s
                  t == Put(s, 80, v)
              IN [t EXCEPT !.tp = @ - 1, !.pend = IF ~Neg(o) /\ Neg(v) THEN @ \cup {128} ELSE @]
RECURSIVE Arr(_)
Arr(s) == {s} \cup (IF s.tp > 0 THEN UNION {Arr(Tick(s, q)) : q \in s.tq} ELSE {})
              \cup (IF s.ik > 0 THEN Arr([s EXCEPT !.ik = @ - 1, !.pend = @ \cup {64}]) ELSE {})
RECURSIVE SumOf(_)
SumOf(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN x + SumOf(S \ {x})
TakeExt(s) == {Extern([s EXCEPT !.pend = @ \ p], SumOf(p)) : p \in SUBSET s.pend \ {{}}}
(* The instruction may use a register or storage whose content is not
   predictable: what follows is not judged                                   *)
Murky(s) ==
  LET b == MemN(s, s.ia, 6)
      rs == {b[2] \div 16, b[2] % 16, b[3] \div 16, b[5] \div 16}
      near(i) == LET a == EA(s, IF b[1] < 128 THEN b[2] % 16 ELSE 0, b[i] \div 16, (b[i] % 16) * 256 + b[i + 1])
                 IN \E x \in s.um : x >= a /\ x < a + 256
      code == \E x \in s.um : x >= s.ia /\ x < s.ia + 6
      uses == \E n \in s.ur : n \in rs \/ (n % 2 = 1 /\ n - 1 \in rs)
  IN \/ s.um # {} /\ (code \/ b[1] = 68 \/ (b[1] >= 64 /\ near(3)) \/ (b[1] >= 192 /\ near(5)))
     \/ s.ur # {} /\ (uses \/ b[1] \in {68, 144, 152, 221, 223})
     \/ s.uf # {} /\ IsFloat(b[1])
     \/ s.uc \cup s.ul # {} /\ b[1] >= 64 /\ b[1] # 130
        /\ (\E x \in s.uc \cup s.ul : LET a == EA(s, IF b[1] < 128 THEN b[2] % 16 ELSE 0, b[3] \div 16, (b[3] % 16) * 256 + b[4])
                                        a2 == EA(s, 0, b[5] \div 16, (b[5] % 16) * 256 + b[6])
                                    IN (x >= a /\ x < a + 256) \/ (b[1] >= 192 /\ x >= a2 /\ x < a2 + 256))
Follow(s) == IF Murky(s) THEN {"any" :> TRUE @@ s} ELSE Next1(s)
StepOf(s) == IF Final(s) THEN {s}
             ELSE IF s.tp = 0 /\ s.ik = 0 /\ s.pend = {} THEN Follow(s)
             ELSE UNION {IF Takeable(t) THEN TakeExt(t)
                         ELSE IF Waiting(t) THEN {u \in {t} : Final(t) \/ t # s}
                         ELSE Follow(t) : t \in Arr(s)}
Going == \E s \in st : ~Final(s)
Exe == /\ ll = 2 /\ Going /\ nn < LoopLimit /\ st # snap /\ Cardinality(st) <= WideLimit
       /\ st' = UNION {StepOf(s) : s \in st}
       /\ nn' = nn + 1
       (* a snapshot now and then, to notice a loop *)
       /\ snap' = IF nn \in Marks THEN st ELSE snap
       /\ UNCHANGED <<rr, ll>>
(* (used as a value, '= TRUE', so that TLC does not explore each disjunct) *)
SameEnd(s, e) ==
  LET ch == ChunkMem(e.m)
      m0 == ChunkMem(Runs[rr][1].m)
      om(a) == IF a \in DOMAIN ch THEN ch[a] ELSE IF a \in DOMAIN m0 THEN m0[a] ELSE 0
      diff == <<{<<n, e.r[n + 1], s.r[n]>> : n \in {i \in 0..15 : ~(i \in s.ur \/ e.r[i + 1] = s.r[i])}},
                {<<n, e.f[n + 1], s.f[n]>> : n \in {i \in 0..3 : ~(i \in s.uf \/ e.f[i + 1] = s.f[i])}},
                {<<a, om(a), Mem(s, a)>> : a \in {x \in DOMAIN ch \cup DOMAIN s.m : ~SameByte(s, x, om(x))}}, e.k = s.k, e.wait, <<s.mask, s.key, s.amwp>>, e.psw>>
  IN IF "any" \in DOMAIN s THEN (IF "LENIENT" \in DOMAIN IOEnv THEN PrintT(<<"MIS", rr, {}, {}, {}, TRUE, TRUE, <<s.mask, s.key, s.amwp>>, <<s.mask, s.key, s.amwp, 0, 0>> >>) ELSE TRUE)
     ELSE IF "LENIENT" \in DOMAIN IOEnv THEN PrintT(<<"MIS", rr>> \o diff) ELSE
     /\ e.wait /\ (e.psw[1] & 225) = (s.mask & 225) /\ e.psw[3] = s.amwp
     /\ \A n \in 0..15 : n \in s.ur \/ e.r[n + 1] = s.r[n]
     /\ \A n \in 0..3 : n \in s.uf \/ e.f[n + 1] = s.f[n]
     /\ e.k = s.k
     /\ \A a \in DOMAIN ch \cup DOMAIN s.m : SameByte(s, a, om(a))
Finish == /\ ll = 2 /\ ~Going
          /\ (IF "LENIENT" \in DOMAIN IOEnv THEN \A s \in st : SameEnd(s, Ev) ELSE \E s \in st : SameEnd(s, Ev)) = TRUE
          /\ ll' = 3
          /\ UNCHANGED <<rr, st, nn, snap>>
(* a program that may not end: the processor has not stopped either *)
Endless == /\ ll = 2 /\ Going /\ (nn = LoopLimit \/ st = snap) = TRUE
           /\ (~Ev.wait \/ (\E s \in st : "any" \in DOMAIN s) \/ (IF "LENIENT" \in DOMAIN IOEnv THEN \A s \in st : Final(s) => SameEnd(s, Ev)
                          ELSE \E s \in st : Final(s) /\ SameEnd(s, Ev))) = TRUE
           /\ ll' = 3
           /\ UNCHANGED <<rr, st, nn, snap>>
TooWide == /\ ll = 2 /\ Going /\ Cardinality(st) > WideLimit
           /\ ll' = 3
           /\ UNCHANGED <<rr, st, nn, snap>>
Done == ll = 3 /\ UNCHANGED vars
TNext == Exe \/ Finish \/ Endless \/ TooWide \/ Done
TraceSpec == TInit /\ [][TNext]_vars
=============================================================================
