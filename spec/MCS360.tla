------------------------------- MODULE MCS360 -------------------------------
(* One instruction at a time from systematically chosen machine states: every
   operation with every pair of operands from Vals (words) or, for decimal
   operations, Decs (packed numbers). The results are checked against laws that
   do not mention how Exec computes them, and every case is emitted to be run
   by the real processors.                                                  *)
EXTENDS S360, Json
CONSTANTS Group, Keys, Modes, PMs
VARIABLES cs, st0, out      \* the case, the state before, the possible outcomes
vars == <<cs, st0, out>>

Vals == {<<0, 0, 0, 0>>, <<0, 0, 0, 1>>, <<255, 255, 255, 255>>, <<127, 255, 255, 255>>, <<128, 0, 0, 0>>,
         <<128, 0, 0, 1>>, <<0, 0, 255, 255>>, <<255, 255, 128, 0>>, <<0, 1, 0, 0>>, <<90, 165, 60, 195>>,
         <<0, 0, 127, 255>>, <<255, 255, 255, 254>>}
Decs == {<<12>>, <<13>>, <<28>>, <<157>>, <<0, 12>>, <<153, 156>>, <<153, 157>>, <<16, 15>>, <<9, 154>>, <<0, 29>>,
         <<1, 0, 12>>, <<153, 153, 155>>, <<0, 0, 93>>, <<18, 52, 92>>, <<10, 12>>, <<17, 24>>, <<160, 29>>, <<144>>}
RR == {16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31}
RX == {64, 66, 67, 72, 73, 74, 75, 76, 80, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95}
SH == 136..143
SI == {145, 146, 147, 148, 149, 150, 151}
SS == {209, 210, 211, 212, 213, 214, 215}
DEC == {248, 249, 250, 251, 252, 253, 241, 242, 243}

Low(w) == w[4]
(* a case: code, registers 2, 3, 4, 13 and storage at 4096 and 4112 *)
Case(code, r2, r3, r4, m1, m2) == [c |-> code, r2 |-> r2, r3 |-> r3, r4 |-> r4, m1 |-> m1, m2 |-> m2]
FixedCases ==
  {Case(<<op, 36>>, a, <<1, 2, 3, 4>>, b, <<>>, <<>>) : op \in RR \ {28, 29}, a \in Vals, b \in Vals}
  \cup {Case(<<op, 36>>, a, c, b, <<>>, <<>>) : op \in {28, 29}, a \in {<<0, 0, 0, 0>>, <<255, 255, 255, 255>>, <<0, 0, 0, 3>>, <<128, 0, 0, 0>>}, c \in Vals, b \in Vals}
MemCases ==
  {Case(<<op, 32, 208, 0>>, a, <<0, 0, 1, 0>>, a, b, <<>>) : op \in RX \ {92, 93}, a \in Vals, b \in Vals}
  \cup {Case(<<op, 32, 208, 0>>, a, c, a, b, <<>>) : op \in {92, 93}, a \in {<<0, 0, 0, 0>>, <<255, 255, 255, 255>>, <<0, 0, 0, 3>>}, c \in Vals, b \in Vals}
ShiftCases ==
  {Case(<<op, 32, 0, n>>, a, b, a, <<>>, <<>>) : op \in SH, n \in {0, 1, 2, 8, 31, 32, 33, 62, 63}, a \in Vals, b \in {<<0, 0, 0, 0>>, <<255, 255, 255, 255>>, <<90, 165, 60, 195>>}}
SICases ==
  {Case(<<op, Low(a), 208, 1>>, a, a, a, b, <<>>) : op \in SI, a \in Vals, b \in Vals}
SSCases ==
  {Case(<<op, n - 1, 208, d, 208, e>>, a, a, a, b \o a \o b, a \o b \o b) :
      op \in SS, n \in {1, 3, 5, 8}, d \in {0, 1}, e \in {0, 1, 3, 16, 18}, a \in {<<90, 165, 60, 195>>, <<0, 0, 0, 0>>}, b \in Vals}
DecCases ==
  {Case(<<op, (Len(a) - 1) * 16 + Len(b) - 1, 208, 1, 208, 16 + e>>, <<0, 0, 0, 0>>, <<0, 0, 0, 0>>, <<0, 0, 0, 0>>, <<7>> \o a \o <<9>>, [i \in 1..e |-> 8] \o b) :
      op \in DEC \ {252, 253}, a \in Decs, b \in Decs, e \in {0, 3}}
  \cup {Case(<<op, (Len(a) + k - 1) * 16 + Len(b) - 1, 208, 1, 208, 19>>, <<0, 0, 0, 0>>, <<0, 0, 0, 0>>, <<0, 0, 0, 0>>, <<7>> \o [i \in 1..k |-> 0] \o a \o <<9>>, <<8, 8, 8>> \o b) :
      op \in {252, 253}, a \in Decs, b \in Decs, k \in {0, 1, 2}}
(* floating point: m1 is floating register 0, m2 register 2 and storage *)
FVals == {<<0, 0, 0, 0, 0, 0, 0, 0>>, <<65, 16, 0, 0, 0, 0, 0, 0>>, <<193, 16, 0, 0, 0, 0, 0, 1>>, <<65, 15, 255, 255, 255, 255, 255, 255>>,
          <<127, 255, 255, 255, 255, 255, 255, 255>>, <<128, 16, 0, 0, 0, 0, 0, 0>>, <<0, 0, 0, 1, 0, 0, 0, 1>>, <<194, 0, 0, 18, 52, 0, 171, 205>>,
          <<64, 128, 0, 0, 128, 0, 0, 0>>, <<190, 254, 220, 186, 152, 118, 84, 50>>, <<54, 255, 255, 255, 255, 255, 255, 255>>, <<192, 0, 0, 0, 0, 0, 0, 0>>}
W0 == <<0, 0, 0, 0>>
FloatCases ==
  {Case(<<op, 0, 208, 16>>, W0, W0, W0, a, b) : op \in (104..111) \cup (120..127), a \in FVals, b \in FVals}
  \cup {Case(<<op, 2>>, W0, W0, W0, a, b) : op \in (32..36) \cup (48..52), a \in {<<0, 0, 0, 0, 0, 0, 0, 0>>, <<65, 16, 0, 0, 0, 0, 0, 0>>}, b \in FVals}
  \cup {Case(<<op, 0, 208, 16>>, W0, W0, W0, a, b) : op \in {96, 112}, a \in FVals, b \in {<<0, 0, 0, 0, 0, 0, 0, 0>>}}
Cases == CASE Group = "fixed" -> FixedCases
           [] Group = "mem" -> MemCases
           [] Group = "shift" -> ShiftCases
           [] Group = "logical" -> SICases \cup SSCases
           [] Group = "decimal" -> DecCases
           [] Group = "float" -> FloatCases

M0(c) == [i \in 4096..(4095 + Len(c.m1)) |-> c.m1[i - 4095]]
         @@ [i \in 4112..(4111 + Len(c.m2)) |-> c.m2[i - 4111]]
         @@ [i \in 1024..(1023 + Len(c.c)) |-> c.c[i - 1023]]
State(c, key, mode, pm) ==
  [r |-> [n \in 0..15 |-> CASE n = 2 -> c.r2 [] n = 3 -> c.r3 [] n = 4 -> c.r4 [] n = 13 -> <<0, 0, 16, 0>> [] OTHER -> <<0, 0, 0, 0>>],
   f |-> [n \in 0..3 |-> IF Group # "float" THEN Zero8 ELSE CASE n = 0 -> c.m1 [] n = 1 -> c.m2 [] OTHER -> Zero8], m |-> M0(c),
   k |-> <<0, 0, 16, 0, 0, 0, 0, 0>>, size |-> 16384, mask |-> 0, key |-> key, amwp |-> mode, cc |-> 1, pm |-> pm,
   ia |-> 1024, ilc |-> 2, um |-> {}, ur |-> {}, uf |-> {}, uc |-> {}, ul |-> {}, ucc |-> FALSE, ulc |-> FALSE,
   fl |-> (Group = "float"), kf |-> FALSE, wrap |-> M24]

Init == /\ cs \in Cases
        /\ \E key \in Keys, mode \in Modes, pm \in PMs : st0 = State(cs, key, mode, pm)
        /\ out = {}
Next == out = {} /\ out' = Exec(st0) /\ UNCHANGED <<cs, st0>>
Spec == Init /\ [][Next]_vars

Byte(b) == b \in 0..255
Word(w) == Len(w) = 4 /\ \A i \in 1..4 : Byte(w[i])
TypeOK == \A o \in out :
  /\ \A n \in 0..15 : Word(o.s.r[n])
  /\ \A a \in DOMAIN o.s.m : Byte(o.s.m[a]) /\ a < o.s.size
  /\ o.s.cc \in 0..3 /\ o.s.ia \in 0..(M24 - 1) /\ o.x \in 0..511
Decided == out = {} \/ Cardinality(out) >= 1
(* nothing is stored where the key does not fit *)
KeyProtects == \A o \in out : \A a \in DOMAIN o.s.m :
  (o.s.m[a] # Mem(st0, a) \/ a \in o.s.um) => ~ProtBad(st0, a, 1)
(* no instruction here changes the PSW's left half *)
PswKept == \A o \in out : o.s.mask = st0.mask /\ o.s.key = st0.key /\ o.s.amwp = st0.amwp
(* an operation that is suppressed leaves storage and registers alone *)
Suppressed == \A o \in out : o.x \in {1, 2, 3, 6} => o.s.r = st0.r /\ o.s.m = st0.m
(* laws of arithmetic, by operation *)
Op == cs.c[1]
One == (CHOOSE o \in out : TRUE).s
Laws == (out # {} /\ Cardinality(out) = 1 /\ (CHOOSE o \in out : TRUE).x = 0) =>
  LET a == st0.r[2] b == st0.r[4] z == One.r[2] IN
  CASE Op \in {26, 30} -> z = Add4(b, a, 0).s /\ Sub4(z, b).s = a
    [] Op \in {27, 31} -> Add4(z, b, 0).s = a
    [] Op = 19 -> Add4(z, b, 0).s = Zero4
    [] Op = 23 -> XorB(z, b) = a
    [] Op = 20 -> AndB(z, b) = z /\ OrB(z, b) = b
    [] Op = 29 -> \* dividend = quotient * divisor + remainder, remainder's sign and size
         LET q == One.r[3] p == SMul4(q, b) s == Add8(p, IF Neg(z) THEN <<255, 255, 255, 255>> \o z ELSE Zero4 \o z, 0).s
         IN s = a \o st0.r[3] /\ (IsZero(z) \/ Neg(z) = Neg(a)) /\ LogCmp(Abs4(z), Abs4(b)) < 0
    [] Op = 28 -> \* (x * b) / b = x
         LET p == z \o One.r[3] x == st0.r[3] IN
         IsZero(b) \/ (LET d == Div8(Abs8(p), Abs4(b)) IN Lo4(d[1]) = Abs4(x) /\ IsZero(d[2]) /\ IsZero(Hi4(d[1])))
    [] Op \in {253} -> \* decimal: dividend = quotient * divisor + remainder
         LET n1 == (cs.c[2] \div 16) + 1 n2 == (cs.c[2] % 16) + 1
             q == MemN(One, 4097, n1 - n2) rm == MemN(One, 4097 + n1 - n2, n2)
             p == DMul(DecDigits(q), DecDigits(MemN(st0, 4115, n2)))
         IN DecSum(p, FALSE, DecDigits(rm), FALSE, 31).d = Fit(DecDigits(MemN(st0, 4097, n1)), 32)
    [] Op = 252 -> ValidDec(MemN(One, 4097, (cs.c[2] \div 16) + 1))
    [] Op \in {248, 250, 251} -> One.cc \in 0..2 => ValidDec(MemN(One, 4097, (cs.c[2] \div 16) + 1))
    [] OTHER -> TRUE
(* laws of floating point: the operands can be exchanged, subtraction is
   addition of the negative, comparison agrees with subtraction, results of
   the normalizing operations are normal, halving undoes doubling           *)
FlipM(s) == [s EXCEPT !.m = [@ EXCEPT ![4112] = (@ + 128) % 256]]
Swapped == [Put(st0, 4112, st0.f[0]) EXCEPT !.f = [@ EXCEPT ![0] = MemN(st0, 4112, 8)]]
Run1(s, op) == Exec(Put(s, 1024, <<op>>))
FRes(os) == {<<IF FLong(Op) THEN o.s.f[0] ELSE Hi4(o.s.f[0]), o.s.cc, o.x>> : o \in os}
NormalF(b) == LET v == FNum(b) IN FZero(v.d) \/ v.d[1] # 0
FLaws == (Group = "float" /\ out # {}) =>
  /\ Op \in {106, 122, 110, 126} => FRes(Run1(Swapped, Op)) = FRes(out)
  /\ Op \in {108, 124} => {<<o.s.f[0], o.x>> : o \in Run1(Swapped, Op)} = {<<o.s.f[0], o.x>> : o \in out}
  /\ Op \in {107, 123, 111, 127} => FRes(Run1(FlipM(st0), Op - 1)) = FRes(out)
  /\ Op \in {105, 121} => \A o \in Run1(Swapped, Op) : One.cc = (IF o.s.cc = 0 THEN 0 ELSE 3 - o.s.cc)
  /\ Op \in {105, 121} => \A o \in Run1(st0, Op + 2) : o.x = 0 /\ o.s.cc # 0 => o.s.cc = One.cc
  /\ Op \in {106, 107, 108, 109, 122, 123, 124, 125, 36, 52} =>
        \A o \in out : o.x \in {0, 12, 13} => NormalF(IF FLong(Op) THEN o.s.f[0] ELSE Hi4(o.s.f[0]))
  /\ Op \in {36, 52} => \A o \in out : o.x = 0 /\ ~FZero(FRead(o.s, 0, FLong(Op)).d) =>
        LET h == FRead(o.s, 0, FLong(Op)) b == FNormal(FRead(st0, 2, FLong(Op))) d == FSum(h, h, h.neg, 0) IN
        ~FZero(b.d) => (FCarry(d).d = b.d /\ FCarry(d).ch = b.ch) \/ HCmp(b.d, FCarry(d).d) >= 0
Emit == out = {} => PrintT("H " \o ToJson(<<cs.c, cs.r2, cs.r3, cs.r4, cs.m1, cs.m2, st0.key, st0.amwp, st0.pm>>))
=============================================================================
