-------------------------------- MODULE S360 --------------------------------
(* The System/360 processor: what one instruction does to the registers,
   storage, keys and PSW (IBM System/360 Principles of Operation). A machine
   state is a record
     r    general registers 0..15, words       f    floating registers 0..3
     m    storage, a sparse function (missing bytes are zero)
     k    storage keys of the 2K blocks        size storage size in bytes
     mask system mask   key  protection key    amwp ASCII, machine check, wait, problem
     cc, pm, ia, ilc
     um   bytes of storage whose content is not predictable any more
     ur, uf  registers whose content is not predictable any more
     uc   PSW locations whose condition code (or length code, ulc) is not predictable
     fl   whether floating point is installed
     kf   whether the outcomes of the known findings (known-findings.txt) are let pass
     wrap the width of the instruction counter
   Exec gives the set of possible outcomes [s, x]: the next state, and the
   program interruption code (0 for none, 256+n for supervisor call n).      *)
EXTENDS Words, Decimal, Float, FiniteSets, TLC

M24 == 16777216
Mem(s, a) == IF a \in DOMAIN s.m THEN s.m[a] ELSE 0
MemN(s, a, n) == [i \in 1..n |-> Mem(s, a + i - 1)]
Put(s, a, b) == [s EXCEPT !.m = [i \in a..(a + Len(b) - 1) |-> b[i - a + 1]] @@ s.m]
SetR(s, n, w) == [s EXCEPT !.r = [s.r EXCEPT ![n] = w]]
SetF(s, n, w) == [s EXCEPT !.f = [s.f EXCEPT ![n] = w]]
CC(s, c) == [s EXCEPT !.cc = c]
Out(s) == {[s |-> s, x |-> 0]}
OutX(s, x) == {[s |-> s, x |-> x]}
Excs(s, codes) == {[s |-> s, x |-> c] : c \in codes}

(* what can be wrong with an operand *)
AddrBad(s, a, n) == a + n > s.size
ProtBad(s, a, n) == s.key # 0 /\ \E b \in (a \div 2048)..((a + n - 1) \div 2048) :
                       b + 1 <= Len(s.k) /\ s.k[b + 1] # s.key
Bad(s, a, n, al, store) ==
   (IF a % al # 0 THEN {6} ELSE {}) \cup (IF AddrBad(s, a, n) THEN {5} ELSE {})
   \cup (IF store /\ ProtBad(s, a, n) THEN {4} ELSE {})
(* the bytes of a..a+n-1 that a terminated operation may have changed *)
Loose(s, a, n) == {b \in a..(a + n - 1) : b < s.size /\ ~ProtBad(s, b, 1)}
(* terminated: results that are not predictable *)
Term(s, regs, mem, codes) ==
   {[s |-> IF c = 6 THEN s ELSE [s EXCEPT !.ur = @ \cup regs, !.um = @ \cup mem, !.ucc = TRUE], x |-> c] : c \in codes}

RegN(s, n) == IF n = 0 THEN 0 ELSE Nat24(s.r[n])
EA(s, x, b, d) == (RegN(s, x) + RegN(s, b) + d) % M24

Least(S) == CHOOSE x \in S : \A y \in S : x <= y
SignCC(w) == IF IsZero(w) THEN 0 ELSE IF Neg(w) THEN 1 ELSE 2
ZeroCC(w) == IF IsZero(w) THEN 0 ELSE 1
CmpCC(c) == IF c = 0 THEN 0 ELSE IF c < 0 THEN 1 ELSE 2
Priv(s) == s.amwp % 2 = 1
(* a result that may overflow: interruption if the fixed-point mask is on *)
Ovf(s, v) == IF v /\ s.pm >= 8 THEN OutX(CC(s, 3), 8) ELSE IF v THEN Out(CC(s, 3)) ELSE Out(s)
Even(n) == n % 2 = 0
BrTaken(s, m) == (m \div (CASE s.cc = 0 -> 8 [] s.cc = 1 -> 4 [] s.cc = 2 -> 2 [] OTHER -> 1)) % 2 = 1
Link(s) == <<s.ilc * 64 + s.cc * 16 + s.pm, s.ia \div 65536, (s.ia \div 256) % 256, s.ia % 256>>
BlockOf(a) == a \div 2048

(* the arithmetic shared by RR, RX forms: w is the second operand *)
AluOp(s, o, r1, w) ==
  LET a == s.r[r1] IN
  CASE o = 4 -> LET v == AndB(a, w) IN Out(CC(SetR(s, r1, v), ZeroCC(v)))
    [] o = 5 -> Out(CC(s, CmpCC(LogCmp(a, w))))
    [] o = 6 -> LET v == OrB(a, w) IN Out(CC(SetR(s, r1, v), ZeroCC(v)))
    [] o = 7 -> LET v == XorB(a, w) IN Out(CC(SetR(s, r1, v), ZeroCC(v)))
    [] o = 8 -> Out(SetR(s, r1, w))
    [] o = 9 -> Out(CC(s, CmpCC(ArithCmp(a, w))))
    [] o = 10 -> LET x == Add4(a, w, 0) IN Ovf(CC(SetR(s, r1, x.s), SignCC(x.s)), x.v)
    [] o = 11 -> LET x == Sub4(a, w) IN Ovf(CC(SetR(s, r1, x.s), SignCC(x.s)), x.v)
    [] o = 12 -> LET p == SMul4(s.r[r1 + 1], w) IN Out(SetR(SetR(s, r1, Hi4(p)), r1 + 1, Lo4(p)))
    [] o = 13 -> LET n == s.r[r1] \o s.r[r1 + 1]
                     dv == Div8(Abs8(n), Abs4(w))
                     qneg == Neg(n) # Neg(w)
                     qm == Lo4(dv[1])
                     fits == /\ IsZero(Hi4(dv[1]))
                             /\ (IF qneg THEN (~Neg(qm) \/ qm = <<128, 0, 0, 0>>) ELSE ~Neg(qm))
                 IN IF IsZero(w) \/ ~fits THEN OutX(s, 9)
                    ELSE Out(SetR(SetR(s, r1, IF Neg(n) THEN Neg4(dv[2]) ELSE dv[2]),
                                  r1 + 1, IF qneg THEN Neg4(qm) ELSE qm))
    [] o = 14 -> LET x == Add4(a, w, 0) IN Out(CC(SetR(s, r1, x.s), 2 * x.c + ZeroCC(x.s)))
    [] o = 15 -> LET x == Sub4(a, w) IN Out(CC(SetR(s, r1, x.s), 2 * x.c + ZeroCC(x.s)))

RRFixed(s, op, r1, r2) ==
  CASE op = 4 -> Out([s EXCEPT !.cc = (s.r[r1][1] \div 16) % 4, !.pm = s.r[r1][1] % 16])
    [] op = 5 -> LET to == Nat24(s.r[r2]) t == SetR(s, r1, Link(s)) IN
                 Out(IF r2 = 0 THEN t ELSE [t EXCEPT !.ia = to])
    [] op = 6 -> LET to == Nat24(s.r[r2]) c == Add4(s.r[r1], <<255, 255, 255, 255>>, 0).s t == SetR(s, r1, c) IN
                 Out(IF r2 = 0 \/ IsZero(c) THEN t ELSE [t EXCEPT !.ia = to])
    [] op = 7 -> Out(IF r2 # 0 /\ BrTaken(s, r1) THEN [s EXCEPT !.ia = Nat24(s.r[r2])] ELSE s)
    [] op = 8 \/ op = 9 ->
         LET a == Nat24(s.r[r2])
             codes == (IF Priv(s) THEN {2} ELSE {}) \cup (IF a % 16 # 0 THEN {6} ELSE {}) \cup (IF a >= s.size THEN {5} ELSE {})
         IN IF codes # {} THEN Excs(s, IF 2 \in codes THEN {2} ELSE codes)
            ELSE IF op = 8 THEN Out([s EXCEPT !.k = [s.k EXCEPT ![BlockOf(a) + 1] = s.r[r1][4] \div 16]])
            ELSE Out(SetR(s, r1, <<s.r[r1][1], s.r[r1][2], s.r[r1][3], 16 * s.k[BlockOf(a) + 1]>>))
    [] op = 10 -> OutX(s, 256 + 16 * r1 + r2)
    [] op = 16 -> LET w == s.r[r2] v == Abs4(w) IN
                  Ovf(CC(SetR(s, r1, v), IF IsZero(v) THEN 0 ELSE 2), Neg(v))
    [] op = 17 -> LET w == s.r[r2] v == IF Neg(w) THEN w ELSE Neg4(w) IN
                  Out(CC(SetR(s, r1, v), ZeroCC(v)))
    [] op = 18 -> Out(CC(SetR(s, r1, s.r[r2]), SignCC(s.r[r2])))
    [] op = 19 -> LET w == s.r[r2] v == Neg4(w) IN
                  Ovf(CC(SetR(s, r1, v), SignCC(v)), Neg(w) /\ Neg(v))
    [] op \in 20..31 ->
         IF op \in {28, 29} /\ ~Even(r1) THEN OutX(s, 6) ELSE AluOp(s, op - 16, r1, s.r[r2])
    [] OTHER -> OutX(s, 1)

(* EX and the instructions that need it are in Exec *)
RXFixed(s, op, r1, a) ==
  CASE op = 64 -> IF Bad(s, a, 2, 2, TRUE) # {} THEN Excs(s, Bad(s, a, 2, 2, TRUE))
                  ELSE Out(Put(s, a, <<s.r[r1][3], s.r[r1][4]>>))
    [] op = 65 -> Out(SetR(s, r1, FromNat24(a)))
    [] op = 66 -> IF Bad(s, a, 1, 1, TRUE) # {} THEN Excs(s, Bad(s, a, 1, 1, TRUE))
                  ELSE Out(Put(s, a, <<s.r[r1][4]>>))
    [] op = 67 -> IF Bad(s, a, 1, 1, FALSE) # {} THEN Term(s, {r1}, {}, Bad(s, a, 1, 1, FALSE))
                  ELSE Out(SetR(s, r1, <<s.r[r1][1], s.r[r1][2], s.r[r1][3], Mem(s, a)>>))
    [] op = 69 -> Out([SetR(s, r1, Link(s)) EXCEPT !.ia = a])
    [] op = 70 -> LET c == Add4(s.r[r1], <<255, 255, 255, 255>>, 0).s t == SetR(s, r1, c) IN
                  Out(IF IsZero(c) THEN t ELSE [t EXCEPT !.ia = a])
    [] op = 71 -> Out(IF BrTaken(s, r1) THEN [s EXCEPT !.ia = a] ELSE s)
    [] op \in 72..76 ->
         IF Bad(s, a, 2, 2, FALSE) # {} THEN Term(s, {r1}, {}, Bad(s, a, 2, 2, FALSE))
         ELSE LET w == SignExt2(MemN(s, a, 2)) IN
              IF op = 76 THEN Out(SetR(s, r1, Lo4(SMul4(s.r[r1], w))))
              ELSE AluOp(s, op - 64, r1, w)
    [] op = 78 -> IF Bad(s, a, 8, 8, TRUE) # {} THEN Term(s, {}, Loose(s, a, 8), Bad(s, a, 8, 8, TRUE))
                  ELSE Out(Put(s, a, ToDecimal(s.r[r1], s.amwp >= 8)))
    [] op = 79 -> IF Bad(s, a, 8, 8, FALSE) # {} THEN Term(s, {r1}, {}, Bad(s, a, 8, 8, FALSE))
                  ELSE LET b == MemN(s, a, 8) v == FromDecimal(b) IN
                       IF ~ValidDec(b) THEN Term(s, {r1}, {}, {7})
                       ELSE IF v.big THEN OutX(SetR(s, r1, v.w), 9) ELSE Out(SetR(s, r1, v.w))
    [] op = 80 -> IF Bad(s, a, 4, 4, TRUE) # {} THEN Term(s, {}, Loose(s, a, 4), Bad(s, a, 4, 4, TRUE))
                  ELSE Out(Put(s, a, s.r[r1]))
    [] op \in 84..95 ->
         LET codes == Bad(s, a, 4, 4, FALSE) \cup (IF op \in {92, 93} /\ ~Even(r1) THEN {6} ELSE {}) IN
         IF codes # {} THEN Term(s, IF op \in {92, 93} THEN {r1, (r1 + 1) % 16} ELSE {r1}, {}, codes)
         ELSE AluOp(s, op - 80, r1, MemN(s, a, 4))
    [] OTHER -> OutX(s, 1)

Sh2(s, r1, w) == SetR(SetR(s, r1, Hi4(w)), r1 + 1, Lo4(w))
RECURSIVE LoadRegs(_, _, _, _), StoreRegs(_, _, _, _)
NRegs(r1, r3) == ((r3 - r1 + 16) % 16) + 1
LoadRegs(s, r1, n, a) == IF n = 0 THEN s ELSE LoadRegs(SetR(s, r1, MemN(s, a, 4)), (r1 + 1) % 16, n - 1, a + 4)
RegBytes(s, r1, n) == [i \in 1..(4 * n) |-> s.r[(r1 + ((i - 1) \div 4)) % 16][((i - 1) % 4) + 1]]
StoreRegs(s, r1, n, a) == Put(s, a, RegBytes(s, r1, n))

LoadPsw(s, b) == [s EXCEPT !.mask = b[1], !.key = b[2] \div 16, !.amwp = b[2] % 16,
                           !.cc = (b[5] \div 16) % 4, !.pm = b[5] % 16, !.ia = b[6] * 65536 + b[7] * 256 + b[8]]

(* RS and SI; a is the address, r1/r3 or the immediate byte i2 *)
RSSI(s, op, r1, r3, a) ==
  LET i2 == 16 * r1 + r3 IN
  CASE op \in {131, 132, 133} -> IF Priv(s) /\ op = 131 THEN OutX(s, 2) ELSE IF Priv(s) THEN Excs(s, {1, 2}) ELSE OutX(s, 1)
    [] op = 128 -> IF Priv(s) THEN OutX(s, 2) ELSE IF Bad(s, a, 1, 1, FALSE) # {} THEN OutX(s, 5)
                   ELSE Out([s EXCEPT !.mask = Mem(s, a)])
    [] op = 130 -> IF Priv(s) THEN OutX(s, 2)
                   ELSE IF Bad(s, a, 8, 8, FALSE) # {} THEN Excs(s, Bad(s, a, 8, 8, FALSE))
                   ELSE \* a condition code that is not predictable stays so
                        {[s |-> LoadPsw(s, [MemN(s, a, 8) EXCEPT ![5] = (@ - ((@ \div 16) % 4) * 16) + c * 16]), x |-> 0] :
                            c \in IF a + 4 \in s.uc THEN 0..3 ELSE {(Mem(s, a + 4) \div 16) % 4}}
    [] op \in {134, 135} ->
         LET lim == IF Even(r3) THEN s.r[r3 + 1] ELSE s.r[r3]
             x == Add4(s.r[r1], s.r[r3], 0).s
             hi == ArithCmp(x, lim) > 0
             t == SetR(s, r1, x)
         IN Out(IF (op = 134) = hi THEN [t EXCEPT !.ia = a] ELSE t)
    [] op \in 136..143 ->
         LET n == a % 64 dbl == op >= 140
             w == IF dbl THEN s.r[r1] \o s.r[r1 + 1] ELSE s.r[r1]
             fill == IF Neg(w) THEN 1 ELSE 0
             put(v) == IF dbl THEN Sh2(s, r1, v) ELSE SetR(s, r1, v)
             k == op % 4
         IN IF dbl /\ ~Even(r1) THEN OutX(s, 6)
            ELSE CASE k = 0 -> Out(put(ShiftR(w, n, 0)))
                   [] k = 1 -> Out(put(ShiftL(w, n)))
                   [] k = 2 -> LET v == ShiftR(w, n, fill) IN Out(CC(put(v), SignCC(v)))
                   [] OTHER -> LET v == ShiftLA(w, n) IN Ovf(CC(put(v.s), SignCC(v.s)), v.v)
    [] op = 144 -> LET n == 4 * NRegs(r1, r3) IN
                   IF Bad(s, a, n, 4, TRUE) # {} THEN Term(s, {}, Loose(s, a, n), Bad(s, a, n, 4, TRUE))
                   ELSE Out(StoreRegs(s, r1, NRegs(r1, r3), a))
    [] op = 145 -> IF Bad(s, a, 1, 1, FALSE) # {} THEN Term(s, {}, {}, {5})
                   ELSE LET v == Mem(s, a) & i2 IN
                        Out(CC(s, IF v = 0 THEN 0 ELSE IF v = i2 THEN 3 ELSE 1))
    [] op \in {146, 148, 150, 151} ->
         IF Bad(s, a, 1, 1, TRUE) # {} THEN Term(s, {}, {}, Bad(s, a, 1, 1, TRUE))
         ELSE LET o == Mem(s, a)
                  v == CASE op = 146 -> i2 [] op = 148 -> o & i2 [] op = 150 -> o | i2 [] OTHER -> o ^^ i2
                  t == Put(s, a, <<v>>)
              IN Out(IF op = 146 THEN t ELSE CC(t, IF v = 0 THEN 0 ELSE 1))
    [] op = 147 -> IF Bad(s, a, 1, 1, TRUE) # {} THEN Term(s, {}, {}, Bad(s, a, 1, 1, TRUE))
                   ELSE Out(CC(Put(s, a, <<255>>), Mem(s, a) \div 128))
    [] op = 149 -> IF Bad(s, a, 1, 1, FALSE) # {} THEN Term(s, {}, {}, {5})
                   ELSE LET v == Mem(s, a) IN Out(CC(s, CmpCC(IF v = i2 THEN 0 ELSE IF v < i2 THEN -1 ELSE 1)))
    [] op = 152 -> LET n == 4 * NRegs(r1, r3) IN
                   IF Bad(s, a, n, 4, FALSE) # {}
                   THEN Term(s, {(r1 + i) % 16 : i \in 0..(NRegs(r1, r3) - 1)}, {}, Bad(s, a, n, 4, FALSE))
                   ELSE Out(LoadRegs(s, r1, NRegs(r1, r3), a))
    [] OTHER -> OutX(s, 1)

----------------------------------------------------------------------------
(* Storage to storage. Left to right operations store each byte before the
   next one is fetched, so overlapping operands are meaningful.             *)
ByteF(op, o, x) ==
  CASE op = 209 -> (o \div 16) * 16 + (x % 16)
    [] op = 210 -> x
    [] op = 211 -> (x \div 16) * 16 + (o % 16)
    [] op = 212 -> o & x
    [] op = 214 -> o | x
    [] OTHER -> o ^^ x
RECURSIVE ByteLoop(_, _, _, _, _, _)
ByteLoop(m, op, a1, a2, i, n) ==
  IF i = n THEN m
  ELSE LET o == IF a1 + i \in DOMAIN m THEN m[a1 + i] ELSE 0
           x == IF a2 + i \in DOMAIN m THEN m[a2 + i] ELSE 0
       IN ByteLoop((a1 + i :> ByteF(op, o, x)) @@ m, op, a1, a2, i + 1, n)
(* when the operands do not overlap destructively the result is direct *)
Each(s, op, a1, a2, n) ==
  IF a1 <= a2 \/ a1 >= a2 + n
  THEN [i \in a1..(a1 + n - 1) |-> ByteF(op, Mem(s, i), Mem(s, a2 + i - a1))] @@ s.m
  ELSE ByteLoop(s.m, op, a1, a2, 0, n)

RECURSIVE TrtFind(_, _, _, _, _)
TrtFind(s, a1, a2, i, n) ==      \* index of the first byte with a nonzero function byte, or n
  IF i = n THEN n
  ELSE IF Mem(s, a2 + Mem(s, a1 + i)) # 0 THEN i ELSE TrtFind(s, a1, a2, i + 1, n)

RECURSIVE TrLoop(_, _, _, _, _)
TrLoop(m, a1, a2, i, n) ==
  IF i = n THEN m
  ELSE LET G(a) == IF a \in DOMAIN m THEN m[a] ELSE 0
       IN TrLoop((a1 + i :> G(a2 + G(a1 + i))) @@ m, a1, a2, i + 1, n)

(* Edit. sig: significance; zero: the current field was zero so far; src: next
   source byte; half: the digit still to use of the last source byte, or -1;
   mark: address for EDIT AND MARK, or -1.                                   *)
RECURSIVE EditLoop(_, _, _, _, _, _, _, _, _, _, _, _)
EditLoop(s, m, a1, i, n, fill, sig, zero, src, half, mark, zone) ==
  IF i = n THEN [bad |-> 0, m |-> m, sig |-> sig, zero |-> zero, mark |-> mark]
  ELSE
  LET G(a) == IF a \in DOMAIN m THEN m[a] ELSE 0
      p == G(a1 + i)
      put(v) == (a1 + i :> v) @@ m
  IN CASE p \in {32, 33} ->
            IF half < 0 /\ src >= s.size THEN [bad |-> 5, m |-> m, sig |-> sig, zero |-> zero, mark |-> mark]
            ELSE
            LET b == G(src)
                d == IF half < 0 THEN b \div 16 ELSE half
                lo == b % 16
                plus == half < 0 /\ lo \in {10, 12, 14, 15}
                half2 == IF half < 0 /\ lo <= 9 THEN lo ELSE -1
                src2 == IF half < 0 THEN src + 1 ELSE src
                shown == sig \/ d # 0
                sig2 == ~plus /\ (shown \/ p = 33)
            IN IF d > 9 THEN [bad |-> 7, m |-> m, sig |-> sig, zero |-> zero, mark |-> mark]
               ELSE EditLoop(s, put(IF shown THEN zone * 16 + d ELSE fill), a1, i + 1, n, fill, sig2,
                             zero /\ d = 0, src2, half2, IF ~sig /\ d # 0 THEN a1 + i ELSE mark, zone)
       [] p = 34 -> EditLoop(s, put(fill), a1, i + 1, n, fill, FALSE, TRUE, src, half, mark, zone)
       [] OTHER -> EditLoop(s, IF sig THEN m ELSE put(fill), a1, i + 1, n, fill, sig, zero, src, half, mark, zone)

Edit(s, domark, a1, a2, n) ==
  IF Bad(s, a1, n, 1, TRUE) # {}
  THEN LET e == EditLoop(s, s.m, a1, 0, n, Mem(s, a1), FALSE, TRUE, a2, -1, -1, 15)
       IN Term(s, IF domark THEN {1} ELSE {}, Loose(s, a1, n), Bad(s, a1, n, 1, TRUE) \cup ({e.bad} \ {0}))
  ELSE LET e == EditLoop(s, s.m, a1, 0, n, Mem(s, a1), FALSE, TRUE, a2, -1, -1, IF s.amwp >= 8 THEN 5 ELSE 15)
           t == [s EXCEPT !.m = e.m]
           w == FromNat24(e.mark)
           u == IF domark /\ e.mark >= 0 THEN SetR(t, 1, <<s.r[1][1], w[2], w[3], w[4]>>) ELSE t
       IN IF e.bad # 0 THEN Term(s, IF domark THEN {1} ELSE {}, Loose(s, a1, n), {e.bad})
          ELSE Out(CC(u, IF e.zero THEN 0 ELSE IF e.sig THEN 1 ELSE 2))

SS1(s, op, a1, a2, n) ==
  LET new == [s EXCEPT !.m = Each(s, op, a1, a2, n)]
      logical(t) == Out(CC(t, IF \A i \in a1..(a1 + n - 1) : t.m[i] = 0 THEN 0 ELSE 1))
      codes == Bad(s, a1, n, 1, op # 213) \cup Bad(s, a2, n, 1, FALSE)
      tcodes == Bad(s, a1, n, 1, op = 220)
      (* the highest table byte reached *)
      top == a2 + 255
  IN
  CASE op \in {209, 210, 211, 212, 213, 214, 215} /\ codes # {} ->
         Term(s, {}, IF op = 213 THEN {} ELSE Loose(s, a1, n), codes)
         \cup \* a comparison may end before the bytes that are not there
         (LET h == Least({n, IF a1 >= s.size THEN 0 ELSE s.size - a1, IF a2 >= s.size THEN 0 ELSE s.size - a2})
              c == IF h = 0 THEN 0 ELSE LogCmp(MemN(s, a1, h), MemN(s, a2, h))
          IN IF op = 213 /\ c # 0 THEN Out(CC(s, CmpCC(c))) ELSE {})
    [] op \in {209, 210, 211} -> Out(new)
    [] op = 213 -> Out(CC(s, CmpCC(LogCmp(MemN(s, a1, n), MemN(s, a2, n)))))
    [] op \in {212, 214, 215} -> logical(new)
    [] op = 220 -> IF tcodes # {} THEN Term(s, {}, Loose(s, a1, n), tcodes)
                   ELSE IF \E i \in 0..(n - 1) : a2 + Mem(s, a1 + i) >= s.size
                   THEN Term(s, {}, Loose(s, a1, n), {5})
                   ELSE IF a1 + n <= a2 \/ a2 + 256 <= a1
                   THEN Out([s EXCEPT !.m = [i \in a1..(a1 + n - 1) |-> Mem(s, a2 + Mem(s, i))] @@ s.m])
                   ELSE Out([s EXCEPT !.m = TrLoop(s.m, a1, a2, 0, n)])
    [] op = 221 -> LET j == TrtFind(s, a1, a2, 0, n) a == FromNat24((a1 + j) % M24) v == Mem(s, a2 + Mem(s, a1 + j)) IN
                   IF \E i \in 0..(IF j = n THEN n - 1 ELSE j) : a1 + i >= s.size \/ a2 + Mem(s, a1 + i) >= s.size
                   THEN Term(s, {1, 2}, {}, {5})
                   ELSE IF j = n THEN Out(CC(s, 0))
                   ELSE Out(CC(SetR(SetR(s, 1, <<s.r[1][1], a[2], a[3], a[4]>>), 2,
                                    <<s.r[2][1], s.r[2][2], s.r[2][3], v>>), IF j = n - 1 THEN 2 ELSE 1))
    [] op \in {222, 223} -> Edit(s, op = 223, a1, a2, n)
    [] OTHER -> OutX(s, 1)

----------------------------------------------------------------------------
(* Two length operations, right to left: each result byte is stored right
   after the source bytes it needs have been fetched.                        *)
RECURSIVE MvoLoop(_, _, _, _, _, _, _), PackLoop(_, _, _, _, _, _), UnpkLoop(_, _, _, _, _, _, _)
GetM(m, a) == IF a \in DOMAIN m THEN m[a] ELSE 0
(* i1, i2: bytes still to do on each side; hold: low digit of the next result *)
MvoLoop(m, a1, a2, i1, i2, hold, first) ==
  IF i1 = 0 THEN m
  ELSE LET b == IF i2 > 0 THEN GetM(m, a2 + i2 - 1) ELSE 0
           lo == IF first THEN GetM(m, a1 + i1 - 1) % 16 ELSE hold
       IN MvoLoop((a1 + i1 - 1 :> (b % 16) * 16 + lo) @@ m, a1, a2, i1 - 1, IF i2 > 0 THEN i2 - 1 ELSE 0, b \div 16, FALSE)
PackLoop(m, a1, a2, i1, i2, first) ==
  IF i1 = 0 THEN m
  ELSE IF first THEN LET b == GetM(m, a2 + i2 - 1) IN
       PackLoop((a1 + i1 - 1 :> (b % 16) * 16 + (b \div 16)) @@ m, a1, a2, i1 - 1, i2 - 1, FALSE)
  ELSE LET lo == IF i2 > 0 THEN GetM(m, a2 + i2 - 1) % 16 ELSE 0
           hi == IF i2 > 1 THEN GetM(m, a2 + i2 - 2) % 16 ELSE 0
       IN PackLoop((a1 + i1 - 1 :> hi * 16 + lo) @@ m, a1, a2, i1 - 1, IF i2 > 2 THEN i2 - 2 ELSE 0, FALSE)
UnpkLoop(m, a1, a2, i1, i2, first, zone) ==
  IF i1 = 0 THEN m
  ELSE LET b == IF i2 > 0 THEN GetM(m, a2 + i2 - 1) ELSE 0 IN
  IF first THEN UnpkLoop((a1 + i1 - 1 :> (b % 16) * 16 + (b \div 16)) @@ m, a1, a2, i1 - 1, i2 - 1, FALSE, zone)
  ELSE LET m1 == (a1 + i1 - 1 :> zone * 16 + (b % 16)) @@ m
       IN IF i1 = 1 THEN m1
          ELSE UnpkLoop((a1 + i1 - 2 :> zone * 16 + (b \div 16)) @@ m1, a1, a2, i1 - 2, IF i2 > 0 THEN i2 - 1 ELSE 0, FALSE, zone)

DecOvf(s, v) == IF v /\ (s.pm \div 4) % 2 = 1 THEN OutX(CC(s, 3), 10) ELSE IF v THEN Out(CC(s, 3)) ELSE Out(s)
DecStore(s, a1, n1, d, neg) ==          \* a result that may be too long
  LET v == Lost(d, 2 * n1 - 1)
      z == AllZero(d)
      ng == IF z THEN FALSE ELSE neg
  IN DecOvf(CC(Put(s, a1, PackDec(d, ng, s.amwp >= 8, n1)), IF z THEN 0 ELSE IF neg THEN 1 ELSE 2), v)

(* Known findings of the 2050, let pass when s.kf (known-findings.txt names
   them; a run of its own shows each of them against the strict specification):
   - COMPARE DECIMAL does not look at the digits of the byte of the second
     operand it takes first for each further word of the first, nor of every
     fourth byte beyond the length of the first, starting at once;
   - MULTIPLY DECIMAL does not find every invalid digit of the multiplicand;
   - ADD and SUBTRACT DECIMAL miss the overflow when the difference of the
     magnitudes is a one followed by as many zeros as the first operand has
     digits.                                                                *)
KnownDec(s, op, a1, n1, n2, b1, b2) ==
  IF ~(s.kf /\ s.fl) THEN {}
  ELSE IF op = 249 /\ ValidDec(b1) /\ ~ValidDec(b2)
          /\ ValidDec([i \in 1..n2 |-> LET r == n2 - i IN
                 IF r > 0 /\ (IF r < n1 THEN (a1 + n1 - 1 - r) % 4 = 3 ELSE (r - n1) % 4 = 0) THEN 0 ELSE b2[i]])
  THEN {[s |-> CC(s, c), x |-> 0] : c \in 0..2}
  ELSE IF op = 252 /\ ValidDec(b2) /\ ~ValidDec(b1) /\ b1[n1] % 16 >= 10 /\ (\A i \in 1..n2 : b1[i] = 0)
  THEN {[s |-> [s EXCEPT !.um = @ \cup Loose(s, a1, n1)], x |-> 0]}
  ELSE IF op \in {250, 251} /\ ValidDec(b1) /\ ValidDec(b2)
  THEN LET neg2 == IF op = 250 THEN DecNeg(b2) ELSE ~DecNeg(b2)
           x == DecSum(DecDigits(b1), DecNeg(b1), DecDigits(b2), neg2, 31)
           ten == [i \in 1..32 |-> IF i = 32 - (2 * n1 - 1) THEN 1 ELSE 0]
       IN IF DecNeg(b1) # neg2 /\ x.d = ten /\ x.neg = neg2
          THEN Out(CC(Put(s, a1, PackDec(x.d, x.neg, s.amwp >= 8, n1)), IF x.neg THEN 1 ELSE 2))
          ELSE {}
  ELSE {}
(* n1, n2: lengths in bytes *)
SS2(s, op, a1, a2, n1, n2) ==
  LET codes == Bad(s, a1, n1, 1, op # 249) \cup Bad(s, a2, n2, 1, FALSE)
      b1 == MemN(s, a1, n1)
      b2 == MemN(s, a2, n2)
      loose == IF op = 249 THEN {} ELSE Loose(s, a1, n1)
      lencodes == IF op \in {252, 253} /\ (n2 > 8 \/ n2 >= n1) THEN {6} ELSE {}
      data(v) == Term(s, {}, loose, {7})
      baddata == op >= 248 /\ (~ValidDec(b2) \/ (op # 248 /\ ~ValidDec(b1)))
      (* multiplying by zero: whether the digits are looked at is left open *)
      mulzero == op = 252 /\ ValidDec(b2) /\ AllZero(DecDigits(b2)) /\ (\A i \in 1..n2 : b1[i] = 0) /\ b1[n1] % 16 >= 10
  IN (IF lencodes # {} \/ codes # {} THEN {} ELSE KnownDec(s, op, a1, n1, n2, b1, b2)) \cup
  (CASE lencodes # {} \/ codes # {} -> Term(s, {}, loose, lencodes \cup codes \cup (IF op >= 248 /\ (baddata \/ 5 \in codes) THEN {7} ELSE {})
                                   \cup (IF op = 253 /\ lencodes = {} /\ (5 \in codes \/ DCmp(SubSeq(DecDigits(b1), 1, 2 * n2), <<0>> \o DecDigits(b2)) >= 0)
                                         THEN {11} ELSE {}))
    [] op = 241 -> Out([s EXCEPT !.m = MvoLoop(s.m, a1, a2, n1, n2, 0, TRUE)])
    [] op = 242 -> Out([s EXCEPT !.m = PackLoop(s.m, a1, a2, n1, n2, TRUE)])
    [] op = 243 -> Out([s EXCEPT !.m = UnpkLoop(s.m, a1, a2, n1, n2, TRUE, IF s.amwp >= 8 THEN 5 ELSE 15)])
    [] op = 248 -> IF ~ValidDec(b2) THEN data(0) ELSE DecStore(s, a1, n1, DecDigits(b2), DecNeg(b2))
    [] op \in {249, 250, 251} ->
         IF ~ValidDec(b1) \/ ~ValidDec(b2) THEN data(0)
         ELSE LET x == DecSum(DecDigits(b1), DecNeg(b1), DecDigits(b2), IF op = 250 THEN DecNeg(b2) ELSE ~DecNeg(b2), 31)
              IN IF op = 249 THEN Out(CC(s, IF AllZero(x.d) THEN 0 ELSE IF x.neg THEN 1 ELSE 2))
                 ELSE DecStore(s, a1, n1, x.d, x.neg)
    [] op = 252 ->
         IF ~ValidDec(b1) \/ ~ValidDec(b2) \/ (\E i \in 1..n2 : b1[i] # 0)
         THEN data(0) \cup (IF mulzero THEN Out([s EXCEPT !.um = @ \cup loose]) ELSE {})
         ELSE Out(Put(s, a1, PackDec(DMul(SubSeq(DecDigits(b1), 2 * n2 + 1, 2 * n1 - 1), DecDigits(b2)),
                                     DecNeg(b1) # DecNeg(b2), s.amwp >= 8, n1)))
    [] op = 253 ->
         IF ~ValidDec(b1) \/ ~ValidDec(b2)
         THEN data(0) \cup (IF DCmp(SubSeq(DecDigits(b1), 1, 2 * n2), <<0>> \o DecDigits(b2)) >= 0 THEN Term(s, {}, loose, {11}) ELSE {})
         ELSE LET dd == DecDigits(b1) dv == DecDigits(b2)
                  pre == SubSeq(dd, 1, 2 * n2)
              IN IF DCmp(pre, <<0>> \o dv) >= 0 THEN OutX(s, 11)
                 ELSE LET x == DDiv(dd, dv) nq == n1 - n2 IN
                      Out(Put(s, a1, PackDec(x[1], DecNeg(b1) # DecNeg(b2), s.amwp >= 8, nq)
                                     \o PackDec(x[2], DecNeg(b1), s.amwp >= 8, n2)))
    [] OTHER -> OutX(s, 1))

----------------------------------------------------------------------------
(* Floating point (Model 50): operations 20-3F, 60, 68-6F, 70, 78-7F. Bit 3 of
   the operation tells short from long.                                      *)
IsFloat(op) == op \in 32..36 \/ op \in 40..52 \/ op \in 56..63 \/ op = 96 \/ op \in 104..112 \/ op \in 120..127
FLong(op) == (op \div 16) % 2 = 0
FGet(s, n) == s.f[n \div 2]
FHi(s, n) == Hi4(FGet(s, n))
SetFS(s, n, w) == SetF(s, n \div 2, w \o Lo4(FGet(s, n)))
FRead(s, n, long) == FNum(IF long THEN FGet(s, n) ELSE FHi(s, n))
FWrite(s, n, v) == IF Len(v.d) = 14 THEN SetF(s, n \div 2, FPack(v)) ELSE SetFS(s, n, FPack(v))
FSign(v) == IF FZero(v.d) THEN 0 ELSE IF v.neg THEN 1 ELSE 2
FWrap(v) == [v EXCEPT !.ch = (@ + 256) % 128]
SigMask(s) == s.pm % 2 = 1
UndMask(s) == (s.pm \div 2) % 2 = 1
(* a result whose characteristic may be out of range. With cc, the condition
   code is set from it.                                                      *)
FEnd(s, n, v, cc) ==
  LET t(w) == IF cc THEN CC(FWrite(s, n, w), FSign(w)) ELSE FWrite(s, n, w) IN
  IF v.ch > 127 THEN OutX(t(FWrap(v)), 12)
  ELSE IF v.ch < 0
       THEN IF UndMask(s) THEN OutX(t(FWrap(v)), 13)
            ELSE Out(t(FTrue0(Len(v.d)))) \cup
                 (\* known finding 2050-short-underflow: the low half of the register is cleared too
                  IF s.kf /\ cc /\ Len(v.d) = 6 THEN Out(SetF(t(FTrue0(6)), n \div 2, FPack(FTrue0(14)))) ELSE {})
  ELSE Out(t(v))
FAdd(s, n, a, b, sub, norm) ==
  LET w == Len(a.d)
      sum == FCarry(FSum(a, b, b.neg # sub, 1))
      zero == IF SigMask(s) THEN OutX(CC(FWrite(s, n, Cut([sum EXCEPT !.neg = FALSE], w)), 0), 14)
              ELSE Out(CC(FWrite(s, n, FTrue0(w)), 0))
  IN IF FZero(sum.d) THEN zero
     ELSE IF sum.c THEN FEnd(s, n, Cut(sum, w), TRUE)
     ELSE IF norm THEN FEnd(s, n, Cut(FNormal(sum), w), TRUE)
     ELSE \* if only the guard digit is left of an unnormalized sum, it may or may not count
          FEnd(s, n, Cut(sum, w), TRUE) \cup (IF FZero(Cut(sum, w).d) THEN zero ELSE {})
FCmpr(s, a, b) ==
  LET sum == FSum(a, b, ~b.neg, 1) IN Out(CC(s, IF FZero(sum.d) THEN 0 ELSE IF sum.neg THEN 1 ELSE 2))
(* short operands have a long product, whose last two digits are zero *)
FMul(s, n, a, b) ==
  LET x == FNormal(a) y == FNormal(b)
      p == HMul(x.d, y.d)
      p14 == SubSeq(p \o HZeros(4), 1, 15)
      v == FNormal([neg |-> a.neg # b.neg, ch |-> x.ch + y.ch - 64, d |-> p14])
  IN IF FZero(a.d) \/ FZero(b.d) THEN Out(FWrite(s, n, FTrue0(14)))
     ELSE FEnd(s, n, Cut(v, 14), FALSE)
FDiv(s, n, a, b) ==
  LET w == Len(a.d)
      x == FNormal(a) y == FNormal(b)
      q == HDiv(x.d, y.d, w + 1)
      v == IF q[1] # 0 THEN [neg |-> a.neg # b.neg, ch |-> x.ch - y.ch + 65, d |-> SubSeq(q, 1, w)]
           ELSE [neg |-> a.neg # b.neg, ch |-> x.ch - y.ch + 64, d |-> SubSeq(q, 2, w + 1)]
  IN IF FZero(b.d) THEN OutX(s, 15)
     ELSE IF FZero(a.d) THEN Out(FWrite(s, n, FTrue0(w)))
     ELSE FEnd(s, n, v, FALSE)
FloatOp(s, op, r1, b) ==          \* b: the second operand
  LET o == op % 16 a == FRead(s, r1, FLong(op)) IN
  CASE o = 8 -> Out(FWrite(s, r1, b))
    [] o = 9 -> FCmpr(s, a, b)
    [] o = 10 -> FAdd(s, r1, a, b, FALSE, TRUE)
    [] o = 11 -> FAdd(s, r1, a, b, TRUE, TRUE)
    [] o = 12 -> FMul(s, r1, a, b)
    [] o = 13 -> FDiv(s, r1, a, b)
    [] o = 14 -> FAdd(s, r1, a, b, FALSE, FALSE)
    [] o = 15 -> FAdd(s, r1, a, b, TRUE, FALSE)
FHalve(s, n, b) ==               \* the later definition: the result is normalized
  LET w == Len(b.d) h == FNormal([b EXCEPT !.d = HHalf(@ \o <<0>>)]) IN
  IF FZero(b.d) THEN Out(FWrite(s, n, FTrue0(w)))
     ELSE FEnd(s, n, Cut(h, w), FALSE) \cup
          (\* known finding 2050-halve-sign: the sign is inverted when the exponent underflow is reported
           IF s.kf /\ h.ch < 0 /\ UndMask(s) THEN FEnd(s, n, Cut([h EXCEPT !.neg = ~@], w), FALSE) ELSE {})
FloatRR(s, op, r1, r2) ==
  LET o == op % 16 b == FRead(s, r2, FLong(op))
      v == CASE o = 0 -> [b EXCEPT !.neg = FALSE] [] o = 1 -> [b EXCEPT !.neg = TRUE]
             [] o = 3 -> [b EXCEPT !.neg = ~@] [] OTHER -> b
  IN IF r1 \notin {0, 2, 4, 6} \/ r2 \notin {0, 2, 4, 6} THEN OutX(s, 6)
     ELSE IF o < 4 THEN Out(CC(FWrite(s, r1, v), FSign(v)))
     ELSE IF o = 4 THEN FHalve(s, r1, b)
     ELSE FloatOp(s, op, r1, b)
FloatRX(s, op, r1, a) ==
  LET n == IF FLong(op) THEN 8 ELSE 4
      store == op \in {96, 112}
      codes == (IF r1 \notin {0, 2, 4, 6} THEN {6} ELSE {}) \cup Bad(s, a, n, n, store)
  IN IF codes # {} THEN (IF store THEN Term(s, {}, Loose(s, a, n), codes) ELSE Term(s, {}, {}, codes))
     ELSE IF store THEN Out(Put(s, a, IF n = 8 THEN FGet(s, r1) ELSE FHi(s, r1)))
     ELSE FloatOp(s, op, r1, FNum(MemN(s, a, n)))

----------------------------------------------------------------------------
(* MOVE INVERSE, a feature of the 2050: the second operand is taken from right
   to left                                                                    *)
RECURSIVE InvLoop(_, _, _, _, _)
InvLoop(m, a1, a2, i, n) ==
  IF i = n THEN m ELSE InvLoop((a1 + i :> IF a2 - i \in DOMAIN m THEN m[a2 - i] ELSE 0) @@ m, a1, a2, i + 1, n)
MoveInv(s, a1, a2, n) ==
  LET codes == Bad(s, a1, n, 1, TRUE) \cup (IF a2 >= s.size \/ a2 - n + 1 < 0 THEN {5} ELSE {}) IN
  IF codes # {} THEN Term(s, {}, Loose(s, a1, n), codes)
  ELSE Out([s EXCEPT !.m = InvLoop(s.m, a1, a2, 0, n)])
UndefSS == (192..208) \cup (216..219) \cup (224..240) \cup (244..247) \cup {254, 255}
ExecOp0(s, b) ==
  LET op == b[1]
      r1 == b[2] \div 16
      r2 == b[2] % 16
      d1 == (b[3] % 16) * 256 + b[4]
      bs1 == b[3] \div 16
  IN CASE op = 232 /\ s.fl -> MoveInv(s, EA(s, 0, bs1, d1), EA(s, 0, b[5] \div 16, (b[5] % 16) * 256 + b[6]), b[2] + 1)
       [] op \in UndefSS -> OutX(s, 1)
       [] op < 32 -> RRFixed(s, op, r1, r2)
       [] IsFloat(op) /\ s.fl -> IF op < 64 THEN FloatRR(s, op, r1, r2) ELSE FloatRX(s, op, r1, EA(s, r2, bs1, d1))
       [] op \in 32..63 \/ op \in 96..127 -> OutX(s, 1)
       [] op \in 64..95 -> RXFixed(s, op, r1, EA(s, r2, bs1, d1))
       [] op \in 128..152 -> RSSI(s, op, r1, r2, EA(s, 0, bs1, d1))
       [] op \in 156..159 -> OutX(s, IF Priv(s) THEN 2 ELSE 1)
       [] op \in 208..223 -> SS1(s, op, EA(s, 0, bs1, d1), EA(s, 0, b[5] \div 16, (b[5] % 16) * 256 + b[6]), b[2] + 1)
       [] op \in 240..255 -> SS2(s, op, EA(s, 0, bs1, d1), EA(s, 0, b[5] \div 16, (b[5] % 16) * 256 + b[6]), r1 + 1, r2 + 1)
       [] OTHER -> OutX(s, 1)
(* An operation that is not valid, or privileged, has no operand address; when
   what would be one lies outside of storage that may be recognized instead.
   (input/output instructions are in a specification of their own)            *)
ExecOp(s, b) ==
  LET x == ExecOp0(s, b)
      a1 == EA(s, IF b[1] < 128 THEN b[2] % 16 ELSE 0, b[3] \div 16, (b[3] % 16) * 256 + b[4])
      a2 == EA(s, 0, b[5] \div 16, (b[5] % 16) * 256 + b[6])
      far == b[1] >= 64 /\ (a1 >= s.size \/ (b[1] >= 192 /\ (a1 + 255 >= s.size \/ a2 + 255 >= s.size)))
      (* known finding 2030-float-carry *)
      kn == IF s.kf /\ ~s.fl /\ b[1] \in 32..63 /\ s.ia % 256 = 0
            THEN {[s |-> [s EXCEPT !.ia = (@ + 65536 - 256) % 65536], x |-> 1]} ELSE {}
        odd == b[1] \in 64..191 /\ (a1 % 8 # 0 \/ b[1] \in 96..127)
      no == \E o \in x : o.x \in {1, 2}
  IN kn \cup x \cup (IF far /\ no THEN OutX(s, 5) ELSE {}) \cup (IF odd /\ no THEN OutX(s, 6) ELSE {})

IlcOf(op) == IF op < 64 THEN 1 ELSE IF op < 192 THEN 2 ELSE 3
(* the instruction can not be fetched: how far the instruction address and the
   length code have advanced is not defined                                  *)
NoFetch(s, xs) == {[s |-> [s EXCEPT !.ulc = TRUE, !.ia = (@ - odd + 2 * n) % w], x |-> x] :
                     n \in 0..3, x \in xs, w \in {M24, s.wrap}, odd \in {0, s.ia % 2}}
(* one instruction *)
Exec(s) ==
  LET op == Mem(s, s.ia)
      n == IlcOf(op)
      no == (IF s.ia % 2 = 1 THEN {6} ELSE {})
            \cup (IF s.ia + 2 > s.size \/ s.ia + 2 * n > s.size THEN {5} ELSE {})
  IN
  IF no # {} THEN NoFetch(s, no)
  ELSE LET b == MemN(s, s.ia, 6)
           t == [s EXCEPT !.ia = (s.ia + 2 * n) % M24, !.ilc = n]
       IN IF op # 68 THEN ExecOp(t, b)
          ELSE LET a == EA(t, b[2] % 16, b[3] \div 16, (b[3] % 16) * 256 + b[4])
                   sb == MemN(s, a, 6)
                   r1 == b[2] \div 16
                   mb == IF r1 = 0 THEN sb ELSE [sb EXCEPT ![2] = @ | s.r[r1][4]]
                   bad == (IF a % 2 = 1 THEN {6} ELSE {})
                          \cup (IF a + 2 > s.size \/ a + 2 * IlcOf(sb[1]) > s.size THEN {5} ELSE {})
               IN IF bad # {} THEN Excs(t, bad)
                  ELSE IF sb[1] = 68 THEN OutX(t, 3)
                  ELSE ExecOp(t, mb)

----------------------------------------------------------------------------
(* Interruptions: the PSW is stored and another one loaded *)
OldPsw(s, code) == <<s.mask, s.key * 16 + s.amwp, code \div 256, code % 256, s.ilc * 64 + s.cc * 16 + s.pm,
                     s.ia \div 65536, (s.ia \div 256) % 256, s.ia % 256>>
Swap(s, old, code) == LET t == Put(s, old, OldPsw(s, code)) IN LoadPsw(t, MemN(t, old + 64, 8))
Interrupt(s, x) ==
  IF x = 0 THEN s
  ELSE LET t == IF x >= 256 THEN Swap(s, 32, x - 256) ELSE Swap(s, 40, x)
       IN [t EXCEPT !.ucc = FALSE, !.ulc = FALSE,
                    !.uc = IF s.ucc THEN @ \cup {44} ELSE @ \ {44},
                    !.ul = IF s.ulc THEN @ \cup {44} ELSE @ \ {44}]
(* an external interruption; it does not touch what is not predictable in the
   old program PSW, but may itself store an unpredictable condition code      *)
Extern(s, code) == LET t == Swap(s, 24, code)
                   IN [t EXCEPT !.ucc = FALSE, !.ulc = FALSE,
                                !.uc = IF s.ucc THEN @ \cup {28} ELSE @ \ {28}, !.ul = @ \cup {28}]
Next1(s) == {Interrupt(o.s, o.x) : o \in Exec(s)}
Waiting(s) == (s.amwp \div 2) % 2 = 1

----------------------------------------------------------------------------
(* Is an observed machine state possible for s?  mm: observed storage function *)
SameByte(s, a, v) ==
  \/ a \in s.um
  \/ v = Mem(s, a)
  \/ a \in s.uc /\ v \div 64 = Mem(s, a) \div 64 /\ v % 16 = Mem(s, a) % 16
  \/ a \in s.ul /\ v % 64 = Mem(s, a) % 64
=============================================================================
