------------------------------- MODULE Words -------------------------------
(* Arithmetic on byte strings (big endian tuples of 0..255), as the System/360
   registers and storage hold them. TLC integers are 32 bits wide, so words
   are never numbers here, except addresses (24 bits) and halfwords.        *)
EXTENDS Integers, Sequences, Bitwise

Zero4 == <<0, 0, 0, 0>>
Zero8 == <<0, 0, 0, 0, 0, 0, 0, 0>>
W4(a, b, c, d) == <<a, b, c, d>>
Neg(w) == w[1] >= 128                     \* the sign bit
IsZero(w) == \A i \in 1..Len(w) : w[i] = 0
Compl(w) == [i \in 1..Len(w) |-> 255 - w[i]]
Hi4(w) == <<w[1], w[2], w[3], w[4]>>
Lo4(w) == <<w[5], w[6], w[7], w[8]>>
Rev(w) == [i \in 1..Len(w) |-> w[Len(w) + 1 - i]]

(* a + b + c on words: sum, carry out, signed overflow *)
Add4(a, b, c) ==
  LET d4 == a[4] + b[4] + c
      d3 == a[3] + b[3] + (d4 \div 256)
      d2 == a[2] + b[2] + (d3 \div 256)
      d1 == a[1] + b[1] + (d2 \div 256)
      s  == <<d1 % 256, d2 % 256, d3 % 256, d4 % 256>>
  IN [s |-> s, c |-> d1 \div 256,
      v |-> (Neg(a) = Neg(b)) /\ (Neg(s) # Neg(a))]
Sub4(a, b) == Add4(a, Compl(b), 1)
Neg4(a) == Add4(Compl(a), Zero4, 1).s
Abs4(a) == IF Neg(a) THEN Neg4(a) ELSE a
Add8(a, b, c) ==
  LET lo == Add4(Lo4(a), Lo4(b), c)
      hi == Add4(Hi4(a), Hi4(b), lo.c)
  IN [s |-> hi.s \o lo.s, c |-> hi.c, v |-> hi.v]
Neg8(a) == Add8(Compl(a), Zero8, 1).s
Abs8(a) == IF Neg(a) THEN Neg8(a) ELSE a

(* comparisons: -1, 0, 1 *)
RECURSIVE LogCmpFrom(_, _, _)
LogCmpFrom(a, b, i) == IF i > Len(a) THEN 0
                       ELSE IF a[i] < b[i] THEN -1
                       ELSE IF a[i] > b[i] THEN 1 ELSE LogCmpFrom(a, b, i + 1)
LogCmp(a, b) == LogCmpFrom(a, b, 1)
ArithCmp(a, b) == IF Neg(a) # Neg(b) THEN (IF Neg(a) THEN -1 ELSE 1) ELSE LogCmp(a, b)

AndB(a, b) == [i \in 1..Len(a) |-> a[i] & b[i]]
OrB(a, b)  == [i \in 1..Len(a) |-> a[i] | b[i]]
XorB(a, b) == [i \in 1..Len(a) |-> a[i] ^^ b[i]]

(* numbers that fit *)
Nat24(w) == w[2] * 65536 + w[3] * 256 + w[4]             \* low 24 bits of a word
FromNat24(n) == <<0, n \div 65536, (n \div 256) % 256, n % 256>>
FromNat16(n) == <<0, 0, n \div 256, n % 256>>
SignExt2(h) == IF h[1] >= 128 THEN <<255, 255>> \o h ELSE <<0, 0>> \o h

(* bits, most significant first *)
Pow2 == <<128, 64, 32, 16, 8, 4, 2, 1>> \o <<>>
Bit(w, i) == (w[((i - 1) \div 8) + 1] \div Pow2[((i - 1) % 8) + 1]) % 2      \* i from 1
Bits(w) == [i \in 1..(8 * Len(w)) |-> Bit(w, i)]
FromBits(b) == [k \in 1..(Len(b) \div 8) |->
   128 * b[8*k-7] + 64 * b[8*k-6] + 32 * b[8*k-5] + 16 * b[8*k-4] + 8 * b[8*k-3] + 4 * b[8*k-2] + 2 * b[8*k-1] + b[8*k]]
ShiftR(w, n, fill) == LET b == Bits(w) IN
   FromBits([i \in 1..Len(b) |-> IF i - n >= 1 THEN b[i - n] ELSE fill])
ShiftL(w, n) == LET b == Bits(w) IN
   FromBits([i \in 1..Len(b) |-> IF i + n <= Len(b) THEN b[i + n] ELSE 0])
(* arithmetic left: the sign stays, overflow if a bit unlike the sign leaves position 1 *)
ShiftLA(w, n) == LET b == Bits(w)  IN
   [s |-> FromBits([i \in 1..Len(b) |-> IF i = 1 THEN b[1] ELSE IF i + n <= Len(b) THEN b[i + n] ELSE 0]),
    v |-> \E i \in 2..(IF n + 1 < Len(b) THEN n + 1 ELSE Len(b)) : b[i] # b[1]
          \/ (n + 1 > Len(b) /\ b[1] = 1)]

(* magnitude product of two words: 8 bytes *)
Mul4(a, b) ==
  LET col(k) == LET S(i) == IF k - i >= 1 /\ k - i <= 4 THEN a[i] * b[k - i] ELSE 0
                IN S(1) + S(2) + S(3) + S(4)            \* weight 256^(8-k)
      c8 == col(8)
      c7 == col(7) + (c8 \div 256)
      c6 == col(6) + (c7 \div 256)
      c5 == col(5) + (c6 \div 256)
      c4 == col(4) + (c5 \div 256)
      c3 == col(3) + (c4 \div 256)
      c2 == col(2) + (c3 \div 256)
  IN <<c2 \div 256, c2 % 256, c3 % 256, c4 % 256, c5 % 256, c6 % 256, c7 % 256, c8 % 256>>
SMul4(a, b) == LET m == Mul4(Abs4(a), Abs4(b))
               IN IF Neg(a) # Neg(b) THEN Neg8(m) ELSE m

(* magnitude division of 8 bytes by 4: quotient 8 bytes, remainder 4 bytes.
   The partial remainder is kept as <<high, low 16 bits>>.                  *)
RECURSIVE DivBits(_, _, _, _, _, _)
DivBits(nb, i, rh, rl, d, q) ==
  IF i > 64 THEN <<FromBits(q), <<rh \div 256, rh % 256, rl \div 256, rl % 256>>>>
  ELSE LET l2 == 2 * rl + nb[i]
           h2 == 2 * rh + (l2 \div 65536)
           lo == l2 % 65536
           ge == h2 > d[1] \/ (h2 = d[1] /\ lo >= d[2])
       IN IF ge THEN DivBits(nb, i + 1, h2 - d[1] - (IF lo < d[2] THEN 1 ELSE 0),
                             IF lo < d[2] THEN lo + 65536 - d[2] ELSE lo - d[2], d, Append(q, 1))
          ELSE DivBits(nb, i + 1, h2, lo, d, Append(q, 0))
Div8(n, d) == DivBits(Bits(n), 1, 0, 0, <<d[1] * 256 + d[2], d[3] * 256 + d[4]>>, <<>>)

Hex(w) == [i \in 1..(2 * Len(w)) |-> IF i % 2 = 1 THEN w[(i + 1) \div 2] \div 16 ELSE w[i \div 2] % 16]
FromHex(x) == [k \in 1..(Len(x) \div 2) |-> 16 * x[2 * k - 1] + x[2 * k]]
=============================================================================
