------------------------------- MODULE Float -------------------------------
(* Hexadecimal floating point: a number is its sign, its characteristic (the
   exponent plus 64) and its fraction, a string of hexadecimal digits: six in
   the short format, fourteen in the long one.                              *)
EXTENDS Words, TLC

FNum(b) == LET x == Hex(b) IN
           [neg |-> b[1] >= 128, ch |-> b[1] % 128, d |-> TLCEval([i \in 1..(Len(x) - 2) |-> x[i + 2]])]
FPack(v) == <<(IF v.neg THEN 128 ELSE 0) + v.ch>> \o FromHex(v.d)
FZero(d) == \A i \in 1..Len(d) : d[i] = 0
HZeros(n) == [i \in 1..n |-> 0]
FTrue0(n) == [neg |-> FALSE, ch |-> 0, d |-> HZeros(n)]

RECURSIVE HAddAt(_, _, _, _, _), HSubAt(_, _, _, _, _), HCmpAt(_, _, _)
HAddAt(a, b, i, c, acc) == IF i = 0 THEN [c |-> c, d |-> acc]
   ELSE LET t == a[i] + b[i] + c IN HAddAt(a, b, i - 1, t \div 16, <<t % 16>> \o acc)
HSubAt(a, b, i, c, acc) == IF i = 0 THEN acc          \* a >= b
   ELSE LET t == a[i] - b[i] - c IN HSubAt(a, b, i - 1, IF t < 0 THEN 1 ELSE 0, <<IF t < 0 THEN t + 16 ELSE t>> \o acc)
HCmpAt(a, b, i) == IF i > Len(a) THEN 0 ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE HCmpAt(a, b, i + 1)
HCmp(a, b) == HCmpAt(a, b, 1)
HLess(a, b) == HCmp(a, b) < 0
HSub(a, b) == HSubAt(a, b, Len(a), 0, <<>>)

HShr(d, n) == TLCEval([i \in 1..Len(d) |-> IF i - n >= 1 THEN d[i - n] ELSE 0])
HShl(d, n) == TLCEval([i \in 1..Len(d) |-> IF i + n <= Len(d) THEN d[i + n] ELSE 0])
RECURSIVE HLead(_, _)
HLead(d, i) == IF i > Len(d) \/ d[i] # 0 THEN i - 1 ELSE HLead(d, i + 1)
Lead(d) == HLead(d, 1)               \* leading zero digits
FNormal(v) == IF FZero(v.d) THEN v ELSE LET n == Lead(v.d) IN [v EXCEPT !.d = HShl(v.d, n), !.ch = @ - n]

(* Sum of a and b (b's sign given), with g guard digits kept in the
   alignment; the characteristic may be out of range                        *)
FSum(a, b, bneg, g) ==
  LET n == Len(a.d)
      ch == IF a.ch >= b.ch THEN a.ch ELSE b.ch
      x == HShr(a.d \o HZeros(g), ch - a.ch)
      y == HShr(b.d \o HZeros(g), ch - b.ch)
      s == HAddAt(x, y, n + g, 0, <<>>)
  IN IF a.neg = bneg
     THEN IF s.c = 1 THEN [neg |-> a.neg, ch |-> ch + 1, d |-> HShr(s.d, 1) , c |-> TRUE]
          ELSE [neg |-> a.neg, ch |-> ch, d |-> s.d, c |-> FALSE]
     ELSE IF HCmp(x, y) >= 0 THEN [neg |-> a.neg, ch |-> ch, d |-> HSub(x, y), c |-> FALSE]
     ELSE [neg |-> bneg, ch |-> ch, d |-> HSub(y, x), c |-> FALSE]
(* the carry of an addition is the leading digit after the shift *)
FCarry(v) == IF v.c THEN [v EXCEPT !.d = [@ EXCEPT ![1] = 1]] ELSE v
Cut(v, n) == [neg |-> v.neg, ch |-> v.ch, d |-> SubSeq(v.d, 1, n)]

(* product of digit strings: Len(a)+Len(b) digits *)
RECURSIVE HMulCol(_, _, _, _, _), HMulAt(_, _, _, _, _)
HMulCol(a, b, k, i, acc) == IF i > Len(a) THEN acc
   ELSE HMulCol(a, b, k, i + 1, IF k - i >= 1 /\ k - i <= Len(b) THEN acc + (a[i] * b[k - i]) ELSE acc)
HMulAt(a, b, k, c, acc) == IF k = 1 THEN <<c>> \o acc
   ELSE LET t == HMulCol(a, b, k, 1, 0) + c IN HMulAt(a, b, k - 1, t \div 16, <<t % 16>> \o acc)
HMul(a, b) == HMulAt(a, b, Len(a) + Len(b), 0, <<>>)
(* quotient digits of the fraction a divided by b: the first may be nonzero
   only if a >= b                                                           *)
RECURSIVE HDigit(_, _, _), HDivAt(_, _, _, _)
HDigit(rem, d, q) == IF HCmp(rem, d) >= 0 THEN HDigit(HSub(rem, d), d, q + 1) ELSE <<q, rem>>
HDivAt(rem, d, n, q) == IF n = 0 THEN q
   ELSE LET x == HDigit(rem, d, 0) IN HDivAt(HShl(x[2], 1), d, n - 1, Append(q, x[1]))
HDiv(a, b, n) == HDivAt(<<0>> \o a, <<0>> \o b, n, <<>>)      \* units digit, then n-1 fraction digits
HHalf(d) == TLCEval([i \in 1..Len(d) |-> (IF i > 1 THEN (d[i - 1] % 2) * 8 ELSE 0) + d[i] \div 2])
=============================================================================
