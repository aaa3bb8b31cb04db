------------------------------ MODULE Decimal ------------------------------
(* Packed decimal numbers: byte strings of digits with the sign in the last
   four bits. A value is [d: digits (most significant first), neg].         *)
EXTENDS Words

ValidDec(b) == LET x == Hex(b) IN (\A i \in 1..(Len(x) - 1) : x[i] <= 9) /\ x[Len(x)] >= 10
DecDigits(b) == LET x == Hex(b) IN [i \in 1..(Len(x) - 1) |-> x[i]]
DecNeg(b) == b[Len(b)] % 16 \in {11, 13}
SignNib(neg, ascii) == IF ascii THEN (IF neg THEN 11 ELSE 10) ELSE (IF neg THEN 13 ELSE 12)
Zeros(n) == [i \in 1..n |-> 0]
(* exactly n digits: on the left, zeros are added or digits dropped *)
Fit(d, n) == [i \in 1..n |-> IF i + Len(d) - n >= 1 THEN d[i + Len(d) - n] ELSE 0]
Lost(d, n) == \E i \in 1..(Len(d) - n) : d[i] # 0
AllZero(d) == \A i \in 1..Len(d) : d[i] = 0
PackDec(d, neg, ascii, len) == FromHex(Append(Fit(d, 2 * len - 1), SignNib(neg, ascii)))

RECURSIVE DAddAt(_, _, _, _, _), DSubAt(_, _, _, _, _), DCmpAt(_, _, _)
DAddAt(a, b, i, c, acc) == IF i = 0 THEN acc
   ELSE LET t == a[i] + b[i] + c IN DAddAt(a, b, i - 1, t \div 10, <<t % 10>> \o acc)
DSubAt(a, b, i, c, acc) == IF i = 0 THEN acc          \* a >= b
   ELSE LET t == a[i] - b[i] - c IN DSubAt(a, b, i - 1, IF t < 0 THEN 1 ELSE 0, <<IF t < 0 THEN t + 10 ELSE t>> \o acc)
DCmpAt(a, b, i) == IF i > Len(a) THEN 0 ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE DCmpAt(a, b, i + 1)
DCmp(a, b) == DCmpAt(a, b, 1)            \* of the same length
(* the sum of two signed values, of width n + 1 digits *)
DecSum(a, an, b, bn, n) ==
  LET x == Fit(a, n + 1) y == Fit(b, n + 1) IN
  IF an = bn THEN [d |-> DAddAt(x, y, n + 1, 0, <<>>), neg |-> an]
  ELSE IF DCmp(x, y) >= 0 THEN [d |-> DSubAt(x, y, n + 1, 0, <<>>), neg |-> an]
  ELSE [d |-> DSubAt(y, x, n + 1, 0, <<>>), neg |-> bn]
(* product of digit strings, of Len(a)+Len(b) digits *)
RECURSIVE DMulCol(_, _, _, _, _), DMulAt(_, _, _, _, _)
DMulCol(a, b, k, i, acc) == IF i > Len(a) THEN acc
   ELSE DMulCol(a, b, k, i + 1, IF k - i >= 1 /\ k - i <= Len(b) THEN acc + (a[i] * b[k - i]) ELSE acc)
DMulAt(a, b, k, c, acc) == IF k = 1 THEN <<c>> \o acc
   ELSE LET t == DMulCol(a, b, k, 1, 0) + c IN DMulAt(a, b, k - 1, t \div 10, <<t % 10>> \o acc)
DMul(a, b) == DMulAt(a, b, Len(a) + Len(b), 0, <<>>)
(* long division: one quotient digit per digit of the dividend *)
RECURSIVE DDigit(_, _, _), DDivAt(_, _, _, _, _)
DDigit(rem, d, q) == IF DCmp(rem, d) >= 0 THEN DDigit(DSubAt(rem, d, Len(rem), 0, <<>>), d, q + 1) ELSE <<q, rem>>
DDivAt(n, d, i, rem, q) == IF i > Len(n) THEN <<q, rem>>
   ELSE LET x == DDigit(Append(SubSeq(rem, 2, Len(rem)), n[i]), d, 0)
        IN DDivAt(n, d, i + 1, x[2], Append(q, x[1]))
DDiv(n, d) == DDivAt(n, <<0>> \o d, 1, Zeros(Len(d) + 1), <<>>)      \* <<quotient, remainder>>

(* binary to decimal: repeated division of a word by ten *)
RECURSIVE DivTenAt(_, _, _, _), ToDigits(_, _, _)
DivTenAt(w, i, rem, acc) == IF i > Len(w) THEN <<acc, rem>>
   ELSE LET t == rem * 256 + w[i] IN DivTenAt(w, i + 1, t % 10, Append(acc, t \div 10))
ToDigits(w, n, acc) == IF n = 0 THEN acc
   ELSE LET x == DivTenAt(w, 1, 0, <<>>) IN ToDigits(x[1], n - 1, <<x[2]>> \o acc)
ToDecimal(w, ascii) == PackDec(ToDigits(Abs4(w), 10, <<>>), Neg(w), ascii, 8)

(* decimal to binary: 8 byte value, low word with the sign, and whether it is too big *)
RECURSIVE TimesTenAt(_, _, _, _), FromDigits(_, _, _)
TimesTenAt(w, i, c, acc) == IF i = 0 THEN acc
   ELSE LET t == w[i] * 10 + c IN TimesTenAt(w, i - 1, t \div 256, <<t % 256>> \o acc)
FromDigits(d, i, w) == IF i > Len(d) THEN w ELSE FromDigits(d, i + 1, TimesTenAt(w, 8, d[i], <<>>))
FromDecimal(b) ==
  LET m == FromDigits(DecDigits(b), 1, Zero8)
      neg == DecNeg(b)
      lo == Lo4(m)
  IN [w |-> IF neg THEN Neg4(lo) ELSE lo,
      big |-> ~IsZero(Hi4(m)) \/ (Neg(lo) /\ ~(neg /\ lo = <<128, 0, 0, 0>>))]
=============================================================================
