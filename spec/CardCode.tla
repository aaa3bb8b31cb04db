----------------------------- MODULE CardCode ------------------------------
(* Punched card codes. A column is a number of 12 bits: rows 12, 11, 0, 1 .. 9
   from the high to the low end.                                            *)
EXTENDS Integers, Sequences
T == 2048  E == 1024  Z == 512
Row(d) == <<512, 256, 128, 64, 32, 16, 8, 4, 2, 1>>[d + 1]
R89 == 3  \* rows 8 and 9

\* The EBCDIC card code by construction from zone and digit punches.
EbcHol(b) ==
  LET h == b \div 16  lo == b % 16
      z1 == <<T, E, Z, 0>>[(h % 4) + 1]                \* one zone
      z2 == <<T + Z, T + E, E + Z, T + E + Z>>[(h % 4) + 1]  \* combined zones
  IN CASE b = 97 -> Z + Row(1)            \* the exceptions: / | and 11-0-9-1
       [] b = 106 -> T + E
       [] b = 225 -> E + Z + Row(1) + Row(9)
       [] h < 4 /\ lo = 0 -> <<T + Z, T + E, E + Z, T + E + Z>>[h + 1] + Row(1) + R89
       [] h < 4 /\ lo \in 1..7 -> z1 + Row(9) + Row(lo)
       [] h < 4 /\ lo = 8 -> z1 + R89
       [] h < 4 /\ lo > 8 -> z1 + R89 + Row(lo - 8)
       [] h \in 4..7 /\ lo = 0 -> <<0, T, E, T + E + Z>>[h - 3]
       [] h \in 4..7 /\ lo \in 1..7 -> z2 + Row(9) + Row(lo)
       [] h \in 4..7 /\ lo = 8 -> z2 + R89
       [] h \in 4..7 /\ lo > 8 -> z1 + Row(8) + Row(lo - 8)
       [] h \in 8..11 /\ lo = 0 -> z2 + Row(8) + Row(1)
       [] h \in 8..11 /\ lo \in 1..9 -> z2 + Row(lo)
       [] h \in 8..11 /\ lo > 9 -> z2 + Row(8) + Row(lo - 8)
       [] h > 11 /\ lo = 0 -> <<T + Z, E + Z, Z + Row(2) + Row(8), Z>>[h - 11]
       [] h > 11 /\ lo \in 1..9 -> z1 + Row(lo)
       [] h > 11 /\ lo > 9 -> z2 + R89 + Row(lo - 8)
\* (concatenation makes TLC build the table once)
EbcSeq == [b \in 1..256 |-> EbcHol(b - 1)] \o <<>>
EbcCode(b) == EbcSeq[b + 1]
HolCodes == {EbcSeq[b] : b \in 1..256}
EbcOf(c) == CHOOSE b \in 0..255 : EbcCode(b) = c

\* The 029 key punch code of characters 32 .. 126 (text decks).
AscTable == <<0, 1154, 6, 66, 1090, 546, 2048, 18, 2066, 1042, 1058, 2058, 578, 1024, 2114, 768,
  512, 256, 128, 64, 32, 16, 8, 4, 2, 1, 130, 1034, 2082, 10, 522, 518,
  34, 2304, 2176, 2112, 2080, 2064, 2056, 2052, 2050, 2049, 1280, 1152, 1088, 1056, 1040, 1032,
  1028, 1026, 1025, 640, 576, 544, 528, 520, 516, 514, 513, 3714, 642, 3650, 1030, 530,
  258, 2816, 2688, 2624, 2592, 2576, 2568, 2564, 2562, 2561, 3328, 3200, 3136, 3104, 3088, 3080,
  3076, 3074, 3073, 1664, 1600, 1568, 1552, 1544, 1540, 1538, 1537, 1030, 2054, 2053, 3842>>
AscHol(ch) == IF ch < 32 \/ ch > 126 THEN 4095 ELSE AscTable[ch - 31]
AscCodes == {AscTable[i] : i \in 1..95}
=============================================================================
