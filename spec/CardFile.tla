------------------------------ MODULE CardFile ------------------------------
(* The files card decks are kept in, after the description in
   src/device/card.h: how the bytes of a file stand for cards, in each mode. *)
EXTENDS CardCode, TLC
AUTO == 0  TEXT == 1  EBCDIC == 2  BIN == 3  OCTAL == 4
VARIABLES mode, cards, file
vars == <<mode, cards, file>>

Blank == [i \in 1..80 |-> 0]
Card1(c) == [i \in 1..80 |-> IF i = 1 THEN c ELSE 0]
BAD == <<-1>>
NL == 10  CR == 13  TAB == 9  TILDE == 126
Lower(c) == IF c \in 65..90 THEN c + 32 ELSE c
Kw(s, w) == Len(s) >= 4 /\ s[1] = TILDE /\ \A i \in 1..3 : Lower(s[i + 1]) = w[i]
Raw == <<114, 97, 119>>  Eor == <<101, 111, 114>>  Eof == <<101, 111, 102>>  Eoi == <<101, 111, 105>>
\* Octal digits at the start of s, four to a column.
RECURSIVE Digits(_, _)
Digits(s, i) == IF i > Len(s) \/ i > 320 THEN i - 1 ELSE IF s[i] \notin 48..55 THEN i - 1 ELSE Digits(s, i + 1)
OctCard(s) == LET n == Digits(s, 1) \div 4
              IN [i \in 1..80 |-> IF i > n THEN 0 ELSE
                    512 * (s[4*i-3] - 48) + 64 * (s[4*i-2] - 48) + 8 * (s[4*i-1] - 48) + s[4*i] - 48]
\* Characters of a line placed in columns; tabs move to the next multiple of 8.
RECURSIVE Columns(_, _, _)
Columns(s, i, acc) ==
  IF i > Len(s) \/ Len(acc) >= 80 THEN acc
  ELSE IF s[i] \in {0, CR} THEN Columns(s, i + 1, acc)
  ELSE IF s[i] = TAB THEN Columns(s, i + 1, acc \o [k \in 1..(8 - (Len(acc) % 8)) |-> 0])
  ELSE Columns(s, i + 1, Append(acc, AscHol(s[i])))
TextCard(s) == LET c == Columns(s, 1, <<>>) IN [i \in 1..80 |-> IF i <= Len(c) THEN c[i] ELSE 0]
OnlyTilde(s) == s # <<>> /\ s[1] = TILDE /\ \A i \in 2..Len(s) : s[i] \in {32, TAB, CR}
LineCard(s) == IF OnlyTilde(s) THEN Blank
               ELSE IF Kw(s, Raw) THEN OctCard(SubSeq(s, 5, Len(s)))
               ELSE IF Kw(s, Eor) THEN Card1(7) ELSE IF Kw(s, Eof) THEN Card1(13)
               ELSE IF Kw(s, Eoi) THEN Card1(15)
               ELSE TextCard(s)
\* The end of the line that starts at i: position of its newline, or one past the file.
RECURSIVE LineEnd(_, _)
LineEnd(b, i) == IF i > Len(b) \/ b[i] = NL THEN i ELSE LineEnd(b, i + 1)
BinCard(b, i) == [k \in 1..80 |-> b[i + 2*k - 2] \div 16 + 16 * b[i + 2*k - 1]]
BinOK(b, i) == i + 159 <= Len(b) /\ \A k \in 1..80 : b[i + 2*k - 2] % 16 = 0
\* In automatic mode 160 bytes that look like a binary card are one, unless
\* they are lines of text.
TextLike(b, i) == /\ \A k \in i..(i + 159) : b[k] \in (32..126) \cup {NL, CR, TAB}
                  /\ \E k \in i..(i + 159) : b[k] = NL
RECURSIVE Decode(_, _, _)
Decode(m, b, i) ==
  IF i > Len(b) THEN <<>>
  ELSE IF m = BIN \/ (m = AUTO /\ BinOK(b, i) /\ ~TextLike(b, i))
       THEN IF BinOK(b, i) THEN <<BinCard(b, i)>> \o Decode(m, b, i + 160) ELSE << BAD >>
  ELSE IF m = EBCDIC
       THEN IF i + 79 > Len(b) THEN << BAD >>
            ELSE << [k \in 1..80 |-> EbcCode(b[i + k - 1])] >> \o Decode(m, b, i + 80)
  ELSE LET e == LineEnd(b, i) IN <<LineCard(SubSeq(b, i, e - 1))>> \o Decode(m, b, e + 1)

\* Can the mode represent the card?
Lit(card, w) == \E x \in w : card[1] = AscHol(x)
Rep(m, card) ==
  CASE m \in {AUTO, BIN, OCTAL} -> TRUE
    [] m = EBCDIC -> \A i \in 1..80 : card[i] \in HolCodes
    [] m = TEXT -> (\A i \in 1..80 : card[i] \in AscCodes) /\ card[1] # AscHol(TILDE)

Init == mode = AUTO /\ cards = <<>> /\ file = <<>>
SetMode(m) == mode' = m /\ UNCHANGED <<cards, file>>
\* Put a deck in: the cards stacked so far are replaced.
Deck(cs) == cards' = cs /\ UNCHANGED <<mode, file>>
\* Someone writes a file.
Write(b) == file' = b /\ UNCHANGED <<mode, cards>>
\* Saving writes a file that decodes to the deck.
Save(b, ret) ==
  /\ ret = 0
  /\ (\A i \in 1..Len(cards) : Rep(mode, cards[i])) => Decode(mode, b, 1) = cards
  /\ file' = b /\ UNCHANGED <<mode, cards>>
\* Loading gives the cards the file stands for ("bad" parts are not promised).
Load(cs, ret) ==
  /\ ret = 1
  /\ LET d == Decode(mode, file, 1)
     IN IF d # <<>> /\ d[Len(d)] = BAD
        THEN Len(cs) >= Len(d) - 1 /\ SubSeq(cs, 1, Len(d) - 1) = SubSeq(d, 1, Len(d) - 1)
        ELSE cs = d
  /\ cards' = cs /\ UNCHANGED <<mode, file>>
=============================================================================
