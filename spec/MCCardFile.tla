----------------------------- MODULE MCCardFile -----------------------------
(* The formats themselves: every deck of a small family, encoded as the
   description says, decodes to itself; the codes are injective.           *)
EXTENDS CardFile, FiniteSets
CONSTANTS Cols, MaxCards
VARIABLES done
Dig(n) == << (n \div 512) + 48, ((n \div 64) % 8) + 48, ((n \div 8) % 8) + 48, (n % 8) + 48 >>
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Cat(Tail(s))
IsText(c) == (\A i \in 1..80 : c[i] \in AscCodes) /\ c[1] # AscHol(TILDE)
AscOf(c) == CHOOSE x \in 32..126 : AscHol(x) = c
TextLine(c) == [i \in 1..80 |-> AscOf(c[i])] \o <<NL>>
OctLine(c) == <<TILDE>> \o Raw \o Cat([i \in 1..80 |-> Dig(c[i])]) \o <<NL>>
Enc(m, c) == CASE m = AUTO -> (IF IsText(c) THEN TextLine(c) ELSE OctLine(c))
               [] m = TEXT -> TextLine(c) [] m = OCTAL -> OctLine(c)
               [] m = EBCDIC -> [i \in 1..80 |-> EbcOf(c[i])]
               [] m = BIN -> Cat([i \in 1..80 |-> <<(c[i] % 16) * 16, c[i] \div 16>>])
Family == {[i \in 1..80 |-> IF i = 1 THEN a ELSE IF i = 2 THEN b ELSE IF i = 80 THEN z ELSE 0] : a \in Cols, b \in {0, 256}, z \in Cols}
MCInit == Init /\ done = FALSE
MCNext == \/ ~done /\ Len(cards) < MaxCards /\ \E c \in Family : Deck(Append(cards, c)) /\ UNCHANGED done
          \/ ~done /\ cards # <<>> /\ \E m \in 0..4 : SetMode(m) /\ done' = TRUE
MCSpec == MCInit /\ [][MCNext]_<<vars, done>>
RoundTrip == done /\ (\A i \in 1..Len(cards) : Rep(mode, cards[i]))
             => Decode(mode, Cat([i \in 1..Len(cards) |-> Enc(mode, cards[i])]), 1) = cards
CodesDistinct == Cardinality(HolCodes) = 256
=============================================================================
