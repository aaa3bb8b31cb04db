------------------------------ MODULE Config ------------------------------
(* What a configuration line says. Texts are sequences of character codes.   *)
(*   line    = [name [-number] [/number]  [address]  {option}] [# comment]   *)
(*   option  = word [= value], separated by blanks or commas                 *)
(*   value   = letters and digits (taken as upper case), or "any text" where *)
(*             "" stands for one quote                                       *)
EXTENDS Integers, Sequences, FiniteSets

Space == 9..13 \cup {32}
Digit == 48..57
Upper == 65..90
Lower == 97..122
Alpha == Upper \cup Lower
Alnum == Digit \cup Alpha
HexCh == Digit \cup 65..70 \cup 97..102
Hash == 35
Comma == 44
Dash == 45
Slash == 47
Equal == 61
Quote == 34

Up(c) == IF c \in Lower THEN c - 32 ELSE c
UpAll(s) == [i \in 1..Len(s) |-> Up(s[i])] \o <<>>
At(s, i) == IF i >= 1 /\ i <= Len(s) THEN s[i] ELSE 0
\* first place from i on whose character is not in S (Len + 1 when none)
RECURSIVE Past(_, _, _)
Past(s, i, S) == IF i > Len(s) THEN Len(s) + 1 ELSE IF s[i] \in S THEN Past(s, i + 1, S) ELSE i
Sub(s, i, j) == IF j < i THEN <<>> ELSE SubSeq(s, i, j)
AtEnd(s, i) == At(s, i) \in {0, Hash, 10}
Cut(s, n) == IF Len(s) > n THEN SubSeq(s, 1, n) ELSE s
Count(s, c) == Cardinality({i \in 1..Len(s) : s[i] = c})
Index(s, C) == LET m == {i \in 1..Len(s) : s[i] \in C} IN
               IF m = {} THEN 0 ELSE CHOOSE i \in m : \A j \in m : i <= j
RECURSIVE DecVal(_, _, _)
DecVal(s, i, v) == IF i > Len(s) \/ At(s, i) \notin Digit THEN v ELSE DecVal(s, i + 1, v * 10 + s[i] - 48)
HexDig(c) == IF c \in Digit THEN c - 48 ELSE Up(c) - 55
\* capped, so that it can not overflow
RECURSIVE HexVal(_, _, _)
HexVal(s, i, v) == IF i > Len(s) THEN v
                   ELSE HexVal(s, i + 1, IF v > 65535 THEN v ELSE v * 16 + HexDig(s[i]))
MaxName == 19

(* --- the first word ------------------------------------------------------ *)
\* the part of w behind the mark c, up to the next mark
Behind(w, c) == LET i == Index(w, {c}) IN
                LET r == SubSeq(w, i + 1, Len(w)) IN
                LET j == Index(r, {Dash, Slash}) IN IF j = 0 THEN r ELSE SubSeq(r, 1, j - 1)
Front(w) == LET i == Index(w, {Dash, Slash}) IN IF i = 0 THEN w ELSE SubSeq(w, 1, i - 1)
NumberOf(w, c) == IF Count(w, c) = 0 THEN -1 ELSE DecVal(Behind(w, c), 1, 0)

NoWord == [ok |-> FALSE, name |-> <<>>, model |-> 0, dash |-> -1, slash |-> -1, flags |-> 0, next |-> 0]
FirstWord(s) ==
  LET i == Past(s, 1, Space) IN
  LET j == Past(s, i, Alnum \cup {Dash, Slash}) IN
  LET w == Sub(s, i, j - 1) IN
  LET f == Cut(UpAll(Front(w)), MaxName) IN
  LET k == Past(f, 1, Digit) IN
  LET lettered == At(f, 1) \in Digit /\ k = Len(f) /\ At(f, k) \in Alpha IN
  IF AtEnd(s, i) \/ Count(w, Dash) > 1 \/ Count(w, Slash) > 1 THEN NoWord
  ELSE [ok |-> TRUE,
        name |-> IF lettered THEN SubSeq(f, 1, k - 1) ELSE f,
        model |-> IF lettered THEN f[k] ELSE 0,
        dash |-> NumberOf(w, Dash), slash |-> NumberOf(w, Slash),
        flags |-> (IF Count(w, Dash) = 1 THEN 1 ELSE 0) + (IF Count(w, Slash) = 1 THEN 2 ELSE 0),
        next |-> j]
\* numbers of more than nine digits are outside of what is promised
LongNumber(s) == \E i \in 1..Len(s) : i + 9 <= Len(s) /\ \A j \in i..(i + 9) : s[j] \in Digit

(* --- the address ---------------------------------------------------------- *)
Address(s, p) == LET i == Past(s, p, Space) IN LET j == Past(s, i, HexCh) IN
                 LET v == HexVal(Sub(s, i, j - 1), 1, 0) IN
                 IF j = i \/ v > 65535 THEN [ok |-> FALSE, val |-> 0, next |-> i]
                 ELSE [ok |-> TRUE, val |-> v, next |-> j]

(* --- options --------------------------------------------------------------- *)
\* the quoted text from i on: characters, place behind it
RECURSIVE Quoted(_, _, _)
Quoted(s, i, acc) ==
  IF i > Len(s) \/ At(s, i) = 10 THEN [ok |-> FALSE, val |-> acc, next |-> i]
  ELSE IF s[i] = Quote
       THEN IF At(s, i + 1) = Quote THEN Quoted(s, i + 2, Append(acc, Quote))
            ELSE [ok |-> At(s, i + 1) \in (Space \cup {0, Comma, Hash}), val |-> acc, next |-> i + 1]
       ELSE Quoted(s, i + 1, Append(acc, s[i]))
Value(s, p) ==
  LET i == Past(s, p, Space) IN
  IF AtEnd(s, i) THEN [ok |-> FALSE, val |-> <<>>, next |-> i]
  ELSE IF s[i] = Quote THEN Quoted(s, i + 1, <<>>)
  ELSE LET j == Past(s, i, (1..255) \ (Space \cup {Comma})) IN
       [ok |-> TRUE, val |-> UpAll(Sub(s, i, j - 1)), next |-> j]
IdxNames == << <<79,78,69>>, <<84,87,79>>, <<84,72,82,69,69>> >>
IndexOf(v) == IF \E i \in 1..3 : IdxNames[i] = v THEN (CHOOSE i \in 1..3 : IdxNames[i] = v) - 1 ELSE -1
IsNumber(v) == v # <<>> /\ \A i \in 1..Len(v) : v[i] \in Digit
Opt(name, has, v) == <<name, IF has THEN 1 ELSE 0, v, IF IsNumber(v) THEN 1 ELSE 0,
                       IF IsNumber(v) THEN DecVal(v, 1, 0) ELSE 0, IndexOf(v)>>
FailName == <<70,65,73,76>>
\* the options from p on: what was read, and whether all of it made sense
RECURSIVE Options(_, _, _)
Options(s, p, acc) ==
  LET i == Past(s, p, Space \cup {Comma}) IN
  LET j == Past(s, i, Alnum \cup {Dash}) IN
  LET name == Cut(UpAll(Sub(s, i, j - 1)), MaxName) IN
  IF AtEnd(s, i) THEN [ok |-> TRUE, opts |-> acc]
  ELSE IF j = i THEN [ok |-> FALSE, opts |-> acc]
  ELSE IF At(s, j) = Equal
       THEN LET v == Value(s, j + 1) IN
            IF ~v.ok THEN [ok |-> FALSE, opts |-> acc]
            ELSE LET a == Append(acc, Opt(name, TRUE, v.val)) IN
                 IF name = FailName THEN [ok |-> FALSE, opts |-> a] ELSE Options(s, v.next, a)
       ELSE LET a == Append(acc, Opt(name, FALSE, <<>>)) IN
            IF name = FailName THEN [ok |-> FALSE, opts |-> a] ELSE Options(s, j, a)

(* --- lines and files -------------------------------------------------------- *)
\* the kinds of the device table of the harness
Kinds == { <<<<84,67,80,85>>, "cpu">>, <<<<55,55,55,55>>, "cpu">>, <<<<56,56,56,56>>, "dev">>,
           <<<<68,69,86,65>>, "dev">>, <<<<67,84,82,76,66>>, "dev">>, <<<<56,56>>, "dev">>,
           <<<<76,79,71,84>>, "cpu">>, <<<<72,69,65,68,88>>, "head">>, <<<<65,57>>, "dev">> }
KindOf(name) == IF \E k \in Kinds : k[1] = name THEN (CHOOSE k \in Kinds : k[1] = name)[2] ELSE "none"
\* what a line does: result, and what is made of it (name, model, numbers, address, options, accepted)
None(r) == [result |-> r, made |-> <<>>]
Make(s, w, addr, p) ==
  LET o == Options(s, p, <<>>) IN
  [result |-> IF o.ok THEN 1 ELSE 0,
   made |-> << <<w.name, w.name, w.model, w.dash, w.slash, w.flags, addr, o.opts, IF o.ok THEN 1 ELSE 0>> >>]
Line(s) ==
  LET w == FirstWord(s) IN
  IF ~w.ok THEN None(1)
  ELSE LET k == KindOf(w.name) IN
       IF k \in {"none", "head"} THEN None(1)
       ELSE IF k = "cpu" THEN Make(s, w, -1, w.next)
       ELSE LET a == Address(s, w.next) IN
            IF ~a.ok THEN None(0) ELSE Make(s, w, a.val, a.next)
MaxLine == 1022
RECURSIVE File(_, _, _)
File(s, p, made) ==
  IF p > Len(s) THEN [result |-> 1, made |-> made]
  ELSE LET e == Past(s, p, (0..255) \ {10}) IN
       IF e - p > MaxLine THEN [result |-> 0, made |-> made]
       ELSE LET r == Line(Sub(s, p, e - 1)) IN
            IF r.result = 0 THEN [result |-> 0, made |-> made \o r.made]
            ELSE File(s, e + 1, made \o r.made)
=============================================================================
