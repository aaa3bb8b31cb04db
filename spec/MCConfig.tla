----------------------------- MODULE MCConfig -----------------------------
(* Lines put together from tokens; laws of the scanner.                     *)
EXTENDS Config, TLC, Json
CONSTANTS MaxTok
VARIABLE toks
Tok == << <<56,56,56,56>>, <<55,55,55,55,102>>, <<68,101,118,97>>, <<56,56>>, <<32>>, <<45,49,50>>, <<47,51>>,
          <<48,48,67>>, <<49,102,70>>, <<82,73,110,103>>, <<61>>, <<44>>, <<34>>, <<34,34>>, <<97,46,98>>, <<35>>, <<79,110,101>>, <<55>> >>
MCInit == toks \in {<<i>> : i \in {1, 2, 3, 4, 5}}
MCNext == Len(toks) < MaxTok /\ \E t \in 1..Len(Tok) : toks' = Append(toks, t)
MCSpec == MCInit /\ [][MCNext]_toks
RECURSIVE Text(_, _)
Text(t, i) == IF i > Len(t) THEN <<>> ELSE Tok[t[i]] \o Text(t, i + 1)
T == Text(toks, 1)
Emit == Len(toks) = MaxTok => PrintT("H " \o ToJson(T))
\* a comment or blanks at the end and blanks in front change nothing
Law1 == Line(T \o <<32>>).result = Line(T \o <<32, 35, 56>>).result
\* leading blanks change nothing
Law2 == Line(<<32>> \o T) = Line(T)
\* what is accepted as a line is accepted as a file, alone or with others
Law3 == File(T \o <<10>>, 1, <<>>) = Line(T)
Law4 == Line(T).result = 1 => File(T \o <<10>> \o T, 1, <<>>).made = Line(T).made \o Line(T).made
=============================================================================
