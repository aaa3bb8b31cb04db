------------------------------- MODULE Cards -------------------------------
(* Card hoppers and stackers (src/device/card.c): each holds a stack of cards
   with the next one to leave at pos + 1; a stacker may be connected to a file
   that receives the cards. Cards are identified by a number, 0 is blank.   *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Ctx, Names
VARIABLES stack, pos, out, files
vars == <<stack, pos, out, files>>
None == "none"
Init == /\ stack = [c \in Ctx |-> <<>>] /\ pos = [c \in Ctx |-> 0]
        /\ out = [c \in Ctx |-> None] /\ files = [n \in Names |-> <<>>]
Rest(c) == SubSeq(stack[c], pos[c] + 1, Len(stack[c]))

\* A deck file is read: its cards go behind those still in the hopper.
Load(c, ids, ret) ==
  /\ out[c] = None /\ ret = 1
  /\ stack' = [stack EXCEPT ![c] = Rest(c) \o ids] /\ pos' = [pos EXCEPT ![c] = 0]
  /\ UNCHANGED <<out, files>>
LoadMissing(c, ret) == ret = -1 /\ UNCHANGED vars
Blank(c, n) ==
  /\ stack' = [stack EXCEPT ![c] = Rest(c) \o [i \in 1..n |-> 0]] /\ pos' = [pos EXCEPT ![c] = 0]
  /\ UNCHANGED <<out, files>>
\* n cards are asked for, ids is what came; the hopper may run empty.
Read(c, n, ids, ret) ==
  /\ out[c] = None
  /\ LET have == Len(stack[c]) - pos[c]
         m == IF n < have THEN n ELSE have
     IN /\ ids = SubSeq(stack[c], pos[c] + 1, pos[c] + m)
        /\ ret = (IF m = n THEN 1 ELSE 0)
        /\ pos' = [pos EXCEPT ![c] = pos[c] + m]
  /\ UNCHANGED <<stack, out, files>>
Written(c, more) == IF out[c] = None THEN files ELSE [files EXCEPT ![out[c]] = @ \o Rest(c) \o more]
Stack(c, ids, ret) ==
  /\ ids # <<>> /\ ret = 0
  /\ stack' = [stack EXCEPT ![c] = @ \o ids]
  /\ files' = Written(c, ids)
  /\ pos' = IF out[c] = None THEN pos ELSE [pos EXCEPT ![c] = Len(stack[c]) + Len(ids)]
  /\ UNCHANGED out
Empty(c) ==
  /\ files' = Written(c, <<>>)
  /\ stack' = [stack EXCEPT ![c] = <<>>] /\ pos' = [pos EXCEPT ![c] = 0]
  /\ UNCHANGED out
\* The cards not yet gone are written to a new file, which stays connected.
Save(c, n, ret) ==
  /\ ret = 0 /\ \A d \in Ctx : out[d] = n => d = c
  /\ files' = [files EXCEPT ![n] = Rest(c)]
  /\ pos' = [pos EXCEPT ![c] = Len(stack[c])] /\ out' = [out EXCEPT ![c] = n]
  /\ UNCHANGED stack
\* A file that cannot be created: nothing is connected any more.
SaveFails(c, ret) ==
  /\ ret = -1 /\ out' = [out EXCEPT ![c] = None] /\ UNCHANGED <<stack, pos, files>>
Close(c) == out' = [out EXCEPT ![c] = None] /\ UNCHANGED <<stack, pos, files>>
Sizes(c, hopper, stacker) ==
  /\ hopper = Len(stack[c]) - pos[c]
  /\ (pos[c] = 0 \/ out[c] # None) => stacker = Len(stack[c])
  /\ UNCHANGED vars
\* What a file that is not connected holds.
FileIs(n, ids) == (\A c \in Ctx : out[c] # n) /\ files[n] = ids /\ UNCHANGED vars

TypeOK == \A c \in Ctx : pos[c] \in 0..Len(stack[c])
\* A connected stacker has everything on file, unless blanks were put in by hand.
\* No step on one stack changes another.
Isolated == [][\E c \in Ctx : \A d \in Ctx \ {c} : stack'[d] = stack[d] /\ pos'[d] = pos[d] /\ out'[d] = out[d]]_vars
\* Only an Empty loses cards, and cards leave from the front.
Conserved == [][\A c \in Ctx : stack'[c] = <<>> \/ \E k \in {0, pos[c]} :
                 /\ Len(stack'[c]) >= Len(stack[c]) - k
                 /\ \A i \in 1..(Len(stack[c]) - k) : stack'[c][i] = stack[c][i + k]]_vars
=============================================================================
