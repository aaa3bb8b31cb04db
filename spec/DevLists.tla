----------------------------- MODULE DevLists -----------------------------
(* The chains of devices per channel and the list of disk controllers.      *)
(* A device is identified by a number; devices whose number is divisible by *)
(* three have no init routine, those divisible by four no close routine.    *)
EXTENDS Integers, Sequences, FiniteSets, Bitwise
VARIABLES chains,   \* channel -> sequence of [id, addr]
          disks     \* bag of disks, as a sequence in order of registration
vars == <<chains, disks>>
Channels == 0..7
Init == chains = [c \in Channels |-> <<>>] /\ disks = <<>>

ChOf(addr) == (addr \div 256) % 8
Without(s, P(_)) == LET F[i \in 0..Len(s)] == IF i = 0 THEN <<>>
                          ELSE IF P(s[i]) THEN F[i-1] ELSE Append(F[i-1], s[i]) IN F[Len(s)]
Registered(id) == \E c \in Channels : \E i \in 1..Len(chains[c]) : chains[c][i].id = id

Add(id, addr) == /\ ~Registered(id)
                 /\ chains' = [chains EXCEPT ![ChOf(addr)] = Append(@, [id |-> id, addr |-> addr])]
                 /\ UNCHANGED disks
\* a device is removed from the chain of the channel named, and from no other
Del(id, addr) == /\ chains' = [chains EXCEPT ![ChOf(addr)] = Without(@, LAMBDA d : d.id = id)]
                 /\ UNCHANGED disks
Matches(addr, mask) == {i \in 1..Len(chains[ChOf(addr)]) :
                           (chains[ChOf(addr)][i].addr & mask) = (addr & mask)}
Found(addr, mask) == LET m == Matches(addr, mask) IN
                     IF m = {} THEN -1
                     ELSE chains[ChOf(addr)][CHOOSE i \in m : \A j \in m : i <= j].id

AddDisk(k) == disks' = Append(disks, k) /\ UNCHANGED chains
\* each removal takes one registration away
DelDisk(k) == /\ UNCHANGED chains
              /\ disks' = LET at == {i \in 1..Len(disks) : disks[i] = k} IN
                     IF at = {} THEN disks
                     ELSE LET i == CHOOSE x \in at : TRUE
                          IN SubSeq(disks, 1, i - 1) \o SubSeq(disks, i + 1, Len(disks))
Ids(c) == [i \in 1..Len(chains[c]) |-> chains[c][i].id]
All == Ids(0) \o Ids(1) \o Ids(2) \o Ids(3) \o Ids(4) \o Ids(5) \o Ids(6) \o Ids(7)
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : Count(s, s[i]) = Count(t, s[i])

\* every device is on one chain once, and on the chain of its address
Unique == \A i, j \in 1..Len(All) : All[i] = All[j] => i = j
Placed == \A c \in Channels : \A i \in 1..Len(chains[c]) : ChOf(chains[c][i].addr) = c
=============================================================================
