------------------------------ MODULE Channel ------------------------------
(***************************************************************************)
(* System/360 channels as a program sees them: START I/O, the channel      *)
(* program, the data in storage, the channel status word.                  *)
(* A device is the sequence of what it does on its commands (beh): initial *)
(* status, the bytes it wants to move, its data, the status at their end   *)
(* (e1) and, if that had no device end, the status that ends it (e2).      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

ATTN == 128  SM == 64  CUE == 32  BSY == 16  CE == 8  DE == 4  UC == 2  UE == 1
IL == 64  PROG == 32  PROT == 16
Has(x, m) == (x \div m) % 2 = 1
Clean(st) == st \in {CE, DE, CE + DE, SM + DE, SM + CE + DE}    \* lets a chain go on
AnyV == -1
NoCcw == [cmd |-> 0, da |-> 0, cd |-> FALSE, cc |-> FALSE, sli |-> FALSE, skip |-> FALSE, cnt |-> AnyV]

(* storage of channel programs: chunks <<address, bytes>> *)
ByteAt(chunks, a) == LET i == CHOOSE i \in 1..Len(chunks) : chunks[i][1] <= a /\ a < chunks[i][1] + Len(chunks[i][2])
                     IN chunks[i][2][a - chunks[i][1] + 1]
Known(chunks, a) == \E i \in 1..Len(chunks) : chunks[i][1] <= a /\ a + 7 < chunks[i][1] + Len(chunks[i][2])
RawAt(chunks, a) == [i \in 1..8 |-> IF Known(chunks, a) THEN ByteAt(chunks, a + i - 1) ELSE 0]
Bad(a) == [ok |-> FALSE, ca |-> a + 8, c |-> NoCcw]
(* how: "first", "cmd" or "data"; tic: may it be a transfer in channel? *)
RECURSIVE Fetch(_, _, _, _)
Fetch(R, a, how, tic) ==
    IF a % 8 # 0 \/ a >= R.size THEN Bad(a)
    ELSE LET b == RawAt(R.mem, a)
             da == b[2] * 65536 + b[3] * 256 + b[4]
             cnt == b[7] * 256 + b[8]
         IN IF b[1] % 16 = 8 THEN (IF ~tic \/ da % 8 # 0 THEN Bad(a) ELSE Fetch(R, da, how, FALSE))
            ELSE IF (how # "data" /\ b[1] % 16 = 0) \/ cnt = 0 \/ b[5] % 8 # 0 THEN [Bad(a) EXCEPT !.c.cnt = cnt]
            ELSE [ok |-> TRUE, ca |-> a + 8,
                  c |-> [cmd |-> b[1], da |-> da, cd |-> Has(b[5], 128), cc |-> Has(b[5], 64),
                         sli |-> Has(b[5], 32), skip |-> Has(b[5], 16), cnt |-> cnt]]

(* x: win storage of the data, seen what the device saw, ints the interruptions *)
Input(cmd) == cmd % 2 = 0
Backward(cmd) == cmd % 16 = 12
Intr(key, ca, st, cs, cnt) == [key |-> key, ca |-> ca, st |-> st, cs |-> cs, cnt |-> cnt]
Later(st) == Intr(AnyV, AnyV, st, 0, AnyV)                \* status of a device that is not working for a program
Writable(R, key, a) == key = 0 \/ R.keys[(a \div 2048) + 1] = key

(* move the bytes; result: <<c (with residual count), ca, win, moved, channel status, data seen>> *)
RECURSIVE Move(_, _, _, _, _, _, _, _, _)
Move(R, key, cmd, b, c, ca, win, i, out) ==
    IF i = b.n THEN [c |-> c, ca |-> ca, win |-> win, n |-> i, stop |-> FALSE, cs |-> 0, out |-> out]
    ELSE IF c.cnt = 0 THEN
         (IF ~c.cd THEN [c |-> c, ca |-> ca, win |-> win, n |-> i, stop |-> TRUE, cs |-> 0, out |-> out]
          ELSE LET f == TLCEval(Fetch(R, ca, "data", TRUE))
               IN IF ~f.ok THEN [c |-> [f.c EXCEPT !.cd = FALSE], ca |-> f.ca, win |-> win, n |-> i, stop |-> TRUE, cs |-> PROG, out |-> out]
                  ELSE Move(R, key, cmd, b, TLCEval(f.c), TLCEval(f.ca), win, i, out))
    ELSE LET d == IF Backward(cmd) THEN c.da - 1 ELSE c.da + 1
             err(k) == [c |-> c, ca |-> ca, win |-> win, n |-> i, stop |-> TRUE, cs |-> k, out |-> out]
             go(w, o) == Move(R, key, cmd, b, TLCEval([c EXCEPT !.da = d, !.cnt = @ - 1]), ca, w, TLCEval(i + 1), TLCEval(o))
         IN IF Input(cmd) THEN
                 IF c.skip THEN go(win, out)
                 ELSE IF c.da >= R.size \/ c.da < 0 THEN err(PROG)
                 ELSE IF ~Writable(R, key, c.da) THEN err(PROT)
                 ELSE go(TLCEval([win EXCEPT ![c.da] = b.data[i + 1]]), out)
            ELSE IF c.da >= R.size THEN err(PROG)
            ELSE go(win, Append(out, win[c.da]))

NoBeh == [init |-> CE + DE + UC, n |-> 0, e1 |-> 0, e2 |-> 0, data |-> <<>>]
Beh(R, k) == IF k <= Len(R.beh) THEN R.beh[k] ELSE NoBeh
(* the condition code of START I/O and the status it stores, then the interruptions *)
RECURSIVE Chain(_, _, _, _, _)
Chain(R, key, a, k, x) ==
    LET first == k = 1 /\ x.cc = AnyV
        f == TLCEval(Fetch(R, a, IF first THEN "first" ELSE "cmd", ~first))
    IN IF ~f.ok THEN (IF first THEN [x EXCEPT !.cc = 1, !.st = 0, !.cs = PROG]
                      ELSE [x EXCEPT !.ints = Append(@, Intr(key, f.ca, AnyV, PROG, AnyV))])
       ELSE LET c == f.c
                b == Beh(R, k)
                y == [x EXCEPT !.seen = Append(@, [cmd |-> c.cmd, n |-> 0, stop |-> FALSE, lax |-> FALSE, out |-> <<>>])]
                started == [y EXCEPT !.cc = IF @ = AnyV THEN 0 ELSE @]
                later(z) == IF b.e2 # 0 THEN [z EXCEPT !.ints = Append(@, Later(b.e2))] ELSE z
                nomore(z) == IF Has(b.init, CE) /\ ~Has(b.init, DE) THEN later(z) ELSE z
            IN IF b.init # 0 THEN
                  (* it ended, or could not begin *)
                  IF Clean(b.init) /\ c.cc THEN
                     (IF Has(b.init, DE) THEN Chain(R, key, f.ca + (IF Has(b.init, SM) THEN 8 ELSE 0), k + 1, started)
                      ELSE Chain(R, key, f.ca + (IF Has(b.e2, SM) THEN 8 ELSE 0), k + 1, started))
                  ELSE IF first THEN nomore([y EXCEPT !.cc = 1, !.st = b.init, !.cs = 0])
                  ELSE nomore([y EXCEPT !.ints = Append(@, Intr(key, f.ca, b.init, AnyV, c.cnt))])
               ELSE
                  LET m == TLCEval(Move(R, key, c.cmd, TLCEval(b), TLCEval(c), TLCEval(f.ca), TLCEval(x.win), 0, <<>>))
                      il == (m.c.cnt # 0 \/ m.stop) /\ ~(m.c.sli /\ ~m.c.cd) /\ m.cs = 0
                      cs == m.cs + (IF il THEN IL ELSE 0)
                      z == TLCEval([started EXCEPT !.win = m.win, !.seen[Len(started.seen)] = [cmd |-> c.cmd, n |-> m.n, stop |-> m.stop, lax |-> m.cs # 0, out |-> m.out]])
                  IN IF m.c.cc /\ cs = 0 /\ Clean(b.e1) /\ ~m.c.cd
                     THEN (IF Has(b.e1, DE) THEN Chain(R, key, m.ca + (IF Has(b.e1, SM) THEN 8 ELSE 0), k + 1, z)
                           ELSE IF ~Clean(b.e2) THEN [z EXCEPT !.ints = Append(@, Intr(key, m.ca, b.e2, AnyV, AnyV))]
                           ELSE Chain(R, key, m.ca + (IF Has(b.e2, SM) THEN 8 ELSE 0), k + 1, z))
                     ELSE LET w == [z EXCEPT !.ints = Append(@, Intr(key, m.ca, b.e1, cs, IF m.cs # 0 THEN AnyV ELSE m.c.cnt))]
                          IN IF Has(b.e1, DE) THEN w ELSE later(w)
StartIO(R) ==
    LET key == R.caw[1] \div 16
        a == R.caw[2] * 65536 + R.caw[3] * 256 + R.caw[4]
        x == [cc |-> AnyV, st |-> 0, cs |-> 0, seen |-> <<>>, ints |-> <<>>,
              win |-> [i \in R.lo..(R.lo + Len(R.win) - 1) |-> R.win[i - R.lo + 1]]]
    IN IF R.caw[1] % 16 # 0 THEN [x EXCEPT !.cc = 1, !.cs = PROG] ELSE Chain(R, key, a, 1, x)
=============================================================================
