-------------------------------- MODULE Tape --------------------------------
(* A reel of tape behind the tape functions of src/device/tape.c, as the
   sequence of blocks and tape marks on it. One action per public call.

   Block contents are arithmetic progressions modulo the size of a frame: a
   block is its length, first frame and step, so that long blocks stay small
   in the specification while every frame of them is still determined.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

TAP == 0  E11 == 1  P7B == 2
OK == 0  EOT == 1  BOT == 2  EOB == 3  MARK == 6  WRP == 7  ERR == -1

VARIABLES items,  \* what is on the tape: Rec(..) or Mark
          tail,   \* what follows: "end" nothing, "eom" an end-of-medium mark,
                  \* "junk" remains of overwritten data (contents not promised)
          pos,    \* number of items before the head
          mode,   \* "idle", "rd"/"rb" inside a block being read, "wr", "mk"
          k,      \* frames of the current block consumed
          cur,    \* block being written
          fmt, ring, att, lp
vars == <<items, tail, pos, mode, k, cur, fmt, ring, att, lp>>
\* lp: 1 the load point indication is on, 0 off, 2 either is acceptable
\*     (the head is at load point but got there other than by rewinding)

Rec(n, b, s) == <<n, b, s>>
Mark == <<0, 0, 0>>
IsRec(x) == x[1] > 0
Mod(f) == IF f = P7B THEN 128 ELSE 256
Step(n, s) == IF n > 1 THEN s ELSE 0

Init == /\ items = <<>> /\ tail = "end" /\ pos = 0 /\ mode = "idle" /\ k = 0
        /\ cur = Rec(0, 0, 0) /\ fmt = TAP /\ ring = FALSE /\ att = FALSE /\ lp = 0

\* The file is put there (or removed) by someone else while not attached.
MakeFile(f, eom, its) ==
  /\ ~att
  /\ items' = its /\ tail' = (IF eom THEN "eom" ELSE "end") /\ fmt' = f
  /\ UNCHANGED <<pos, mode, k, cur, ring, att, lp>>

Attach(f, rg, ret) ==
  /\ ~att /\ f = fmt /\ ret = 1
  /\ att' = TRUE /\ ring' = rg /\ pos' = 0 /\ mode' = "idle" /\ lp' = 1
  /\ UNCHANGED <<items, tail, k, cur, fmt>>

Detach == /\ att /\ mode \in {"idle", "mk"}
          /\ att' = FALSE /\ pos' = 0 /\ mode' = "idle" /\ lp' = 2
          /\ UNCHANGED <<items, tail, k, cur, fmt, ring>>

Truncated(n) == IF n = Len(items) /\ tail # "junk" THEN "end" ELSE "junk"

WriteStart(ret) ==
  /\ att /\ mode \in {"idle", "mk"}
  /\ IF ring THEN ret = OK /\ mode' = "wr" /\ cur' = Rec(0, 0, 0) /\ lp' = 0
             ELSE ret = WRP /\ mode' = mode /\ cur' = cur /\ lp' = lp
  /\ UNCHANGED <<items, tail, pos, k, fmt, ring, att>>

WriteFrames(b, s, n, ret) ==
  /\ mode = "wr" /\ ret = OK /\ cur[1] = 0 /\ n > 0
  /\ cur' = Rec(n, b, Step(n, s))
  /\ UNCHANGED <<items, tail, pos, mode, k, fmt, ring, att, lp>>

WriteMark(ret) ==
  /\ att /\ mode \in {"idle", "mk"}
  /\ IF ring THEN /\ ret = OK
                  /\ items' = Append(SubSeq(items, 1, pos), Mark)
                  /\ tail' = Truncated(pos) /\ pos' = pos + 1 /\ lp' = 0
                  /\ mode' = "mk"
             ELSE ret = WRP /\ UNCHANGED <<items, tail, pos, lp, mode>>
  /\ UNCHANGED <<k, cur, fmt, ring, att>>

\* Is the head in front of remains of overwritten data?
Unknown == pos = Len(items) /\ tail = "junk"

ReadForw(ret) ==
  /\ att /\ mode \in {"idle", "mk"} /\ ~Unknown
  /\ IF pos = Len(items)
     THEN ret = EOT /\ mode' = "idle" /\ pos' = pos /\ lp' = (IF pos = 0 THEN 2 ELSE 0)
     ELSE /\ lp' = 0
          /\ IF IsRec(items[pos + 1]) THEN ret = OK /\ mode' = "rd" /\ pos' = pos
             ELSE ret = MARK /\ mode' = "mk" /\ pos' = pos + 1
  /\ k' = 0 /\ UNCHANGED <<items, tail, cur, fmt, ring, att>>

ReadBack(ret) ==
  /\ att /\ mode \in {"idle", "mk"}
  /\ IF pos = 0
     THEN ret = BOT /\ mode' = "idle" /\ pos' = pos /\ lp' = 1
     ELSE /\ IF IsRec(items[pos]) THEN ret = OK /\ mode' = "rb" /\ pos' = pos /\ lp' = lp
             ELSE ret = MARK /\ mode' = "mk" /\ pos' = pos - 1 /\ lp' = (IF pos = 1 THEN 2 ELSE 0)
  /\ k' = 0 /\ UNCHANGED <<items, tail, cur, fmt, ring, att>>

\* Read n frames, or up to the end of the block: segs is what was read.
Frames(rec, dir, from, n) ==
  LET f == IF dir = "rd" THEN rec[2] + rec[3] * from ELSE rec[2] + rec[3] * (rec[1] - 1 - from)
      s == IF dir = "rd" THEN rec[3] ELSE Mod(fmt) - rec[3]
  IN IF n = 0 THEN <<>> ELSE << <<n, f % Mod(fmt), Step(n, s % Mod(fmt))>> >>
ReadFrames(n, segs, ret) ==
  /\ mode \in {"rd", "rb"}
  /\ LET rec == IF mode = "rd" THEN items[pos + 1] ELSE items[pos]
         m == IF n <= rec[1] - k THEN n ELSE rec[1] - k
     IN /\ segs = Frames(rec, mode, k, m)
        /\ ret = IF m = n THEN OK ELSE EOB
        /\ k' = k + m
  /\ UNCHANGED <<items, tail, pos, mode, cur, fmt, ring, att, lp>>
\* A frame read after a tape mark gives the mark again.
ReadFramesMark(ret) == mode = "mk" /\ ret = MARK /\ UNCHANGED vars

Finish(ret) ==
  /\ ret = OK
  /\ CASE mode = "rd" -> pos' = pos + 1 /\ lp' = 0 /\ UNCHANGED <<items, tail>>
       [] mode = "rb" -> pos' = pos - 1 /\ lp' = (IF pos = 1 THEN 2 ELSE 0) /\ UNCHANGED <<items, tail>>
       [] mode = "wr" -> /\ cur[1] > 0
                         /\ items' = Append(SubSeq(items, 1, pos), cur)
                         /\ tail' = Truncated(pos) /\ pos' = pos + 1 /\ lp' = 0
       [] mode = "mk" -> UNCHANGED <<items, tail, pos, lp>>
  /\ mode' = "idle" /\ UNCHANGED <<k, cur, fmt, ring, att>>

Rewind(ret) ==
  /\ att /\ mode \in {"idle", "mk"} /\ ret = BOT
  /\ pos' = 0 /\ lp' = 1 /\ mode' = "idle"
  /\ UNCHANGED <<items, tail, k, cur, fmt, ring, att>>

\* Nothing works on a drive without a tape.
Refused(ret) == ~att /\ ret = ERR /\ UNCHANGED vars

Query(loadpt, ready, rg) ==
  /\ ready = att /\ (att => rg = ring)
  /\ (att => lp = 2 \/ loadpt = (lp = 1))
  /\ UNCHANGED vars

(* The image formats *)
Bytes4(b, i) == b[i] + 256 * b[i + 1] + 65536 * b[i + 2]  \* high byte 0 or 255
RECURSIVE DecodeLen(_, _, _)
\* SIMH and E11: length, data, (pad to even for SIMH), length
DecodeLen(b, i, pad) ==
  IF i = Len(b) + 1 THEN [its |-> <<>>, tail |-> "end"]
  ELSE IF i + 3 > Len(b) THEN [its |-> <<>>, tail |-> "bad"]
  ELSE IF b[i] = 255 /\ b[i+1] = 255 /\ b[i+2] = 255 /\ b[i+3] = 255
       THEN [its |-> <<>>, tail |-> IF i + 3 = Len(b) THEN "eom" ELSE "bad"]
  ELSE IF b[i+3] # 0 THEN [its |-> <<>>, tail |-> "bad"]
  ELSE LET n == Bytes4(b, i)
           e == i + 4 + n + (IF pad THEN n % 2 ELSE 0)
       IN IF n = 0
          THEN LET r == DecodeLen(b, i + 4, pad) IN [its |-> << <<>> >> \o r.its, tail |-> r.tail]
          ELSE IF e + 3 > Len(b) \/ b[e+3] # 0 THEN [its |-> <<>>, tail |-> "bad"]
          ELSE IF Bytes4(b, e) # n THEN [its |-> <<>>, tail |-> "bad"]
          ELSE LET r == DecodeLen(b, e + 4, pad)
               IN [its |-> <<SubSeq(b, i + 4, i + 3 + n)>> \o r.its, tail |-> r.tail]
\* P7B: the first frame of a block has bit 128 set; a tape mark is frame 143
RECURSIVE DecodeP7B(_, _)
NextStart(b, i) == LET S == {j \in (i + 1)..Len(b) : b[j] >= 128}
                   IN IF S = {} THEN Len(b) + 1 ELSE CHOOSE j \in S : \A x \in S : j <= x
DecodeP7B(b, i) ==
  IF i > Len(b) THEN [its |-> <<>>, tail |-> "end"]
  ELSE IF b[i] = 143
       THEN LET r == DecodeP7B(b, i + 1) IN [its |-> << <<>> >> \o r.its, tail |-> r.tail]
  ELSE LET e == NextStart(b, i)
           r == DecodeP7B(b, e)
       IN IF b[i] < 128 THEN [its |-> <<>>, tail |-> "bad"]
          ELSE [its |-> << [j \in 1..(e - i) |-> b[i + j - 1] % 128] >> \o r.its, tail |-> r.tail]
Expand(rec) == IF IsRec(rec) THEN [j \in 1..rec[1] |-> (rec[2] + rec[3] * (j - 1)) % Mod(fmt)] ELSE <<>>

\* The image file, after detaching, as its bytes.
File(bytes) ==
  /\ ~att
  /\ LET d == IF fmt = P7B THEN DecodeP7B(bytes, 1) ELSE DecodeLen(bytes, 1, fmt = TAP)
     IN /\ Len(d.its) >= Len(items)
        /\ \A j \in 1..Len(items) : d.its[j] = Expand(items[j])
        /\ tail # "junk" => Len(d.its) = Len(items) /\ d.tail = tail
  /\ UNCHANGED vars
\* The same for large files, decoded by the harness into blocks.
FileItems(its, tl) ==
  /\ ~att
  /\ Len(its) >= Len(items)
  /\ \A j \in 1..Len(items) : its[j] = items[j]
  /\ tail # "junk" => Len(its) = Len(items) /\ tl = tail
  /\ UNCHANGED vars

(* Properties of the design *)
TypeOK == /\ pos \in 0..Len(items) /\ k >= 0
          /\ mode \in {"idle", "rd", "rb", "wr", "mk"}
          /\ mode = "rd" => pos < Len(items) /\ IsRec(items[pos + 1]) /\ k <= items[pos + 1][1]
          /\ mode = "rb" => pos > 0 /\ IsRec(items[pos]) /\ k <= items[pos][1]
\* Everything before the head is kept by every step (while the tape is on).
KeepsBefore == [][att /\ att' => SubSeq(items', 1, pos) = SubSeq(items, 1, pos)]_vars
\* Without a ring nothing on the tape changes.
Protected == [][att /\ ~ring => items' = items /\ tail' = tail]_vars
\* Only writing changes the tape.
OnlyWrites == [][att /\ mode \in {"rd", "rb"} => items' = items]_vars
=============================================================================
