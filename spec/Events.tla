------------------------------- MODULE Events -------------------------------
(* The event scheduler (src/event.c): callbacks of devices run a given number
   of clock steps after they are scheduled. One action per public call and per
   callback invocation; a clock step is bracketed by Tick and TickEnd, and
   calls made by callbacks happen between them.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES now,    \* clock steps so far
          phase,  \* "idle": outside a clock step, "tick": inside one
          pend,   \* pending events
          imm,    \* events with delay 0 whose callback has not started yet (stack)
          fired   \* identifiers of events fired so far
vars == <<now, phase, pend, imm, fired>>

\* An event: id, dev, fn (unit and callback), arg, iarg, due
Init == /\ now = 0 /\ phase = "idle" /\ pend = {} /\ imm = <<>> /\ fired = {}

Add(id, dev, fn, arg, iarg, delay) ==
  LET e == [id |-> id, dev |-> dev, fn |-> fn, arg |-> arg, iarg |-> iarg, due |-> now + delay] IN
  /\ imm = <<>>
  /\ IF delay = 0
     THEN imm' = <<e>> /\ pend' = pend
     ELSE pend' = pend \cup {e} /\ imm' = imm
  /\ UNCHANGED <<now, phase, fired>>

\* Events a cancellation may remove: of the unit and callback, the next to fire.
Matching(dev, fn) == {e \in pend : e.dev = dev /\ e.fn = fn}
Earliest(S) == {e \in S : \A x \in S : e.due <= x.due}
Ambiguous(dev, fn) == Cardinality(Earliest(Matching(dev, fn))) > 1

Cancel(dev, fn) ==
  /\ imm = <<>>
  /\ IF Matching(dev, fn) = {} THEN pend' = pend
     ELSE \E e \in Earliest(Matching(dev, fn)) : pend' = pend \ {e}
  /\ UNCHANGED <<now, phase, imm, fired>>

Tick == /\ phase = "idle" /\ imm = <<>>
        /\ phase' = "tick" /\ now' = now + 1
        /\ UNCHANGED <<pend, imm, fired>>

\* The callback runs with the values given when the event was scheduled.
Fire(id, dev, fn, arg, iarg) ==
  LET e == [id |-> id, dev |-> dev, fn |-> fn, arg |-> arg, iarg |-> iarg, due |-> now] IN
  /\ IF imm # <<>>
     THEN imm[1] = e /\ imm' = <<>> /\ pend' = pend
     ELSE phase = "tick" /\ e \in pend /\ pend' = pend \ {e} /\ imm' = imm
  /\ fired' = fired \cup {id}
  /\ UNCHANGED <<now, phase>>

TickEnd == /\ phase = "tick" /\ imm = <<>>
           /\ \A e \in pend : e.due > now
           /\ phase' = "idle"
           /\ UNCHANGED <<now, pend, imm, fired>>

(* Properties of the design *)
NothingLate == phase = "idle" /\ imm = <<>> => \A e \in pend : e.due > now
NothingPast == \A e \in pend : e.due >= now
FiredOnce   == \A e \in pend : e.id \notin fired
IdsUnique   == \A e, f \in pend : e.id = f.id => e = f
=============================================================================
