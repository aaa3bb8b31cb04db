------------------------------ MODULE MCEvents ------------------------------
(* Bounded exhaustive check of Events, and the generator of the histories that
   are replayed against the real scheduler: hist is the list of calls made from
   outside, each added event carrying what its callback will do (react).      *)
EXTENDS Events, Json, IOUtils
CONSTANTS Devs, Fns, Delays, MaxAdds, MaxTicks, MaxCalls, Reacts
VARIABLES hist, nadd, todo
mcvars == <<vars, hist, nadd, todo>>
\* todo: reaction of the callback now running ("none" when not in one)
React(id) == LET H == {i \in 1..Len(hist) : hist[i][1] = "add" /\ hist[i][2] = id}
             IN IF H = {} THEN <<"none">> ELSE hist[CHOOSE i \in H : TRUE][6]
MCInit == Init /\ hist = <<>> /\ nadd = 0 /\ todo = <<"none">>
Outside == phase = "idle" /\ imm = <<>> /\ todo = <<"none">>
DoAdd == /\ Outside /\ nadd < MaxAdds /\ Len(hist) < MaxCalls
         /\ \E d \in Devs, f \in Fns, t \in Delays, x \in Reacts :
              /\ Add(nadd, d, f, nadd, nadd, t)
              /\ hist' = Append(hist, <<"add", nadd, d, f, t, x>>)
         /\ nadd' = nadd + 1 /\ UNCHANGED todo
DoCancel == /\ Outside /\ Len(hist) < MaxCalls
            /\ \E d \in Devs, f \in Fns :
                 /\ ~Ambiguous(d, f) /\ pend # {}
                 /\ Cancel(d, f) /\ hist' = Append(hist, <<"cancel", d, f>>)
            /\ UNCHANGED <<nadd, todo>>
DoTick == /\ Outside /\ now < MaxTicks /\ Len(hist) < MaxCalls /\ pend # {}
          /\ Tick /\ hist' = Append(hist, <<"tick">>)
          /\ UNCHANGED <<nadd, todo>>
DoFire == /\ todo = <<"none">>
          /\ \E e \in pend \cup (IF imm = <<>> THEN {} ELSE {imm[1]}) :
               Fire(e.id, e.dev, e.fn, e.arg, e.iarg) /\ todo' = React(e.id)
          /\ UNCHANGED <<hist, nadd>>
DoReact == /\ todo # <<"none">>
           /\ CASE todo[1] = "add" ->
                     /\ Add(nadd, todo[2], todo[3], nadd, nadd, todo[4]) /\ nadd' = nadd + 1
                [] todo[1] = "cancel" -> Cancel(todo[2], todo[3]) /\ nadd' = nadd
           /\ todo' = <<"none">> /\ UNCHANGED hist
DoTickEnd == todo = <<"none">> /\ TickEnd /\ UNCHANGED <<hist, nadd, todo>>
MCNext == DoAdd \/ DoCancel \/ DoTick \/ DoFire \/ DoReact \/ DoTickEnd
MCSpec == MCInit /\ [][MCNext]_mcvars
\* Write each complete history once: those that cannot be extended.
Emit == (Outside /\ Len(hist) = MaxCalls) => PrintT("H " \o ToJson(hist))
MCReacts == {<<"none">>, <<"add", 0, 0, 1>>, <<"add", 1, 0, 0>>, <<"cancel", 0, 0>>, <<"cancel", 1, 0>>}
=============================================================================
