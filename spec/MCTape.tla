------------------------------- MODULE MCTape -------------------------------
(* Bounded check of Tape and generator of histories: hist lists compound
   operations as a control unit issues them.                               *)
EXTENDS Tape, Json
CONSTANTS MaxOps, Lens, Fmts, Rings
VARIABLES hist, step, wr
\* wr: blocks written so far, to give each its own contents
mcvars == <<vars, hist, step, wr>>
MCInit == /\ Init /\ hist = <<>> /\ step = <<>> /\ wr = 0
Ready == step = <<>> /\ att
Op(o, s) == hist' = Append(hist, o) /\ step' = s
Start == /\ ~att /\ hist = <<>>
         /\ \E f \in Fmts, rg \in Rings :
              \/ step = <<>> /\ \E its \in {<<>>, <<Rec(2, 7, 3), Mark, Rec(1, 9, 0)>>} :
                   MakeFile(f, FALSE, its) /\ step' = <<"attach", rg>> /\ UNCHANGED <<hist, wr>>
         
StartAttach == /\ ~att /\ Len(step) = 2 /\ step[1] = "attach"
               /\ Attach(fmt, step[2], 1)
               /\ hist' = Append(hist, <<"A", fmt, step[2], items>>) /\ step' = <<>> /\ UNCHANGED wr
Write == /\ Ready /\ Len(hist) < MaxOps
         /\ \E n \in Lens : /\ WriteStart(IF ring THEN OK ELSE WRP)
                            /\ Op(<<"W", n>>, IF ring THEN <<"wf", n>> ELSE <<>>)
         /\ UNCHANGED wr
WriteF == /\ step # <<>> /\ step[1] = "wf"
          /\ WriteFrames(20 + wr * 5, 1, step[2], OK) /\ step' = <<"fin">> /\ wr' = wr + 1 /\ UNCHANGED hist
WMark == /\ Ready /\ Len(hist) < MaxOps /\ WriteMark(IF ring THEN OK ELSE WRP)
         /\ Op(<<"M">>, IF mode' = "mk" THEN <<"fin">> ELSE <<>>) /\ UNCHANGED wr
Forw == /\ Ready /\ Len(hist) < MaxOps
        /\ \E n \in {0, 1, 9}, ret \in {OK, EOT, MARK} :
             ReadForw(ret) /\ Op(<<"r", n>>, IF ret = OK THEN <<"rf", n>> ELSE IF ret = MARK THEN <<"fin">> ELSE <<>>)
        /\ UNCHANGED wr
Back == /\ Ready /\ Len(hist) < MaxOps
        /\ \E n \in {0, 1, 9}, ret \in {OK, BOT, MARK} :
             ReadBack(ret) /\ Op(<<"b", n>>, IF ret = OK THEN <<"rf", n>> ELSE IF ret = MARK THEN <<"fin">> ELSE <<>>)
        /\ UNCHANGED wr
RFrames == /\ step # <<>> /\ step[1] = "rf"
           /\ LET rec == IF mode = "rd" THEN items[pos + 1] ELSE items[pos]
                  m == IF step[2] <= rec[1] THEN step[2] ELSE rec[1]
              IN ReadFrames(step[2], Frames(rec, mode, 0, m), IF m = step[2] THEN OK ELSE EOB)
           /\ step' = <<"fin">> /\ UNCHANGED <<hist, wr>>
Fin == step = <<"fin">> /\ Finish(OK) /\ step' = <<>> /\ UNCHANGED <<hist, wr>>
Rew == Ready /\ Len(hist) < MaxOps /\ pos > 0 /\ Rewind(BOT) /\ Op(<<"Z">>, <<>>) /\ UNCHANGED wr
Cycle == Ready /\ Len(hist) < MaxOps /\ hist[Len(hist)][1] # "C" /\ Detach /\ Op(<<"C">>, <<"attach2">>) /\ UNCHANGED wr
Cycle2 == step = <<"attach2">> /\ Attach(fmt, ring, 1) /\ step' = <<>> /\ UNCHANGED <<hist, wr>>
MCNext == Start \/ StartAttach \/ Write \/ WriteF \/ WMark \/ Forw \/ Back \/ RFrames \/ Fin \/ Rew \/ Cycle \/ Cycle2
MCSpec == MCInit /\ [][MCNext]_mcvars
Emit == (Len(hist) = MaxOps /\ step = <<>>) => PrintT("H " \o ToJson(hist))
=============================================================================
