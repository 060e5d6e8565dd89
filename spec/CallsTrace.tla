----------------------------- MODULE CallsTrace -----------------------------
(***************************************************************************)
(* Do the recorded calls go as Calls says?  A call which the driver left   *)
(* out, there being no such object, is not to be possible.                 *)
(***************************************************************************)
EXTENDS Calls

Scenarios == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
N == Len(Scenarios)

VARIABLES sc, k, bad

S == Scenarios[sc]
Ev == S.ev[k]
Skipped == "skip" \in DOMAIN Ev
GuardOK(e) == IF Skipped THEN ~May(e) ELSE May(e) /\ Fits(e)

TInit == Init /\ sc = 1 /\ k = 1 /\ bad = 0
Fresh == pats' = Empties /\ fsms' = Empties /\ progs' = Empties /\ bufs' = Empties /\ ctxs' = Empties /\ decs' = {}
Step == /\ sc <= N /\ k <= Len(S.ev)
        /\ IF GuardOK(Ev)
           THEN (IF Skipped THEN UNCHANGED vars ELSE Do(Ev)) /\ sc' = sc /\ k' = k + 1 /\ bad' = bad
           ELSE PrintT(<<"REJECT", S.id, k>>) /\ sc' = sc + 1 /\ k' = 1 /\ bad' = bad + 1 /\ Fresh
Done == sc <= N /\ k > Len(S.ev) /\ sc' = sc + 1 /\ k' = 1 /\ bad' = bad /\ Fresh
Finish == sc = N + 1 /\ PrintT(<<"CHECKED", N, bad>>) /\ sc' = N + 2 /\ UNCHANGED <<vars, k, bad>>
TNext == (Step \/ Done \/ Finish) /\ UNCHANGED log
=============================================================================
