------------------------------- MODULE SeqLife -------------------------------
(* SeqTrace and Life in lockstep: what an operation returns, and what it does *)
(* with elements and memory while it runs.                                    *)
EXTENDS SeqTrace, Life
LInit == Init /\ objs = {} /\ blks = {} /\ base = Unknown
LNext == /\ Next
         /\ IF e.op = "init" THEN Quiet(e.life) ELSE LifeSteps(e.life)
LSpec == LInit /\ [][LNext]_<<tvars, lvars>>
=============================================================================
