------------------------------- MODULE BoxLife -------------------------------
(* BoxTrace and Life in lockstep; and copying, moving and swapping boxes does *)
(* nothing to the values but destroy those that nobody holds any more.        *)
EXTENDS BoxTrace, Life
LInit == Init /\ objs = {} /\ blks = {} /\ base = Unknown
Handles == {"copy", "swap", "selfmove", "selfcopy", "unwrap", "tail"}
\* all boxes destroyed: nothing is left; then made anew
Anew == LET r == Fold(objs, blks, e.life) IN
    /\ r.ok /\ r.o = {} /\ r.b = {}
    /\ LET q == Fold({}, {}, e.made) IN q.ok /\ objs' = q.o /\ blks' = q.b /\ UNCHANGED base
LNext == /\ Next
         /\ IF e.op = "init" THEN Anew ELSE LifeSteps(e.life)
         /\ e.op \in Handles => \A i \in 1..Len(e.life) : e.life[i][1] \in {Dtor, Free}
LSpec == LInit /\ [][LNext]_<<tvars, lvars>>
=============================================================================
