------------------------------ MODULE HeapTrace ------------------------------
\* Recorded calls between heap adaptors against Heap.
EXTENDS Heap, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<lev, held, frames, kept, nt, ending, l>>

e == Trace[l]
Ev(op) == l <= Len(Trace) /\ e.end = 1 /\ l' = l + 1 /\ e.op = op
Init == l = 1 /\ lev = <<>> /\ held = <<>> /\ frames = <<>> /\ kept = <<>> /\ nt = 0 /\ ending = {}
Next == \/ Ev("init") /\ PInit(e.levels, e.threads)
        \/ Ev("ask") /\ Ask(e.t, e.lv, e.n)
        \/ Ev("got") /\ Got(e.t, e.lv, e.n, e.a)
        \/ Ev("give") /\ Give(e.t, e.lv, e.n, e.a)
        \/ Ev("gave") /\ Gave(e.t, e.lv)
        \/ Ev("ending") /\ Ending(e.t)
        \/ Ev("joined") /\ Joined
        \/ Ev("done") /\ Done
Spec == Init /\ [][Next]_tvars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
