------------------------------ MODULE AtomTrace ------------------------------
\* Recorded calls on an atom against Atom: accepted iff they are linearizable.
EXTENDS Atom, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<val, pend, kept, l>>

e == Trace[l]
Ev(op) == l <= Len(Trace) /\ e.end = 1 /\ l' = l + 1 /\ e.op = op
Init == l = 1 /\ val = 0 /\ pend = <<>> /\ kept = <<>>
Next == \/ Ev("init") /\ AInit(e.threads, e.v)
        \/ Ev("inv") /\ Begin(e.t, e.k, e.v)
        \/ Ev("res") /\ Return(e.t, e.ret, e.keep)
        \/ Ev("look") /\ Look(e.t, e.see)
        \/ Ev("last") /\ Last(e.ret)
Spec == Init /\ [][Next]_tvars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
