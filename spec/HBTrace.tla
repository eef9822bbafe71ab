------------------------------- MODULE HBTrace -------------------------------
(***************************************************************************)
(* Recorded executions against HB.  Accesses come as ranges of locations   *)
(* (bytes shared by several threads, cut where accesses begin and end).    *)
(***************************************************************************)
EXTENDS HB, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, base
tvars == <<C, S, PA, RF, acc, live, blk, l, base>>

e == Trace[l]
Line == l <= Len(Trace) /\ e.end = 1 /\ l' = l + 1
Ev(op) == Line /\ e.op = op
Ranges(q) == UNION {q[i][1]..q[i][2] : i \in 1..Len(q)}
Elems(q) == {q[i] : i \in 1..Len(q)}

Init == /\ l = 1 /\ C = <<>> /\ S = <<>> /\ PA = <<>> /\ RF = <<>> /\ acc = <<>>
        /\ live = {} /\ blk = <<>> /\ base = {}
TInit == Ev("init") /\ HBInit(e.threads, e.segs, e.blk) /\ base' = {}
TEv == Ev("ev") /\ HBStep(e.t, Ranges(e.R), Ranges(e.W), Elems(e.A), Elems(e.F), e.k, e.x, e.o) /\ UNCHANGED base
\* what exists before the threads start, and must exist in the end, no more and no less
TBase == Ev("base") /\ base' = live /\ UNCHANGED hvars
TFinal == Ev("final") /\ (e.leak = 1 => live = base) /\ UNCHANGED <<hvars, base>>
Next == TInit \/ TEv \/ TBase \/ TFinal
Spec == Init /\ [][Next]_tvars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
