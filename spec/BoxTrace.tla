------------------------------ MODULE BoxTrace ------------------------------
EXTENDS BoxSpec, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<R, K, tgt, l>>
Init == l = 1 /\ R = <<>> /\ K = <<>> /\ tgt = {}
e == Trace[l]
Line == l <= Len(Trace) /\ e.end = 1 /\ l' = l + 1
Thrown == "thrown" \in DOMAIN e
Ev(op) == Line /\ e.op = op /\ ~Thrown /\ "swallowed" \notin DOMAIN e
Range(q) == {q[i] : i \in 1..Len(q)}
Changed == {r \in Regs : R'[r] # R[r] /\ R'[r] # Moved}
RECURSIVE Less(_, _)
Less(p, q) == q # <<>> /\ (p = <<>> \/ Head(p) < Head(q) \/ (Head(p) = Head(q) /\ Less(Tail(p), Tail(q))))
\* bad: a register one of whose views (get, *, ->, conversion, hash, comparison with
\* a plain value) differs from the others
Seen ==
    /\ e.bad = 0 /\ e.eqbad = 0
    /\ Range(e.ch) = {<<r, R'[r]>> : r \in Changed}
    /\ LET P == {p \in Regs \X Regs : p[1] < p[2] /\ K[p[1]] = K[p[2]]
                     /\ R'[p[1]] # Moved /\ R'[p[2]] # Moved} IN
       /\ Range(e.eq) = {p \in P : R'[p[1]] = R'[p[2]]}
       /\ Range(e.lt) = {p \in P : Less(R'[p[1]], R'[p[2]])}
Reset == Ev("init") /\ K' = e.kinds /\ R' = [r \in 1..Len(e.kinds) |-> <<0>>] /\ tgt' = DOMAIN R'
TNew == Ev("new") /\ New(e.d) /\ Seen
TMake == Ev("make") /\ Make(e.d, e.a) /\ Seen
TCopy == Ev("copy") /\ Copy(e.d, e.s, e.m) /\ Seen
TSwap == Ev("swap") /\ Swap(e.d, e.s) /\ Seen
TSelfMove == Ev("selfmove") /\ SelfMove(e.d) /\ Seen
TSelfCopy == Ev("selfcopy") /\ SelfMove(e.d) /\ Seen
TUpdate == Ev("update") /\ Update(e.d, e.s, e.b, e.m) /\ Seen
TWrap == Ev("wrap") /\ Wrap(e.d, e.s, e.m) /\ Seen
TUnwrap == Ev("unwrap") /\ Unwrap(e.d, e.s) /\ Seen
TLink == Ev("cons") /\ Link(e.d, e.s, e.a, e.m) /\ Seen
TRest == Ev("tail") /\ Rest(e.d, e.s) /\ Seen
\* an operation that threw changed nothing, but may have used up the box it was given
TThrown == Line /\ Thrown /\ e.fault > 0
    /\ LET used == Cons(e.s, e.m) IN
       /\ R' = [r \in Regs |-> IF r \in used THEN Moved ELSE R[r]] /\ tgt' = used /\ UNCHANGED K
    /\ Seen
Next == Reset \/ TNew \/ TMake \/ TCopy \/ TSwap \/ TSelfMove \/ TSelfCopy \/ TUpdate \/ TWrap \/ TUnwrap \/ TLink \/ TRest \/ TThrown
Spec == Init /\ [][Next]_tvars
OnlyTargets == [][\A r \in Regs \cap DOMAIN R' : R'[r] # R[r] => r \in tgt']_tvars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
