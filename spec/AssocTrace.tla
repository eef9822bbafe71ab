------------------------------ MODULE AssocTrace ------------------------------
(***************************************************************************)
(* Trace validation for set, map and table: every line is one public call  *)
(* of the real code with all that an observer saw change (see SeqTrace).   *)
(* Contents are read by traversal and by a lookup of every key; `bad`      *)
(* names a register whose views disagree (size, traversal, find, count,    *)
(* [], at), `ch` the registers whose contents differ from the last reading.*)
(***************************************************************************)
EXTENDS AssocSpec, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, U0    \* U0: the keys of this history are 1..U0
tvars == <<R, K, tgt, l, U0>>
Init == l = 1 /\ U0 = 0 /\ R = <<>> /\ K = <<>> /\ tgt = {}
e == Trace[l]
Line == l <= Len(Trace) /\ e.end = 1 /\ l' = l + 1
Thrown == "thrown" \in DOMAIN e
Ev(op) == Line /\ e.op = op /\ ~Thrown /\ "swallowed" \notin DOMAIN e
Range(q) == {q[i] : i \in 1..Len(q)}

Changed == {r \in Regs : R'[r] # R[r] /\ R'[r] # Moved}
Pairs(f, ks) == {<<k, f[k]>> : k \in ks}
SeenChanges ==
    /\ e.bad = 0
    /\ Changed = {c[1] : c \in Range(e.ch)}
    /\ \A c \in Range(e.ch) :
        IF c[2] = 1 THEN Range(c[3]) = Pairs(R'[c[1]], Keys(R'[c[1]]))
        ELSE /\ R[c[1]] # Moved
             /\ Range(c[3]) = Pairs(R'[c[1]], {k \in 1..Len(R'[c[1]]) : R'[c[1]][k] # R[c[1]][k]})
\* the variables that whoever writes this line may look at: its thread's
Own == IF "own" \in DOMAIN e THEN Range(e.own) \cap Regs ELSE Regs
SeenEqual ==
    /\ e.eqbad = 0
    /\ Range(e.eq) =
        UNION {{IF r < q THEN <<r, q>> ELSE <<q, r>> :
                    q \in {x \in Own : x # r /\ K[x] = K[r] /\ R'[x] = R'[r]}} :
               r \in {x \in Changed : K[x] \in Persistent}}
Seen == SeenChanges /\ SeenEqual

Reset == /\ Ev("init")
         /\ K' = e.kinds /\ U0' = e.a
         /\ R' = [r \in e.lo..e.hi |-> Empty(e.a)]
         /\ tgt' = e.lo..e.hi
\* keys and values pairwise, later ones replace earlier ones
From(q) == [k \in 1..U0 |->
    LET S == {i \in 1..(Len(q) \div 2) : q[2 * i - 1] = k} IN
    IF S = {} THEN 0 ELSE LET i == CHOOSE x \in S : \A y \in S : y <= x IN
                          IF K[e.d] = "S" THEN 1 ELSE q[2 * i]]
TNew == Ev("new") /\ New(e.d, Empty(U0)) /\ Seen
TFrom == Ev("from") /\ New(e.d, From(IF "jumps" \in DOMAIN e THEN e.jumps ELSE <<>>)) /\ Seen
TCopy == Ev("copy") /\ Copy(e.d, e.s, e.m) /\ Seen
TTransient == Ev("transient") /\ K[e.d] \notin Persistent /\ K[e.s] \in Persistent
              /\ Copy(e.d, e.s, e.m) /\ Seen
TPersistent == Ev("persistent") /\ K[e.d] \in Persistent /\ K[e.s] \notin Persistent
              /\ Copy(e.d, e.s, e.m) /\ Seen
TSwap == Ev("swap") /\ Swap(e.d, e.s) /\ Seen
TSelfMove == Ev("selfmove") /\ SelfMove(e.d) /\ Seen
TInsert == Ev("insert") /\ Insert(e.d, e.s, e.a, e.b, e.m) /\ Seen
TSet == Ev("set") /\ K[e.s] \in {"M", "m"} /\ Insert(e.d, e.s, e.a, e.b, e.m) /\ Seen
TUpdate == Ev("update") /\ Update(e.d, e.s, e.a, e.b, e.m) /\ Seen
TUpdEx == Ev("updex") /\ UpdateIfExists(e.d, e.s, e.a, e.b, e.m) /\ Seen
TErase == Ev("erase") /\ Erase(e.d, e.s, e.a, e.m) /\ Seen
\* C06: exactly the differences, each once
Once(q, S) == Range(q) = S /\ Len(q) = Cardinality(S)
TDiff == Ev("diff") /\ Observe(e.s) /\ Live(e.e) /\ Seen
         /\ Once(e.added, Added(R[e.s], R[e.e]))
         /\ Once(e.removed, Removed(R[e.s], R[e.e]))
         /\ Once(e.changed, Altered(R[e.s], R[e.e]))
RECURSIVE Sum16(_, _)
Sum16(f, k) == IF k = 0 THEN 0
               ELSE (Sum16(f, k - 1) + (IF f[k] = 0 THEN 0 ELSE k + f[k])) % 65536
\* C08: every means of traversal visits the keys in one and the same order, each once
TTrav == Ev("trav") /\ Observe(e.s) /\ Seen
         /\ e.ret = <<Sum16(R[e.s], Len(R[e.s])), Size(R[e.s])>>
         /\ Len(e.orders) = 7
         /\ \A i \in 2..7 : e.orders[i] = e.orders[1]
         /\ Once(e.orders[1], Keys(R[e.s]))

\* C10: an operation that threw has changed nothing but a variable that it was to change
\* in place, which holds something (the driver goes on using it) nobody promises
TThrown == Line /\ Thrown /\ e.fault > 0 /\ UNCHANGED K
    /\ LET used == IF /\ e.op \in {"insert", "set", "update", "updex", "erase"}
                      /\ e.m % 2 = 1 \/ K[e.s] \notin Persistent
                   THEN {e.s} ELSE {} IN
       R' = [r \in Regs |-> IF r \in used THEN Moved ELSE R[r]] /\ tgt' = used
    /\ Seen

Step == \/ TThrown
     \/ TNew \/ TFrom \/ TCopy \/ TTransient \/ TPersistent \/ TSwap \/ TSelfMove
     \/ TInsert \/ TSet \/ TUpdate \/ TUpdEx \/ TErase \/ TDiff \/ TTrav
Next == Reset \/ (Step /\ UNCHANGED U0)
Spec == Init /\ [][Next]_tvars
OnlyTargets == [][\A r \in Regs \cap DOMAIN R' : R'[r] # R[r] => r \in tgt']_tvars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
