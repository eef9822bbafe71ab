--------------------------------- MODULE HB ---------------------------------
(***************************************************************************)
(* Happens-before of the C++ memory model over an execution of a few       *)
(* threads: vector clocks, release sequences, fences, thread start and     *)
(* join.  A step is an atomic (or no) access of one thread together with   *)
(* the plain accesses the thread has made since its last step.             *)
(*                                                                         *)
(* What the property asks for (C11): no two conflicting accesses of which  *)
(* one is plain are unordered, nothing is touched before it is allocated   *)
(* or after it is released, nothing is released twice.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES C,      \* thread -> its vector clock
          S,      \* location -> clock a load that acquires gets
          PA,     \* thread -> clock an acquire fence would get
          RF,     \* thread -> its clock at its last release fence
          acc,    \* location -> accesses <<kind, thread, time>> not superseded
          live,   \* blocks allocated and not released
          blk     \* location -> the block it is part of, 0: none
hvars == <<C, S, PA, RF, acc, live, blk>>

Acquires(o) == o \in {1, 2, 4, 5}
Releases(o) == o \in {3, 4, 5}

Threads == DOMAIN C
Zero == [t \in Threads |-> 0]
Max2(a, b) == IF a > b THEN a ELSE b
Join(c, d) == [t \in DOMAIN c |-> Max2(c[t], d[t])]
Tick(c, t) == [c EXCEPT ![t] = @ + 1]

\* kinds of access: plain read and write, atomic read and write
Conflict(k, j) == {k, j} \in {{"R", "W"}, {"W"}, {"W", "AR"}, {"W", "AW"}, {"R", "AW"}}
Ordered(t, x, k) == \A a \in acc[x] : Conflict(a[1], k) => a[3] <= C[t][a[2]]
Alive(x, more) == blk[x] = 0 \/ blk[x] \in live \/ blk[x] \in more
\* what is remembered of a location that t accesses now
After(s, t, k) == IF k = "W" THEN {<<k, t, C[t][t]>>}
                  ELSE {a \in s : ~(a[1] = k /\ a[2] = t)} \cup {<<k, t, C[t][t]>>}

HBInit(threads, locs, blocks) ==
    /\ C' = [t \in 0..threads - 1 |-> [u \in 0..threads - 1 |-> IF u = t THEN 1 ELSE 0]]
    /\ S' = [x \in 1..locs |-> [u \in 0..threads - 1 |-> 0]]
    /\ PA' = [t \in 0..threads - 1 |-> [u \in 0..threads - 1 |-> 0]]
    /\ RF' = PA'
    /\ acc' = [x \in 1..locs |-> {}]
    /\ live' = {} /\ blk' = blocks

\* plain accesses rs and ws, allocations as, releases fs, then maybe atomic access k to x
Memory(t, rs, ws, as, fs, k, x) ==
    LET ax == IF k \in {"r", "w", "u"} THEN {x} ELSE {}
        ak == IF k = "r" THEN "AR" ELSE "AW" IN
    /\ as \cap live = {} /\ fs \subseteq live \cup as
    /\ \A y \in rs : Alive(y, as) /\ Ordered(t, y, "R")
    /\ \A y \in ws : Alive(y, as) /\ Ordered(t, y, "W")
    /\ \A y \in ax : Alive(y, as \ fs) /\ Ordered(t, y, ak)
    /\ live' = (live \cup as) \ fs
    /\ acc' = LET touched == rs \cup ws \cup ax IN
              IF touched = {} THEN acc ELSE
              [y \in DOMAIN acc |->
                  IF y \notin touched THEN acc[y] ELSE
                  LET a1 == IF y \in ws THEN After(acc[y], t, "W") ELSE acc[y]
                      a2 == IF y \in rs /\ y \notin ws THEN After(a1, t, "R") ELSE a1 IN
                  IF y \in ax THEN After(a2, t, ak) ELSE a2]

Sync(t, k, x, o) ==
    CASE k = "n" -> UNCHANGED <<C, S, PA, RF>>
      [] k = "r" -> /\ PA' = [PA EXCEPT ![t] = Join(@, S[x])]
                    /\ C' = IF Acquires(o) THEN [C EXCEPT ![t] = Join(@, S[x])] ELSE C
                    /\ UNCHANGED <<S, RF>>
      [] k = "w" -> /\ S' = [S EXCEPT ![x] = IF Releases(o) THEN C[t] ELSE RF[t]]
                    /\ C' = [C EXCEPT ![t] = Tick(@, t)]
                    /\ UNCHANGED <<PA, RF>>
      [] k = "u" -> LET c == IF Acquires(o) THEN Join(C[t], S[x]) ELSE C[t] IN
                    /\ PA' = [PA EXCEPT ![t] = Join(@, S[x])]
                    /\ S' = [S EXCEPT ![x] = Join(@, IF Releases(o) THEN c ELSE RF[t])]
                    /\ C' = [C EXCEPT ![t] = Tick(c, t)]
                    /\ UNCHANGED RF
      [] k = "f" -> LET c == IF Acquires(o) THEN Join(C[t], PA[t]) ELSE C[t] IN
                    /\ RF' = IF Releases(o) THEN [RF EXCEPT ![t] = c] ELSE RF
                    /\ C' = [C EXCEPT ![t] = Tick(c, t)]
                    /\ UNCHANGED <<S, PA>>
      [] k = "s" -> /\ C' = [C EXCEPT ![x] = Tick(Join(@, C[t]), x), ![t] = Tick(@, t)]  \* start thread x
                    /\ UNCHANGED <<S, PA, RF>>
      [] k = "e" -> UNCHANGED <<C, S, PA, RF>>
      [] k = "j" -> /\ C' = [C EXCEPT ![t] = Join(@, C[x])]                              \* thread x has ended
                    /\ UNCHANGED <<S, PA, RF>>

HBStep(t, rs, ws, as, fs, k, x, o) == Memory(t, rs, ws, as, fs, k, x) /\ Sync(t, k, x, o) /\ UNCHANGED blk
=============================================================================
