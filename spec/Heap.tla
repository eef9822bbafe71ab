-------------------------------- MODULE Heap --------------------------------
(***************************************************************************)
(* A tree of heap adaptors as seen between its levels.  Level 1 is what    *)
(* the user calls.  A level holds the memory that was handed out there and *)
(* has not come back.  Memory handed out overlaps nothing else handed out  *)
(* and lies inside what the levels below handed out for it; what comes     *)
(* back does so with the size that was asked for; a list keeps no more     *)
(* than its limit, and what a thread's own list keeps is given back when   *)
(* the thread ends.                                                        *)
(*                                                                         *)
(* Kinds of level: root (the last); pass (everything is passed on, maybe   *)
(* with something added); split (small to the first, big to the second);   *)
(* own (a free list for every thread, or for the only one); free (a free   *)
(* list for all); all and alone (the policies: own and free, or own).      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES lev,    \* level -> <<kind, limit, size, levels below>>
          held,   \* level -> set of <<address, size>> handed out
          frames, \* thread -> the calls it is in: [lv, op, n, used]
          kept,   \* level -> thread -> blocks in its own list
          nt,     \* threads besides the first
          ending  \* threads that have nothing left to do but end
pvars == <<lev, held, frames, kept, nt, ending>>

Kind(i) == lev[i][1]
Limit(i) == lev[i][2]
Kids(i) == {lev[i][4][k] : k \in 1..Len(lev[i][4])}
Parents(i) == {p \in DOMAIN lev : i \in Kids(p)}
Overlap(x, y) == x[1] < y[1] + y[2] /\ y[1] < x[1] + x[2]
Within(x, y) == y[1] <= x[1] /\ x[1] + x[2] <= y[1] + y[2]
Below(i) == UNION {held[k] : k \in Kids(i)}
Top(t) == frames[t][Len(frames[t])]
\* the calls in which threads are at this level
Busy(i) == Cardinality({t \in DOMAIN frames : \E k \in 1..Len(frames[t]) : frames[t][k].lv = i})
\* blocks that a level keeps for itself
Keeps(i) == Cardinality(Below(i)) - Cardinality(held[i])

PInit(levels, n) ==
    /\ lev' = levels /\ nt' = n /\ ending' = {}
    /\ held' = [i \in 1..Len(levels) |-> {}]
    /\ frames' = [t \in 0..n |-> <<>>]
    /\ kept' = [i \in 1..Len(levels) |-> [t \in 0..n |-> 0]]

\* nobody else is there, or not anymore
Alone == nt = 0 \/ -1 \in ending
\* what a call of level lv by t may be part of
Called(t, lv, op, n) ==
    IF frames[t] = <<>> THEN lv = 1 ELSE
    LET f == Top(t) IN
    /\ lv \in Kids(f.lv)
    /\ Kind(f.lv) = "split" => lv = lev[f.lv][4][IF f.n <= lev[f.lv][3] THEN 1 ELSE 2] /\ n = f.n
    /\ Kind(f.lv) = "pass" => f.op = op /\ ~f.used /\ n >= f.n
    /\ op = "alloc" => f.op = "alloc" /\ ~f.used
    \* memory that is kept is used first, and memory is kept up to the limit
    /\ Kind(f.lv) = "own" => IF op = "alloc" THEN kept[f.lv][t] = 0
                             ELSE kept[f.lv][t] = Limit(f.lv) \/ t \in ending
    /\ ((Kind(f.lv) = "free" /\ Alone) \/ Kind(f.lv) = "alone") /\ f.n <= lev[f.lv][3] =>
          IF op = "alloc" THEN Keeps(f.lv) = 0 ELSE Keeps(f.lv) > Limit(f.lv)
    /\ Kind(f.lv) = "all" /\ Alone /\ f.n <= lev[f.lv][3] /\ op = "alloc" => Keeps(f.lv) = 0
Used(t) == IF frames[t] = <<>> THEN <<>> ELSE [frames[t] EXCEPT ![Len(frames[t])].used = TRUE]
Entered(t, lv, op, n) == frames' = [frames EXCEPT ![t] = Append(Used(t), [lv |-> lv, op |-> op, n |-> n, used |-> FALSE])]
Left(t) == frames' = [frames EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)]

Ask(t, lv, n) == Called(t, lv, "alloc", n) /\ Entered(t, lv, "alloc", n) /\ UNCHANGED <<lev, held, kept, nt, ending>>
Got(t, lv, n, a) ==
    LET f == Top(t)
        sibs == UNION {Kids(p) : p \in Parents(lv)} \cup {lv} IN
    /\ frames[t] # <<>> /\ f.lv = lv /\ f.op = "alloc" /\ f.n = n
    /\ a > 0 /\ a % 8 = 0
    /\ \A i \in sibs : \A x \in held[i] : ~Overlap(x, <<a, n>>)
    /\ Kind(lv) # "root" => \E y \in Below(lv) : Within(<<a, n>>, y)
    /\ Kind(lv) \in {"pass", "split"} => f.used
    /\ held' = [held EXCEPT ![lv] = @ \cup {<<a, n>>}]
    /\ kept' = IF Kind(lv) = "own" /\ ~f.used THEN [kept EXCEPT ![lv][t] = @ - 1] ELSE kept
    /\ kept'[lv][t] >= 0
    /\ Left(t) /\ UNCHANGED <<lev, nt, ending>>
\* memory that a list gives back although it was not called: the thread is ending
Clears(t, lv) == {p \in Parents(lv) : Kind(p) = "own" /\ kept[p][t] > 0}
Give(t, lv, n, a) ==
    /\ <<a, n>> \in held[lv]
    /\ held' = [held EXCEPT ![lv] = @ \ {<<a, n>>}]
    /\ \A p \in Parents(lv) : \A x \in held[p] : ~Overlap(x, <<a, n>>)
    /\ \/ /\ Called(t, lv, "free", n) /\ kept' = kept
       \/ /\ frames[t] = <<>>
          /\ lv # 1 /\ \/ \E p \in Clears(t, lv) : kept' = [kept EXCEPT ![p][t] = @ - 1]
                       \/ \E p \in Parents(lv) : Kind(p) = "all" /\ kept' = kept
    /\ Entered(t, lv, "free", n)
    /\ UNCHANGED <<lev, nt, ending>>
Most(i) == Limit(i) * (nt + 1) + Limit(i) - 1 + nt + 1
Gave(t, lv) ==
    LET f == Top(t) IN
    /\ frames[t] # <<>> /\ f.lv = lv /\ f.op = "free"
    /\ Kind(lv) \in {"pass", "split"} => f.used
    /\ kept' = IF Kind(lv) = "own" /\ ~f.used THEN [kept EXCEPT ![lv][t] = @ + 1] ELSE kept
    /\ Left(t)
    /\ Kind(lv) = "own" => kept'[lv][t] <= Limit(lv)
    /\ Kind(lv) = "free" => Keeps(lv) <= Limit(lv) + (IF nt = 0 THEN 0 ELSE nt + Busy(lv) - 1)
    /\ Kind(lv) = "alone" => Keeps(lv) <= Limit(lv)
    /\ Kind(lv) = "all" => Keeps(lv) <= Most(lv) + Busy(lv) - 1
    /\ UNCHANGED <<lev, held, nt, ending>>
\* nobody is in a call: all is where it should be
Quiet(ended) ==
    /\ \A t \in DOMAIN frames : frames[t] = <<>>
    /\ \A i \in DOMAIN lev :
         /\ Kind(i) \in {"pass", "split"} => Keeps(i) = 0
         /\ Kind(i) = "own" => /\ \A t \in ended : kept[i][t] = 0
                               /\ Keeps(i) = kept[i][0]
         /\ Kind(i) = "free" => Keeps(i) <= Limit(i) + nt
         /\ Kind(i) = "alone" => Keeps(i) <= Limit(i)
         /\ Kind(i) = "all" => Keeps(i) <= 2 * Limit(i) + nt
Ending(t) == frames[t] = <<>> /\ ending' = ending \cup {t} /\ UNCHANGED <<lev, held, frames, kept, nt>>
Joined == Quiet(1..nt) /\ 1..nt \subseteq ending /\ ending' = ending \cup {-1} /\ UNCHANGED <<lev, held, frames, kept, nt>>
Done == Quiet(1..nt) /\ held[1] = {} /\ UNCHANGED pvars
=============================================================================
