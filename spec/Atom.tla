-------------------------------- MODULE Atom --------------------------------
(***************************************************************************)
(* An atom as its users see it: a value that calls act on one at a time,   *)
(* each at some moment between its beginning and its return, and boxes     *)
(* that threads obtained from it and that never change.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES val,   \* the value stored
          pend,  \* thread -> the call it is in
          kept   \* thread -> the boxes it obtained: slot -> value, -1: none
avars == <<val, pend, kept>>

Idle == [k |-> "none", v |-> 0, done |-> FALSE, ret |-> 0]
Threads == DOMAIN pend
\* the functions that updates apply
F(x, k) == (31 * x + k) % 65521
\* what a call does to the value, and what it returns
NewVal(c, x) == CASE c.k \in {"store", "exchange"} -> c.v
                  [] c.k = "update" -> F(x, c.v)
                  [] OTHER -> x
Returns(c, x) == CASE c.k \in {"load", "exchange"} -> x
                   [] c.k = "update" -> F(x, c.v)
                   [] OTHER -> 0

AInit(n, v) == val' = v /\ pend' = [t \in 1..n |-> Idle] /\ kept' = [t \in 1..n |-> [j \in 0..2 |-> -1]]
Begin(t, k, v) == /\ pend[t].k = "none"
                  /\ pend' = [pend EXCEPT ![t] = [k |-> k, v |-> v, done |-> FALSE, ret |-> 0]]
                  /\ UNCHANGED <<val, kept>>
\* the calls of q take effect, in this order
RECURSIVE Effects(_, _, _)
Effects(q, x, p) ==
    IF q = <<>> THEN <<x, p>>
    ELSE LET t == Head(q) IN
         Effects(Tail(q), NewVal(p[t], x), [p EXCEPT ![t].done = TRUE, ![t].ret = Returns(p[t], x)])
Waiting == {t \in Threads : pend[t].k # "none" /\ ~pend[t].done}
\* calls that take effect up to and including t's; which is as late as this can happen
Orders(t) == {q \in UNION {[1..n -> Waiting] : n \in 1..Cardinality(Waiting)} :
                q[Len(q)] = t /\ \A i, j \in 1..Len(q) : q[i] = q[j] => i = j}
Return(t, r, slot) ==
    /\ pend[t].k # "none"
    /\ \E q \in IF pend[t].done THEN {<<>>} ELSE Orders(t) :
         LET f == Effects(q, val, pend) IN
         /\ f[2][t].ret = r
         /\ val' = f[1]
         /\ pend' = [f[2] EXCEPT ![t] = Idle]
    /\ kept' = IF slot >= 0 THEN [kept EXCEPT ![t][slot] = r] ELSE kept
\* boxes obtained earlier still hold what they held
Look(t, seen) == /\ \A i \in 1..Len(seen) : kept[t][seen[i][1]] = seen[i][2]
                 /\ UNCHANGED avars
Last(v) == /\ \A t \in Threads : pend[t] = Idle
           /\ val = v /\ UNCHANGED avars
=============================================================================
