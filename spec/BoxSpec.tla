------------------------------- MODULE BoxSpec -------------------------------
(***************************************************************************)
(* immer::box as a program sees it: variables that hold a value each.      *)
(* Registers of kind "B" are boxes of elements, of kind "N" boxes of such  *)
(* boxes (they hold the value in the innermost box), of kind "L" lists:    *)
(* boxes of an element and, maybe, another such box.  What a register      *)
(* holds is a sequence, of length one unless it is a list.  Which boxes    *)
(* share storage does not occur here: nothing an observer sees depends on  *)
(* it.                                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES R, K, tgt
vars == <<R, K, tgt>>
Moved == <<>>
Regs == DOMAIN R
Live(r) == r \in Regs /\ R[r] # Moved
Cons(s, m) == IF m % 2 = 1 THEN {s} ELSE {}
Put(d, v, c) ==
    /\ R' = [r \in Regs |-> IF r = d THEN v ELSE IF r \in c THEN Moved ELSE R[r]]
    /\ tgt' = {d} \cup c /\ UNCHANGED K
New(d) == Put(d, <<0>>, {})
Make(d, v) == v >= 0 /\ Put(d, <<v>>, {})
Copy(d, s, m) == Live(s) /\ K[d] = K[s] /\ Put(d, R[s], Cons(s, m))
Swap(d, s) == Live(d) /\ Live(s) /\ K[d] = K[s]
              /\ R' = [R EXCEPT ![d] = R[s], ![s] = R[d]] /\ tgt' = {d, s} /\ UNCHANGED K
SelfMove(d) == Live(d) /\ Put(d, R[d], {})
\* the update function adds b
Update(d, s, b, m) == Live(s) /\ K[d] = K[s] /\ Put(d, <<Head(R[s]) + b>> \o Tail(R[s]), Cons(s, m))
Wrap(d, s, m) == Live(s) /\ K[d] = "N" /\ K[s] = "B" /\ Put(d, R[s], Cons(s, m))
Unwrap(d, s) == Live(s) /\ K[d] = "B" /\ K[s] = "N" /\ Put(d, R[s], {})
\* a list is what it was made of, and its rest may replace it
Link(d, s, a, m) == Live(s) /\ K[d] = "L" /\ K[s] = "L" /\ Put(d, <<a>> \o R[s], Cons(s, m))
Rest(d, s) == Live(s) /\ K[d] = "L" /\ K[s] = "L" /\ Len(R[s]) > 1 /\ Put(d, Tail(R[s]), {})
Observe(s) == Live(s) /\ UNCHANGED <<R, K>> /\ tgt' = {}
WellFormed == \A r \in Regs : R[r] = Moved \/ ((K[r] = "L" \/ Len(R[r]) = 1) /\ \A i \in 1..Len(R[r]) : R[r][i] >= 0)
OnlyTargetChanges == [][\A r \in Regs : R'[r] # R[r] => r \in tgt']_vars
=============================================================================
