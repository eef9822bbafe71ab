------------------------------ MODULE AssocSpec ------------------------------
(***************************************************************************)
(* set, map and table and their transients as a program sees them: a bank  *)
(* of registers (C++ variables), each holding a finite function from keys  *)
(* to values, or Moved (a moved-from variable, unspecified until assigned).*)
(*                                                                         *)
(* The keys are 1..U; a register's contents is a tuple of length U whose   *)
(* k-th entry is the value stored under k, 0 if there is none.  In a set   *)
(* every member is stored with value 1.  Hash values do not occur here:    *)
(* nothing an observer sees may depend on them.                            *)
(*                                                                         *)
(* As in SeqSpec, d receives the result of an operation on s; bit 0 of m   *)
(* says that s was passed as an rvalue.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES R, K, tgt
vars == <<R, K, tgt>>

Persistent == {"S", "M", "T"}
Moved == <<-1>>
Regs == DOMAIN R
Live(r) == r \in Regs /\ R[r] # Moved
Empty(u) == [k \in 1..u |-> 0]
Keys(f) == {k \in 1..Len(f) : f[k] # 0}
Size(f) == Cardinality(Keys(f))

Cons(s, m) == IF m % 2 = 1 THEN {s} ELSE {}
Put(d, v, c) ==
    /\ R' = [r \in Regs |-> IF r = d THEN v ELSE IF r \in c THEN Moved ELSE R[r]]
    /\ tgt' = {d} \cup c
    /\ UNCHANGED K

New(d, v) == Put(d, v, {})
Copy(d, s, m) == Live(s) /\ Put(d, R[s], Cons(s, m))
Swap(d, s) == /\ Live(d) /\ Live(s)
              /\ R' = [R EXCEPT ![d] = R[s], ![s] = R[d]]
              /\ tgt' = {d, s} /\ UNCHANGED K
SelfMove(d) == Live(d) /\ Put(d, R[d], {})
\* insert replaces what was stored under the key
Insert(d, s, k, v, m) == Live(s) /\ k \in 1..Len(R[s]) /\ v > 0
                         /\ Put(d, [R[s] EXCEPT ![k] = v], Cons(s, m))
\* the update function used by the drivers adds b; it is given 0 for a new key
Update(d, s, k, b, m) == Live(s) /\ k \in 1..Len(R[s])
                         /\ Put(d, [R[s] EXCEPT ![k] = @ + b], Cons(s, m))
UpdateIfExists(d, s, k, b, m) == Live(s) /\ k \in 1..Len(R[s])
                         /\ Put(d, IF R[s][k] = 0 THEN R[s] ELSE [R[s] EXCEPT ![k] = @ + b], Cons(s, m))
Erase(d, s, k, m) == Live(s) /\ k \in 1..Len(R[s])
                         /\ Put(d, [R[s] EXCEPT ![k] = 0], Cons(s, m))
\* nothing is left but what s holds
Keep(s) == /\ Live(s) /\ UNCHANGED K
           /\ R' = [r \in Regs |-> IF r = s THEN R[s] ELSE Empty(Len(R[s]))] /\ tgt' = Regs \ {s}
Observe(s) == Live(s) /\ UNCHANGED <<R, K>> /\ tgt' = {}

\* what diff(a, b) has to report, each exactly once
Added(f, g) == {<<k, g[k]>> : k \in {x \in 1..Len(f) : f[x] = 0 /\ g[x] # 0}}
Removed(f, g) == {<<k, f[k]>> : k \in {x \in 1..Len(f) : f[x] # 0 /\ g[x] = 0}}
Altered(f, g) == {<<k, f[k], g[k]>> : k \in {x \in 1..Len(f) : f[x] # 0 /\ g[x] # 0 /\ f[x] # g[x]}}

------------------------------------------------------------------------------
\* C01: an operation changes only the variables it was entitled to change
OnlyTargetChanges == [][\A r \in Regs : R'[r] # R[r] => r \in tgt']_vars
WellFormed == \A r \in Regs : R[r] = Moved \/ \A k \in 1..Len(R[r]) : R[r][k] >= 0
\* applying a diff to its first argument gives the second
DiffSound == \A a, b \in Regs :
    (R[a] # Moved /\ R[b] # Moved) =>
      LET f == R[a] g == R[b] IN
      /\ ({<<k, f[k]>> : k \in Keys(f)} \ Removed(f, g)) \ {<<c[1], c[2]>> : c \in Altered(f, g)}
           = {<<k, f[k]>> : k \in {x \in Keys(f) : f[x] = g[x]}}
      /\ Cardinality(Added(f, g)) - Cardinality(Removed(f, g)) = Size(g) - Size(f)
      /\ (Added(f, g) \cup Removed(f, g) \cup Altered(f, g) = {}) <=> (f = g)
==============================================================================
