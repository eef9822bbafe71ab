------------------------------- MODULE SeqSpec -------------------------------
(***************************************************************************)
(* array, vector, flex_vector and their transients as a program sees them: *)
(* a bank of registers (C++ variables), each of a kind, each holding a     *)
(* sequence (a run list, see Runs) or Moved (a moved-from variable, whose  *)
(* contents are unspecified until it is assigned).                         *)
(*                                                                         *)
(* One action per public operation.  d is the register that receives the   *)
(* result, s and e the operands; bit 0 (bit 1) of m says that s (e) was    *)
(* passed as an rvalue, so that it is Moved afterwards unless it is also   *)
(* the destination.  An operation of a transient has d = s: the transient  *)
(* itself changes, nothing else does.                                      *)
(***************************************************************************)
EXTENDS Runs, FiniteSets

VARIABLES R,      \* register -> run list or Moved
          K,      \* register -> kind
          tgt     \* registers the last operation was entitled to change
vars == <<R, K, tgt>>

\* F flex_vector, V vector, A array; f v a their transients
Persistent == {"F", "V", "A"}
Moved == << <<-1, 0>> >>
Regs == DOMAIN R
Live(r) == r \in Regs /\ R[r] # Moved
Cons(s, e, m) == (IF m % 2 = 1 THEN {s} ELSE {}) \cup (IF m >= 2 THEN {e} ELSE {})
Put(d, v, c) ==
    /\ R' = [r \in Regs |-> IF r = d THEN v ELSE IF r \in c THEN Moved ELSE R[r]]
    /\ tgt' = {d} \cup c
    /\ UNCHANGED K

\* The in-place forms of concatenation forbid the two operands to be one object
Distinct(s, e, m) == m # 0 => s # e

New(d, v) == Put(d, v, {})
Copy(d, s, m) == Live(s) /\ Put(d, R[s], Cons(s, 0, m))
Swap(d, s) == /\ Live(d) /\ Live(s)
              /\ R' = [R EXCEPT ![d] = R[s], ![s] = R[d]]
              /\ tgt' = {d, s} /\ UNCHANGED K
\* x = std::move(x): legal, and the variable is moved-from afterwards or intact;
\* the library promises it keeps its value
SelfMove(d) == Live(d) /\ Put(d, R[d], {})
PushBack(d, s, x, m) == Live(s) /\ Put(d, RPush(R[s], x), Cons(s, 0, m))
PushFront(d, s, x) == Live(s) /\ Put(d, RCat(ROne(x), R[s]), {})
SetAt(d, s, i, x, m) == Live(s) /\ i < RLen(R[s]) /\ Put(d, RSet(R[s], i, x), Cons(s, 0, m))
\* the update function used by the drivers adds x
Update(d, s, i, x, m) == Live(s) /\ i < RLen(R[s])
                         /\ Put(d, RSet(R[s], i, RGet(R[s], i) + x), Cons(s, 0, m))
Take(d, s, n, m) == Live(s) /\ Put(d, RTake(R[s], n), Cons(s, 0, m))
Drop(d, s, n, m) == Live(s) /\ Put(d, RDrop(R[s], n), Cons(s, 0, m))
Concat(d, s, e, m) == Live(s) /\ Live(e) /\ Distinct(s, e, m)
                      /\ Put(d, RCat(R[s], R[e]), Cons(s, e, m))
Insert(d, s, i, x, m) == Live(s) /\ i <= RLen(R[s])
                         /\ Put(d, RInsert(R[s], i, ROne(x)), Cons(s, 0, m))
InsertSeq(d, s, e, i, m) == Live(s) /\ Live(e) /\ Distinct(s, e, m) /\ i <= RLen(R[s])
                         /\ Put(d, RInsert(R[s], i, R[e]), Cons(s, e, m))
Erase(d, s, i, m) == Live(s) /\ i < RLen(R[s])
                         /\ Put(d, RErase(R[s], i, i + 1), Cons(s, 0, m))
EraseRange(d, s, i, j, m) == Live(s) /\ i <= RLen(R[s]) /\ j <= RLen(R[s])
                         /\ Put(d, RErase(R[s], i, j), Cons(s, 0, m))
\* t.append(u) / t.append(std::move(u)); t.prepend(u) / ...  (m is 0 or 2)
Append_(d, e, m) == Live(d) /\ Live(e) /\ d # e /\ Put(d, RCat(R[d], R[e]), Cons(0, e, m))
Prepend(d, e, m) == Live(d) /\ Live(e) /\ d # e /\ Put(d, RCat(R[e], R[d]), Cons(0, e, m))
\* nothing is left but what s holds
Keep(s) == /\ Live(s) /\ UNCHANGED K
           /\ R' = [r \in Regs |-> IF r = s THEN R[s] ELSE <<>>] /\ tgt' = Regs \ {s}
\* operations that only look
Observe(s) == Live(s) /\ UNCHANGED <<R, K>> /\ tgt' = {}

------------------------------------------------------------------------------
\* C01: an operation changes only the variables it was entitled to change
OnlyTargetChanges == [][\A r \in Regs : R'[r] # R[r] => r \in tgt']_vars
WellFormed == \A r \in Regs : R[r] = Moved \/ IsRuns(R[r])
=============================================================================
