------------------------------- MODULE RunsMC -------------------------------
(* Every operator of Runs agrees with the plain sequence operator, checked  *)
(* on all sequences up to length N over 0..V-1 (one state per pair).        *)
EXTENDS Runs, TLC
CONSTANTS N, V
VARIABLES s, t
Init == s = <<>> /\ t = <<>>
Next == \/ /\ Len(s) < N /\ t = <<>> /\ \E x \in 0..V-1 : s' = Append(s, x) /\ t' = t
        \/ /\ Len(t) < N /\ \E x \in 0..V-1 : t' = Append(t, x) /\ s' = s
Spec == Init /\ [][Next]_<<s, t>>
a == Encode(s)
b == Encode(t)
RECURSIVE PSum(_)
PSum(q) == IF q = <<>> THEN 0 ELSE Head(q) + PSum(Tail(q))
Agree ==
  /\ IsRuns(a) /\ Denote(a) = s /\ RLen(a) = Len(s)
  /\ Denote(RCat(a, b)) = s \o t /\ IsRuns(RCat(a, b))
  /\ RSum16(a, 1) = PSum(s) % M16
  /\ (a = b) <=> (s = t)
  /\ \A i \in 0..Len(s) :
      /\ Denote(RTake(a, i)) = SubSeq(s, 1, i) /\ IsRuns(RTake(a, i))
      /\ Denote(RDrop(a, i)) = SubSeq(s, i + 1, Len(s)) /\ IsRuns(RDrop(a, i))
      /\ Denote(RInsert(a, i, b)) = SubSeq(s, 1, i) \o t \o SubSeq(s, i + 1, Len(s))
      /\ IsRuns(RInsert(a, i, b))
      /\ \A j \in i..Len(s) :
           /\ Denote(RErase(a, i, j)) = SubSeq(s, 1, i) \o SubSeq(s, j + 1, Len(s))
           /\ IsRuns(RErase(a, i, j))
           /\ Denote(RSlice(a, i, j)) = SubSeq(s, i + 1, j)
      /\ i < Len(s) =>
           /\ RGet(a, i) = s[i + 1]
           /\ \A x \in 0..V-1 : Denote(RSet(a, i, x)) = [s EXCEPT ![i + 1] = x]
                                /\ IsRuns(RSet(a, i, x))
=============================================================================
