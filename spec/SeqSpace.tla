------------------------------ MODULE SeqSpace ------------------------------
(***************************************************************************)
(* What a value keeps alive (C17).  The action `space` empties every       *)
(* variable but one; what is then in use, of elements, blocks and bytes    *)
(* (e.ret[1..3]), is what that one value occupies.  e.ret[4..6] is what a  *)
(* value newly made of the same elements occupies.                         *)
(***************************************************************************)
EXTENDS SeqTrace

VARIABLES shape,  \* <<bits, leaf bits, ..>>
          big     \* longest sequence so far
BR == 2 ^ shape[1]
LF == 2 ^ shape[2]
RECURSIVE Levels(_, _, _)
Levels(n, cap, by) == IF cap >= n THEN 0 ELSE 1 + Levels(n, cap * by, by)
Half == IF BR <= 8 THEN 2 ELSE BR \div 4
H == 2 + Levels(big, LF, Half)

Occupied == LET n == RLen(R[e.s]) IN
    \* a value made anew has one object for each of its elements
    /\ e.ret[4] = n
    /\ CASE K[e.s] \in {"A", "a"} -> e.ret[1] = n /\ e.ret[2] <= 1
         \* however it was made
         [] K[e.s] \in {"V", "v"} -> \A i \in 1..3 : e.ret[i] = e.ret[i + 3]
         \* put together from pieces, which may occur in it several times; no piece without an element
         [] OTHER -> e.ret[1] <= n /\ e.ret[2] <= n * (1 + 2 * H)
TSpace == Ev("space") /\ Keep(e.s) /\ Seen /\ Occupied

Max2(S) == CHOOSE x \in S : \A y \in S : y <= x
PInit == Init /\ shape = <<1, 1, 1>> /\ big = 1
PReset == Reset /\ shape' = e.shape /\ big' = 1
PStep == /\ TSpace \/ (Next /\ e.op # "init")
         /\ big' = Max2({big} \cup {RLen(R'[r]) : r \in Changed})
         /\ UNCHANGED shape
PSpec == PInit /\ [][PReset \/ PStep]_<<tvars, shape, big>>
=============================================================================
