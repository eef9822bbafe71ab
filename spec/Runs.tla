-------------------------------- MODULE Runs --------------------------------
(***************************************************************************)
(* Sequences of integers, represented as the unique list of maximal        *)
(* ascending runs <<first, length>>.  It denotes a plain sequence (Denote) *)
(* and lets TLC handle values of 10^5 elements in a few operations; that   *)
(* every operator below agrees with the plain sequence operator is checked *)
(* exhaustively on small sequences in RunsMC.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences

IsRuns(r) == \A i \in 1..Len(r) :
               /\ r[i][2] > 0
               /\ i < Len(r) => r[i][1] + r[i][2] # r[i + 1][1]

RECURSIVE RSum(_, _)
RSum(r, i) == IF i > Len(r) THEN 0 ELSE r[i][2] + RSum(r, i + 1)
RLen(r) == RSum(r, 1)

\* <<k, o>>: position n falls o elements into run k (k may be Len(r)+1 with o=0)
RECURSIVE RLoc(_, _, _)
RLoc(r, k, n) == IF k > Len(r) \/ n < r[k][2] THEN <<k, n>>
                 ELSE RLoc(r, k + 1, n - r[k][2])

Min2(a, b) == IF a < b THEN a ELSE b

RTake(r, n) == LET p == RLoc(r, 1, n) IN
    IF p[1] > Len(r) THEN r
    ELSE SubSeq(r, 1, p[1] - 1) \o
         (IF p[2] > 0 THEN << <<r[p[1]][1], p[2]>> >> ELSE <<>>)

RDrop(r, n) == LET p == RLoc(r, 1, n) IN
    IF p[1] > Len(r) THEN <<>>
    ELSE << <<r[p[1]][1] + p[2], r[p[1]][2] - p[2]>> >> \o
         SubSeq(r, p[1] + 1, Len(r))

RCat(a, b) ==
    IF a = <<>> THEN b
    ELSE IF b = <<>> THEN a
    ELSE LET x == a[Len(a)] y == b[1] IN
         IF x[1] + x[2] = y[1]
         THEN SubSeq(a, 1, Len(a) - 1) \o << <<x[1], x[2] + y[2]>> >> \o
              SubSeq(b, 2, Len(b))
         ELSE a \o b

RGet(r, i) == LET p == RLoc(r, 1, i) IN r[p[1]][1] + p[2]
ROne(x) == << <<x, 1>> >>
RRange(x, n) == IF n = 0 THEN <<>> ELSE << <<x, n>> >>
RFill(x, n) == [i \in 1..n |-> <<x, 1>>]
RPush(r, x) == RCat(r, ROne(x))
RSet(r, i, x) == RCat(RPush(RTake(r, i), x), RDrop(r, i + 1))
RInsert(r, i, v) == RCat(RCat(RTake(r, i), v), RDrop(r, i))
RErase(r, i, j) == IF j > i THEN RCat(RTake(r, i), RDrop(r, j)) ELSE r
RSlice(r, i, j) == RDrop(RTake(r, j), i)

\* Sum of all elements, modulo 2^16 computed without overflow of TLC's integers
M16 == 65536
Mul16(a, b) == ((a % M16) * (b % 256) + (((a % M16) * ((b \div 256) % 256)) % M16) * 256) % M16
RunSum16(f, n) == \* f*n + n(n-1)/2
    LET h == IF n % 2 = 0 THEN Mul16(n \div 2, n - 1) ELSE Mul16(n, (n - 1) \div 2)
    IN (Mul16(f, n) + h) % M16
RECURSIVE RSum16(_, _)
RSum16(r, i) == IF i > Len(r) THEN 0
                ELSE (RunSum16(r[i][1], r[i][2]) + RSum16(r, i + 1)) % M16

\* The reverse as a list of descending runs: same pairs, read backwards
RRev(r) == [i \in 1..Len(r) |-> r[Len(r) + 1 - i]]

\* ---- plain sequences: the meaning of a run list ----
RECURSIVE Denote(_)
Denote(r) == IF r = <<>> THEN <<>>
             ELSE [i \in 1..r[1][2] |-> r[1][1] + i - 1] \o Denote(Tail(r))
RECURSIVE Encode(_)
Encode(s) == IF s = <<>> THEN <<>>
             ELSE RPush(Encode(SubSeq(s, 1, Len(s) - 1)), s[Len(s)])
=============================================================================
