-------------------------------- MODULE Bytes --------------------------------
(* Reading byte sequences d at 1-based positions.                             *)
EXTENDS Integers, Sequences
Bad == [ok |-> FALSE]
Has(d, p, n) == p >= 1 /\ p + n - 1 <= Len(d)          \* n bytes from p on
B16(d, p) == d[p] * 256 + d[p + 1]
B24(d, p) == d[p] * 65536 + d[p + 1] * 256 + d[p + 2]
Sub(d, p, n) == SubSeq(d, p, p + n - 1)
(* first position >= p where byte c stands, 0 if there is none *)
RECURSIVE Find(_, _, _)
Find(d, p, c) == IF p > Len(d) THEN 0 ELSE IF d[p] = c THEN p ELSE Find(d, p + 1, c)
IsDigits(s) == Len(s) > 0 /\ \A k \in 1..Len(s) : s[k] \in 48..57
RECURSIVE NumOf(_)
NumOf(s) == IF s = <<>> THEN 0 ELSE 10 * NumOf(SubSeq(s, 1, Len(s) - 1)) + (s[Len(s)] - 48)
(* numbers of a board from its set of mines, M[i][j] TRUE for a mine *)
Numbered(h, w, M(_, _)) ==
    [i \in 1..h |-> [j \in 1..w |->
        IF M(i, j) THEN -1
        ELSE LET A == {k \in (IF i = 1 THEN 1 ELSE i - 1)..(IF i = h THEN h ELSE i + 1) : TRUE}
                 B == {k \in (IF j = 1 THEN 1 ELSE j - 1)..(IF j = w THEN w ELSE j + 1) : TRUE}
                 RECURSIVE Cnt(_)
                 Cnt(S) == IF S = {} THEN 0
                           ELSE LET x == CHOOSE x \in S : TRUE
                                IN  (IF M(x[1], x[2]) THEN 1 ELSE 0) + Cnt(S \ {x})
             IN  Cnt(A \X B)]]
=============================================================================
