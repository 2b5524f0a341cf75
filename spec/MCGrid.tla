------------------------------- MODULE MCGrid -------------------------------
(* The metrics as consequences of playing: every mine set of an NR x NC board *)
(* is an initial state; a click opens one closed safe cell with its opening.  *)
(* The specification's metrics must agree with what play shows.               *)
EXTENDS Grid, TLC
CONSTANTS NR, NC
VARIABLES b, gb, n
Closed(R, C) == [i \in 1..R |-> [j \in 1..C |-> 10]]
Init == /\ \E m \in SUBSET ((1..NR) \X (1..NC)) : b = NumberBoard(NR, NC, m)
        /\ gb = Closed(NR, NC) /\ n = 0
Click(p) == At(b, p) # -1 /\ At(gb, p) = 10 /\ gb' = OpenCells(b, gb, {p}) /\ n' = n + 1 /\ UNCHANGED b
Next == \E p \in Cells(b) : Click(p)
Spec == Init /\ [][Next]_<<b, gb, n>>

LegalBoard == Legal(b)
(* fewest clicks: nobody solves the board in fewer than 3BV clicks, and every *)
(* click raises the solved share by at most one                               *)
LowerBound == AllSafeOpen(b, gb) => n >= BBBV(b)
SolvedAtMost == Solved(b, gb) <= n
SolvedAll == AllSafeOpen(b, gb) <=> Solved(b, gb) = BBBV(b)
(* 3BV clicks suffice: a solved-raising click exists until the end *)
Reachable == (n = Solved(b, gb) /\ ~AllSafeOpen(b, gb)) =>
    \E p \in Cells(b) : At(b, p) # -1 /\ At(gb, p) = 10 /\
        Solved(b, OpenCells(b, gb, {p})) = n + 1
Partition == /\ \A p \in Cells(b) : At(b, p) \in -1..8
             /\ LET RECURSIVE S(_)
                    S(k) == IF k < 0 THEN 0 ELSE CellNum(b, k) + S(k - 1)
                IN  S(8) + Cardinality(Mines(b)) = NR * NC
             /\ UNION Openings(b) = Zeros(b)
             /\ UNION Islands(b) = Isolated(b)
             /\ \A c, d \in Openings(b) : c = d \/ \A p \in c : N(b, p) \cap d = {}
Flip(x) == [i \in 1..NR |-> x[NR + 1 - i]]
Symmetric == gb = Closed(NR, NC) =>
    LET f == Flip(b) IN Legal(f) /\ BBBV(f) = BBBV(b) /\ IslNum(f) = IslNum(b)
AtStart == n = 0
DumpBoard == n = 0 => PrintT(<<"BOARD", NR, NC, Mines(b)>>)
=============================================================================
