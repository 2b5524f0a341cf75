-------------------------------- MODULE Grid --------------------------------
(* Minesweeper boards as data: a board is a sequence of rows of integers.    *)
(* -1 = mine, 0..8 = number of neighbouring mines.  A displayed board uses    *)
(* 0..8 opened, 10 closed, 11 flag, 12 known safe, 14 wrong flag, 15 hit mine *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Abs(x) == IF x < 0 THEN -x ELSE x

Rows(b) == Len(b)
Cols(b) == Len(b[1])
Cells(b) == (1..Rows(b)) \X (1..Cols(b))
OnBoard(b, p) == p[1] \in 1..Rows(b) /\ p[2] \in 1..Cols(b)

Box(R, C, p) == (Max2(1, p[1]-1)..Min2(R, p[1]+1)) \X (Max2(1, p[2]-1)..Min2(C, p[2]+1))
Nbr(R, C, p) == Box(R, C, p) \ {p}
N(b, p) == Nbr(Rows(b), Cols(b), p)

At(b, p) == b[p[1]][p[2]]

(* The board determined by a set of mines. *)
NumberBoard(R, C, mines) ==
    [i \in 1..R |-> [j \in 1..C |->
        IF <<i, j>> \in mines THEN -1
        ELSE Cardinality(Nbr(R, C, <<i, j>>) \cap mines)]]

Mines(b) == {p \in Cells(b) : At(b, p) = -1}
Zeros(b) == {p \in Cells(b) : At(b, p) = 0}

(* A legal board: a rectangle whose numbers are determined by its mines. *)
Rect(b) == \A i \in 1..Len(b) : Len(b[i]) = Len(b[1])
Legal(b) == Rect(b) /\ b = NumberBoard(Rows(b), Cols(b), Mines(b))

(* Least superset of S closed under stepping to a neighbour inside `within`  *)
RECURSIVE Closure(_, _, _, _)
Closure(b, S, frontier, within) ==
    LET new == TLCEval({q \in UNION {N(b, p) : p \in frontier} : q \in within /\ q \notin S})
    IN  IF new = {} THEN S ELSE Closure(b, TLCEval(S \cup new), new, within)

Component(b, p, within) == Closure(b, {p}, {p}, within)

RECURSIVE Components(_, _)
Components(b, rest) ==
    IF rest = {} THEN {}
    ELSE LET p == CHOOSE q \in rest : TRUE
             c == TLCEval(Component(b, p, rest))
         IN  {c} \cup Components(b, TLCEval(rest \ c))

(* ---- the static difficulty metrics, by definition ---- *)
(* 8-connected regions of zero cells *)
Openings(b) == Components(b, TLCEval(Zeros(b)))
(* numbers with no zero neighbour: each costs one click *)
Isolated(b) == {p \in Cells(b) : At(b, p) > 0 /\ \A q \in N(b, p) : At(b, q) # 0}
Islands(b) == Components(b, TLCEval(Isolated(b)))
OpNum(b) == Cardinality(Openings(b))
IslNum(b) == Cardinality(Islands(b))
BBBV(b) == OpNum(b) + Cardinality(Isolated(b))
CellNum(b, k) == Cardinality({p \in Cells(b) : At(b, p) = k})

(* ---- opening cells ---- *)
(* Cells opened when every cell of S is opened: S, and around every opened   *)
(* zero all neighbours that are still plainly closed (flags stay).           *)
RECURSIVE FloodR(_, _, _, _)
FloodR(b, gb, O, frontier) ==
    LET new == {q \in UNION {N(b, p) : p \in {x \in frontier : At(b, x) = 0}} :
                   At(gb, q) \in {10, 12}} \ O
    IN  IF new = {} THEN O ELSE FloodR(b, gb, O \cup new, new)
Flood(b, gb, S) == FloodR(b, gb, S, S)

OpenCells(b, gb, S) ==
    LET O == TLCEval(Flood(b, gb, S))
        hit == \E p \in O : At(b, p) = -1
    IN  TLCEval([i \in 1..Rows(b) |-> TLCEval([j \in 1..Cols(b) |->
           IF <<i, j>> \in O THEN (IF b[i][j] = -1 THEN 15 ELSE b[i][j])
           ELSE IF hit /\ gb[i][j] = 11 /\ b[i][j] # -1 THEN 14
           ELSE gb[i][j]])])

AllSafeOpen(b, gb) == \A p \in Cells(b) : At(b, p) # -1 => At(gb, p) = At(b, p)

(* Clicks' worth of board already solved: fully uncovered openings plus      *)
(* uncovered isolated numbers.                                               *)
Solved(b, gb) ==
      Cardinality({c \in Openings(b) : \A p \in c : At(gb, p) = 0})
    + Cardinality({p \in Isolated(b) : At(gb, p) = At(b, p)})
=============================================================================
