------------------------------ MODULE MCSolver ------------------------------
(* A player learns a board: opens safe cells (guessing or knowing), marks     *)
(* cells that are certain.  The block-wise operators of Solver.tla must agree *)
(* with the naive definition over all arrangements, and knowledge must grow.  *)
EXTENDS Solver
CONSTANTS NR, NC, Marks, MaxMines
VARIABLES b, gb
ASSUME \A n \in 0..40 : \A lo \in {0 - 2, 0, 1, 7, 39} : LET w == lo + 9 r == BinomialRow(n) IN
          Binomials(n, lo, w) = [j \in 1..10 |-> IF lo + j - 1 < 0 \/ lo + j - 1 > n THEN <<>> ELSE r[lo + j]]
vars == <<b, gb>>
Init == /\ \E m \in SUBSET ((1..NR) \X (1..NC)) :
             Cardinality(m) <= MaxMines /\ b = NumberBoard(NR, NC, m)
        /\ gb = AllClosed(NR, NC)
Open(p) == At(b, p) # -1 /\ At(gb, p) \in {10, 12} /\ gb' = OpenCells(b, gb, {p}) /\ UNCHANGED b
MarkMine(p) == Marks /\ At(gb, p) = 10 /\ p \in CertainMine(gb) /\ gb' = Mark(gb, {p}, 11) /\ UNCHANGED b
MarkSafe(p) == Marks /\ At(gb, p) = 10 /\ p \in CertainSafe(gb) /\ gb' = Mark(gb, {p}, 12) /\ UNCHANGED b
Next == \E p \in Cells(b) : Open(p) \/ MarkMine(p) \/ MarkSafe(p)
Spec == Init /\ [][Next]_vars
View == <<b, gb>>

Known12 == {p \in Cells(gb) : At(gb, p) = 12}
Hidden == Mines(b) \cap Unknown(gb)
(* the true layout is one of the arrangements; so nothing certain is false *)
TruthPossible == Agrees(gb, Hidden) /\ Consistent(gb)
                 /\ CertainSafe(gb) \cap Mines(b) = {} /\ CertainMine(gb) \subseteq Mines(b)
                 /\ Marked(gb) \subseteq Mines(b) /\ Known12 \cap Mines(b) = {}
(* blocks lose nothing: certain cells, counts and opening counts agree with  *)
(* the definition over all arrangements                                      *)
Exact ==
    LET all == TLCEval(NaiveArrangements(gb, Unknown(gb)))
        M == Cardinality(Mines(b))
        some == {m \in all : Cardinality(m) + Cardinality(Marked(gb)) = M}
        cnt == Count(gb, M)
        sizes == {Cardinality(m) + Cardinality(Marked(gb)) : m \in all}
    IN  /\ CertainSafe(gb) = {c \in Border(gb) : \A m \in all : c \notin m}
        /\ CertainMine(gb) = {c \in Border(gb) : \A m \in all : c \in m}
        /\ \A c \in Interior(gb) : (\E m \in all : c \in m) /\ (\E m \in all : c \notin m)
        /\ cnt.total = BNat(Cardinality(some))
        /\ \A c \in Border(gb) : cnt.cell[c] = BNat(Cardinality({m \in some : c \in m}))
        /\ \A c \in Interior(gb) : cnt.inner = BNat(Cardinality({m \in some : c \in m}))
        /\ cnt.min = Min(sizes) /\ cnt.max = Max(sizes)
        /\ \A p \in Unknown(gb) : OpeningWays(gb, M, p) =
               BNat(Cardinality({m \in some : m \cap (N(gb, p) \cup {p}) = {} /\ Marked(gb) \cap N(gb, p) = {}}))
(* regions are independent: what is certain in a region does not depend on   *)
(* the numbers outside it                                                    *)
Regions == \A p \in Unknown(gb) :
    LET r == GrowRegion(gb, {p})
        forget == [i \in 1..NR |-> [j \in 1..NC |->
                     IF gb[i][j] \in 0..8 /\ Front(gb, <<i, j>>) \cap r = {} THEN 12 ELSE gb[i][j]]]
    IN  CertainSafe(forget) \cap r = CertainSafe(gb) \cap r
        /\ CertainMine(forget) \cap r = CertainMine(gb) \cap r
(* playing on only certain cells never hits a mine and is independent of the *)
(* order: if the deductive player finishes, it is because nothing is unclear *)
Deductive == (gb # AllClosed(NR, NC) /\ CertainSafe(gb) = {} /\ ~AllSafeOpen(b, gb) /\ Known12 = {})
                => ~Deduce(b, gb)
(* and the stages of Deduce lose nothing against opening certain cells only  *)
RECURSIVE PlayCertain(_)
PlayCertain(g) == IF AllSafeOpen(b, g) THEN TRUE
                  ELSE LET S == TLCEval(CertainSafe(g)) IN IF S = {} THEN FALSE ELSE PlayCertain(TLCEval(OpenCells(b, g, S)))
Staged == Deduce(b, gb) = PlayCertain(gb)
(* knowledge only grows *)
Learning == [][ /\ CertainSafe(gb) \subseteq
                     CertainSafe(gb') \cup Opened(gb') \cup {p \in Cells(gb') : At(gb', p) = 12}
                /\ CertainMine(gb) \subseteq CertainMine(gb') \cup Marked(gb') ]_vars
DumpPos == PrintT(<<"POS", Cardinality(Mines(b)), gb>>)
ViewPos == <<Cardinality(Mines(b)), gb>>
=============================================================================
