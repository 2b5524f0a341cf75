------------------------------ MODULE TraceBound ------------------------------
(* The games of TraceGame as the Python and JavaScript interfaces show them:   *)
(* states are numbers, a rejected event raises, the level is not shown; and    *)
(* the two planes learning programs get (codes, and odds of a mine).           *)
EXTENDS TraceGame
S == INSTANCE Solver
StateNo(s) == CASE s = "Ready" -> 1 [] s = "Playing" -> 2 [] s = "Win" -> 3 [] s = "Loss" -> 4
                [] s = "PreFlaging" -> 5 [] s = "Display" -> 6
HandNo(m) == CASE m = "UpUp" -> 1 [] m = "UpDown" -> 2 [] m = "UpDownNotFlag" -> 3 [] m = "DownUp" -> 4
               [] m = "Chording" -> 5 [] m = "ChordingNotFlag" -> 6 [] m = "DownUpAfterChording" -> 7 [] OTHER -> 8
ShownState == Seen => NoPanic /\ O.st = StateNo(g.st) /\ ((O.ret = 9) <=> (ret = 9))
ShownHand == Seen => NoPanic /\ O.ms = HandNo(g.mouse)
Code(x) == CASE x = 10 -> -1 [] x = 11 -> -2 [] OTHER -> x
Planes == (Seen /\ O.odds # <<>>) =>
    \A gb \in {S!Plain(g.gb)} : \A cnt \in {S!Count(gb, Cardinality(Mines(B)))} :
    /\ Len(O.codes) = Rows(B) /\ Len(O.odds) = Rows(B)
    /\ \A p \in Cells(B) :
          /\ At(O.codes, p) = Code(At(g.gb, p))
          /\ LET x == At(O.odds, p)
             IN  IF At(gb, p) < 10 THEN x = 0
                 ELSE x >= 0 /\ cnt.total # <<>> /\ S!BClose(x, IF p \in cnt.listed THEN cnt.cell[p] ELSE cnt.inner, cnt.total, 2)
===============================================================================
