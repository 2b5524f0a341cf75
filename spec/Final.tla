--------------------------------- MODULE Final ---------------------------------
(* What is shown of a whole game.                                             *)
EXTENDS Video, Stats, SequencesExt
Statics(b) == <<BBBV(b), OpNum(b), IslNum(b)>> \o [k \in 1..9 |-> CellNum(b, k - 1)]
EvsOf(log) == [k \in 1..Len(log) |-> [e |-> log[k].e, y |-> log[k].y, x |-> log[k].x, t |-> log[k].t]]
FinalShown(s, b, g, tm) ==      \* s as shown after the whole game
    LET bv == BBBV(b) IN
    /\ s.left = g.left /\ s.right = g.right /\ s.dbl = g.dbl /\ s.cl = g.left + g.right + g.dbl
    /\ s.flag = g.flag /\ s.ce = g.ce /\ s.solved = g.solved
    /\ Etime(s.etime, tm, g.solved, bv) /\ Rqp(s.rqp, tm, g.solved)
    /\ Ratio(s.corr, g.ce, s.cl) /\ Ratio(s.thrp, g.solved, g.ce) /\ Ratio(s.ioe, g.solved, s.cl)
    /\ tm > 0 => /\ Rate(s.left_s, g.left, tm) /\ Rate(s.right_s, g.right, tm) /\ Rate(s.dbl_s, g.dbl, tm)
                 /\ Rate(s.cl_s, s.cl, tm) /\ Rate(s.flag_s, g.flag, tm) /\ Rate(s.ce_s, g.ce, tm)
                 /\ Rate(s.bbbv_s, g.solved, tm)
                 /\ Stnb(s.stnb, Rows(b), Cols(b), NMines(b), tm, g.solved, bv)
FinalStats(s, b, g, tm) == FinalShown(s, b, g, tm) /\ Qg(s.qg, tm, g.solved)

Out(b, pix, e) == e.y >= Rows(b) * pix /\ e.x >= Cols(b) * pix
(* hundredths of pixels gone since the opening, by event (rounded down), and  *)
(* how many roundings                                                         *)
Ways(b, pix, evs, op) ==
    LET step(acc, k) ==
            LET e == evs[k]
                o == Out(b, pix, e)
                s2 == IF op > 0 /\ k > op /\ ~o THEN acc.s + Dist(<<e.y, e.x>>, acc.last) ELSE acc.s
            IN  [last |-> IF o THEN acc.last ELSE <<e.y, e.x>>, s |-> s2, way |-> Append(acc.way, s2)]
    IN  FoldLeft(step, [last |-> <<evs[1].y, evs[1].x>>, s |-> 0, way |-> <<>>], [k \in 1..Len(evs) |-> k]).way
PathOK(shown, way, n, pix) ==      \* scaled to cells of 16 pixels
    /\ shown * pix >= 16 * way - pix /\ shown * pix <= 16 * (way + 10 * n) + pix
================================================================================
