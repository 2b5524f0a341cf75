------------------------------- MODULE TraceLive -------------------------------
(* The histories of TraceVideo as the Python interface shows them: what a step *)
(* did is not reported, nor are the boards linked to the log, the cell size or *)
(* the device text.                                                            *)
EXTENDS TraceVideo, Final
Part(e) == [n \in {"e", "y", "x", "t", "lvl", "ms"} |-> e[n]]
LoggedThere == Seen => NoPanic /\
    /\ O.op \in {"step", "board"} => ((O.res = 9) <=> (res = 9))
    /\ O.nlog = Len(v.log)
    /\ v.log # <<>> => Part(Newest(O)) = Part(v.log[Len(v.log)])
    /\ i = Len(Line.ops) => Line.log = [k \in 1..Len(v.log) |-> Part(v.log[k])]
ShownThere == Seen => NoPanic /\
    /\ O.st = v.g.st /\ O.gb = ToString(v.g.gb) /\ O.mouse = MouseNo(v.g.mouse)
    /\ O.left = v.g.left /\ O.right = v.g.right /\ O.dbl = v.g.dbl /\ O.flag = v.g.flag
    /\ O.cl = v.g.left + v.g.right + v.g.dbl
    /\ O.h = Rows(v.b) /\ O.w = Cols(v.b)
    /\ (O.op = "board" /\ O.res = 0) => O.mines = NMines(v.b) /\ O.level = v.level
    /\ Ended(v) => O.done = (v.g.st = "Win")
    /\ \A k \in 1..Len(O.held) : O.held[k] = v.b
HeadThere == Seen => NoPanic /\
    /\ O.op = "set" => ((O.res = 9) <=> (res = 9))
    /\ \A k \in 1..7 : O.texts[k] = v.meta[Texts[k]]
    /\ O.official = v.meta.official /\ O.fair = v.meta.fair /\ O.mode = v.meta.mode
ReadThere == (Seen /\ O.op = "read") =>
    /\ \A n \in AtEnd \ {"qg", "op_solved", "isl_solved"} : O.got[n] = (IF Ended(v) THEN 1 ELSE 0)
    /\ \A n \in Never \ {"pixsize", "set_rtime"} : O.got[n] = 0
    /\ O.got.finite
Won3 == {2, 3}
FinalThere == (Seen /\ i = Len(Line.ops) /\ Ended(v)) =>
    \A f \in {Line.final} : \A evs \in {EvsOf(v.log)} :
    LET n == Len(evs)
        op == IF \E k \in 1..n : v.log[k].lvl \in Won3
              THEN CHOOSE k \in 1..n : v.log[k].lvl \in Won3 /\ \A j \in 1..(k - 1) : v.log[j].lvl \notin Won3 ELSE n
    IN  /\ FinalShown(f, v.b, v.g, v.rtime)
        /\ (\A k \in 1..Len(Line.ops) : Line.ops[k].op # "pix") => PathOK(f.path, Ways(v.b, v.pix, evs, op)[n], n, v.pix)
        /\ Line.statics = Statics(v.b)
===============================================================================
