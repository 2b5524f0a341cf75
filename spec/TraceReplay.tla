----------------------------- MODULE TraceReplay -----------------------------
(* Recorded games: the live log, the file, the parsed file, and its replay;   *)
(* playback of analysed files.                                                *)
EXTENDS Final, Batch, FiniteSetsExt
S == INSTANCE Solver
Game0 == O.op = "game"
Timed == O.op = "timed"
Zero32 == [k \in 1..32 |-> 0]

(* ---------------- C16: file and back ---------------- *)
FileWanted ==
    [done |-> O.hdr.done, official |-> O.hdr.official, fair |-> O.hdr.fair, h |-> Rows(O.b), w |-> Cols(O.b),
     mines |-> NMines(O.b), pix |-> O.pix, mode |-> O.hdr.mode, bbbv |-> BBBV(O.b), rtime |-> O.hdr.rtime,
     strs |-> O.hdr.strs, bits |-> MineBits(O.b),
     ev |-> [k \in 1..Len(O.log) |-> <<O.log[k].e, O.log[k].t, O.log[k].x, O.log[k].y>>], check |-> O.attached]
RoundTrip == Game0 =>
    /\ O.gen /\ O.out = 1
    /\ O.raw = Encode(FileWanted, O.raw[1]) /\ O.raw[1] \in {0, 2}
    /\ SameFile(FileWanted, Decode(O.raw))
    /\ LET g == O.got IN
        /\ g.done = O.hdr.done /\ g.official = O.hdr.official /\ g.fair = O.hdr.fair
        /\ g.h = Rows(O.b) /\ g.w = Cols(O.b) /\ g.mines = NMines(O.b) /\ g.pix = O.pix /\ g.mode = O.hdr.mode
        /\ g.bbbv = BBBV(O.b) /\ g.rtime = O.hdr.rtime /\ g.rtimems = O.hdr.rtime
        /\ g.level = LevelOf(O.b)
        /\ g.strs = O.hdr.strs /\ g.board = O.b /\ g.ev = FileWanted.ev
        /\ g.check = (IF O.attached = <<>> THEN Zero32 ELSE O.attached)
VersionByte == (Game0 /\ O.gen) => O.raw[1] = 0

(* ---------------- C17: replay equals play ---------------- *)
Counters == {"left", "right", "dbl", "cl", "flag", "ce", "solved"}
Derived == {"path", "etime", "rqp", "qg", "corr", "thrp", "ioe"}
Rates == {"left_s", "right_s", "dbl_s", "cl_s", "flag_s", "bbbv_s", "ce_s", "stnb"}
BoardsOf(b, gs) ==
    LET hit == SelectSeq([k \in 1..Len(gs) |-> k], LAMBDA k : gs[k].ret \in 1..3)
    IN  <<ToString(InitGame(b).gb)>> \o [n \in 1..Len(hit) |-> ToString(gs[hit[n]].g.gb)]
Sames(a, b, F, tol) == \A n \in F : a[n] - b[n] \in (0 - tol)..tol
ReplayEqual == Game0 =>
    /\ O.out = 1 /\ O.analysed
    /\ O.rlog = O.log /\ O.rboards = O.boards
    /\ O.rhdr = [O.hdr EXCEPT !.check = O.rhdr.check, !.level = LevelOf(O.b)]
    /\ O.end = O.hdr.rtime
    /\ Sames(O.stats, O.rstats, Counters \cup {"mouse"}, 0)
    /\ Sames(O.stats, O.rstats, Derived, 1)
    /\ O.hdr.rtime > 0 => Sames(O.stats, O.rstats, Rates, 1)
    /\ O.statics = O.rstatics
(* and both are what the specification plays *)
ReplayTrue == (Game0 /\ O.out = 1 /\ O.analysed) =>
    LET evs == EvsOf(O.log)
        gs == TLCEval(Games(O.b, O.pix, evs))
        op == Opening(gs)
        z == gs[Len(gs)].g
    IN  /\ O.rlog = Replay(evs, gs)
        /\ O.rboards = BoardsOf(O.b, gs)
        /\ op > 0 /\ O.start = 0 - evs[op].t /\ O.end = evs[Len(evs)].t - evs[op].t
        /\ O.rhdr.done = (z.st = "Win") /\ O.hdr.done = (z.st = "Win") /\ z.st \in {"Win", "Loss"}
        /\ O.rstatics = Statics(O.b)
        /\ FinalStats(O.stats, O.b, z, O.hdr.rtime) /\ FinalStats(O.rstats, O.b, z, O.hdr.rtime)

(* ---------------- playback of analysed files ---------------- *)
(* the first event has a place; outside points take the last place inside    *)
(* (a point right of the board but not below it may as well stand for itself) *)
RECURSIVE Places1(_, _, _, _)
Places1(b, pix, evs, k) ==
    IF evs[k].x < Cols(b) * pix \/ k = 1 THEN {<<evs[k].x, evs[k].y>>}
    ELSE Places1(b, pix, evs, k - 1) \cup IF evs[k].y < Rows(b) * pix THEN {<<evs[k].x, evs[k].y>>} ELSE {}
MouseNo(m) == CASE m = "UpUp" -> 1 [] m = "UpDown" -> 2 [] m = "UpDownNotFlag" -> 3 [] m = "DownUp" -> 4
                [] m = "Chording" -> 5 [] m = "ChordingNotFlag" -> 6 [] m = "DownUpAfterChording" -> 7 [] OTHER -> 8
Scaled(shown, x, pp, pix) == shown * pix - x * pp \in (0 - pix)..pix

View(v, X, k, tm, pp) ==
    LET g == X.gs[k].g
    IN  /\ v.id = k /\ v.time = tm /\ v.shown = tm
        /\ v.left = g.left /\ v.right = g.right /\ v.dbl = g.dbl /\ v.cl = g.left + g.right + g.dbl
        /\ v.flag = g.flag /\ v.ce = g.ce /\ v.solved = g.solved /\ v.mouse = MouseNo(g.mouse)
        /\ v.gb = X.boards[X.at[k]]
        /\ \/ \E p \in Places1(X.b, X.pix, X.evs, k) : Scaled(v.x, p[1], pp, X.pix) /\ Scaled(v.y, p[2], pp, X.pix)
           \* nowhere to show it yet
           \/ /\ v.x = -1 /\ v.y = -1
              /\ \A j \in 1..k : X.evs[j].x >= Cols(X.b) * X.pix
ViewStats(v, X, k, tm) ==
    LET g == X.gs[k].g
        cl == g.left + g.right + g.dbl
    IN  /\ Rate(v.left_s, g.left, tm) /\ Rate(v.right_s, g.right, tm) /\ Rate(v.dbl_s, g.dbl, tm)
        /\ Rate(v.cl_s, cl, tm) /\ Rate(v.flag_s, g.flag, tm) /\ Rate(v.ce_s, g.ce, tm) /\ Rate(v.bbbv_s, g.solved, tm)
        /\ tm >= 0 => Etime(v.etime, tm, g.solved, X.bv) /\ Rqp(v.rqp, tm, g.solved)
        /\ (tm >= 0 /\ (k % 9 = 0 \/ k = Len(X.gs))) =>          \* costly: high powers
              Qg(v.qg, tm, g.solved) /\ Stnb(v.stnb, Rows(X.b), Cols(X.b), X.mines, tm, g.solved, X.bv)
        /\ Ratio(v.corr, g.ce, cl) /\ Ratio(v.thrp, g.solved, g.ce) /\ Ratio(v.ioe, g.solved, cl)
        /\ PathOK(v.path, X.way[k], k, X.pix)
Setup ==
    LET gs == Games(O.b, O.pix, O.ev)
        op == Opening(gs)
        at == [k \in 1..Len(gs) |-> Shown(gs, k)]
    IN  TLCEval([b |-> O.b, pix |-> O.pix, evs |-> O.ev, gs |-> gs, op |-> op, at |-> at, boards |-> BoardsOf(O.b, gs),
         bv |-> BBBV(O.b), mines |-> O.mines, open |-> O.ev[op].t,
         way |-> Ways(O.b, O.pix, O.ev, op),
         times |-> [k \in 1..Len(gs) |-> O.ev[k].t],
         lo |-> 0 - O.ev[op].t, hi |-> O.ev[Len(gs)].t - O.ev[op].t])
Analysed == Timed => O.out = 1 /\ O.analysed
ReplayTimed == (Timed /\ O.out = 1 /\ O.analysed) =>
    \A X \in {Setup} :
    /\ O.rlog = Replay(O.ev, X.gs) /\ O.rboards = X.boards
    /\ O.done = (X.gs[Len(X.gs)].g.st = "Win") /\ O.rstatics = Statics(O.b)
    /\ O.start = X.lo /\ O.end = X.hi
    /\ \A k \in 1..Len(O.visits) : ViewStats(O.visits[k], X, k, X.times[k] - X.open)
(* C19 *)
(* the event shown and the time after a seek *)
Sought(X, at, o) ==
    CASE o.op = "time"  -> <<LastNotLater(X.times, o.arg + X.open), Clamp(X.lo, X.hi, o.arg)>>
      [] o.op = "event" -> <<o.arg, X.times[o.arg] - X.open>>
      [] OTHER -> at
Places(X, at0) == FoldLeft(LAMBDA acc, o : Append(acc, Sought(X, acc[Len(acc)], o)), <<at0>>, O.seeks)
(* probabilities: even before anything is opened, then those of the position  *)
OpenedBy(X, k) == \E j \in 1..k : X.gs[j].ret \in {2, 3}
Odds(o, X, k) == o.poss = <<>> \/
    LET n == X.mines
    IN  IF ~OpenedBy(X, k)
        THEN \A p \in Cells(X.b) : LET x == At(o.poss, p) IN x >= 0 /\ BClose(x, BNat(n), BNat(Rows(X.b) * Cols(X.b)), 1)
        ELSE LET last == IF \E j \in 1..k : X.gs[j].ret \in 1..3
                         THEN CHOOSE j \in 1..k : X.gs[j].ret \in 1..3 /\ \A m \in (j + 1)..k : X.gs[m].ret \notin 1..3 ELSE 0
                 gb == TLCEval(S!Plain(X.gs[last].g.gb))
                 cnt == TLCEval(S!Count(gb, n))
             IN  \A p \in Cells(X.b) :
                    LET x == At(o.poss, p)
                        w == IF At(gb, p) < 10 THEN <<>> ELSE IF p \in cnt.listed THEN cnt.cell[p] ELSE cnt.inner
                    IN  x >= 0 /\ BClose(x, w, cnt.total, 2)
PlaybackOdds == (Timed /\ O.out = 1 /\ O.analysed) =>
    \A X \in {Setup} : \A at \in {Places(X, <<Len(O.visits), X.times[Len(O.visits)] - X.open>>)} :
        \A m \in 1..Len(O.seeks) : Odds(O.seeks[m], X, at[m + 1][1])
Playback == (Timed /\ O.out = 1 /\ O.analysed) =>
    \A X \in {Setup} :
    /\ \A k \in 1..Len(O.visits) : View(O.visits[k], X, k, X.times[k] - X.open, X.pix)
    /\ \A at \in {Places(X, <<Len(O.visits), X.times[Len(O.visits)] - X.open>>)} :
          \A n \in 1..Len(O.seeks) : O.seeks[n].res = 0 /\ View(O.seeks[n], X, at[n + 1][1], at[n + 1][2], O.seeks[n].pp)
(* as the other interfaces show it: states by number, and the odds before an   *)
(* event                                                                       *)
ByNumber == (Timed /\ O.out = 1 /\ O.analysed) =>
    /\ Len(O.msn) = Len(O.rlog) /\ \A k \in 1..Len(O.rlog) : O.msn[k] = MouseNo(O.rlog[k].ms)
    /\ \A X \in {Setup} : \A n \in 1..Len(O.priors) : Odds([poss |-> O.priors[n][2]], X, O.priors[n][1] - 1)
(* C21: nothing of a video is left after a reset to another size               *)
Renewed == (Timed /\ O.out = 1 /\ O.analysed) =>
    \A f \in {O.renewed} : \A v \in {Reset(NewVideo(O.b, O.pix), f.nr, f.nc, f.np)} :
        /\ f.ok /\ f.st = v.g.st /\ f.h = Rows(v.b) /\ f.w = Cols(v.b) /\ f.pix = v.pix
        /\ f.gb = ToString(v.g.gb) /\ f.nlog = Len(v.log) /\ f.nboards = Len(v.boards)
        /\ f.clicks = v.g.left + v.g.right + v.g.dbl + v.g.flag
        /\ f.clk = 0 /\ f.rates = 0 /\ f.bbbv = 0 /\ f.closed
=============================================================================
