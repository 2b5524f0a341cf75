------------------------------ MODULE TraceVideo ------------------------------
(* Recorded histories of calls on a live video, against Video.tla.            *)
EXTENDS Video, TLC, Json, IOUtils
Lines == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, i, v, res, w
Line == Lines[t]

MouseNo(m) == CASE m = "UpUp" -> 1 [] m = "UpDown" -> 2 [] m = "UpDownNotFlag" -> 3 [] m = "DownUp" -> 4
                [] m = "Chording" -> 5 [] m = "ChordingNotFlag" -> 6 [] m = "DownUpAfterChording" -> 7 [] OTHER -> 8

Newest(o) == o.last[1]
(* the clock and the time stamps come from outside: they are taken over here  *)
(* and judged by Clock and Stamps                                             *)
Step(o) ==
    LET time == IF o.nlog > 0 THEN Newest(o).t ELSE 0
        r == RecStep(v, o.e, <<o.y, o.x>>, time)
        opens == v.g.st # "Playing" /\ r.v.g.st \in {"Playing", "Win", "Loss"} /\ ~Ended(v)
        ends == ~Ended(v) /\ Ended(r.v)
    IN  Res([r.v EXCEPT !.meta.start = IF opens THEN o.texts[5] ELSE @,
                        !.meta.end = IF ends THEN o.texts[6] ELSE @], r.res)
Value(o) == IF o.field \in {"official", "fair"} THEN o.num = 1 ELSE IF o.field = "mode" THEN o.num ELSE o.val
Apply(o) ==
    CASE o.op = "step"  -> Step(o)
      [] o.op = "set"   -> SetMeta(v, o.field, Value(o))
      [] o.op = "reset" -> Res(Reset(v, o.r, o.c, o.p), 0)
      [] o.op = "board" -> SetBoard(v, o.b)
      [] o.op = "pix"   -> SetPix(v, o.p)
      [] o.op = "mark"  -> Res(FlagAll(v), 0)
      [] o.op = "show"  -> Res(ShowAll(v), 0)
      [] o.op = "read"  -> Res(v, 0)
      [] o.op = "check" -> SetCheck(v, o.c)
      [] o.op = "gen"   -> Res(Generate(v), 0)
Init == /\ t \in 1..Len(Lines) /\ i = 0 /\ res = 0 /\ w = <<0, 0>>
        /\ v = NewVideo(Lines[t].b, Lines[t].pix)
Next == /\ i < Len(Line.ops) /\ i' = i + 1 /\ t' = t
        /\ LET o == Line.ops[i + 1]
               r == Apply(o)
           IN  /\ v' = r.v /\ res' = r.res
               /\ w' = IF v.log = <<>> /\ r.v.log # <<>> THEN <<o.wmin, o.wmax>> ELSE w
Spec == Init /\ [][Next]_<<t, i, v, res, w>>

O == Line.ops[i]
Seen == i > 0
NoPanic == O.res # 99
Same(a, b) == \A n \in DOMAIN b : a[n] = b[n]

(* the log and the linked boards *)
Logged == Seen => NoPanic /\
    /\ O.op \in {"step", "board", "pix"} => O.res = res
    /\ O.nlog = Len(v.log) /\ O.nboards = Len(v.boards)
    /\ v.log # <<>> => Newest(O) = v.log[Len(v.log)]
    /\ v.boards # <<>> => O.shown = ToString(v.boards[Len(v.boards)])
    /\ i = Len(Line.ops) => /\ Line.log = v.log
                            /\ Line.boards = [k \in 1..Len(v.boards) |-> ToString(v.boards[k])]
(* the video shows the game *)
Shows == Seen => NoPanic /\
    /\ O.st = v.g.st /\ O.gb = ToString(v.g.gb) /\ O.mouse = MouseNo(v.g.mouse)
    /\ O.left = v.g.left /\ O.right = v.g.right /\ O.dbl = v.g.dbl /\ O.flag = v.g.flag
    /\ O.cl = v.g.left + v.g.right + v.g.dbl
    /\ O.h = Rows(v.b) /\ O.w = Cols(v.b) /\ O.pix = v.pix
    /\ (O.op = "board" /\ O.res = 0) => O.mines = NMines(v.b) /\ O.level = v.level
    /\ Ended(v) => O.done = (v.g.st = "Win")
(* after the end every mine is seen once marked or shown                      *)
Revealed == (Seen /\ O.op \in {"mark", "show"}) => NoPanic /\
    /\ (O.op = "mark" /\ v.g.st = "Win") => \A p \in Cells(v.b) : At(v.g.gb, p) = (IF At(v.b, p) = -1 THEN 11 ELSE At(v.b, p))
    /\ (O.op = "show" /\ v.g.st = "Loss") => \A p \in Mines(v.b) : At(v.g.gb, p) \in {11, 15, 16}
(* times: the first entry at 0, then what the clock says; the playing time    *)
(* runs from the opening to the last event                                    *)
Clock == Seen => NoPanic /\
    /\ (O.op = "step" /\ Len(v.log) = 1) => v.log[1].t = 0
    /\ (O.op = "step" /\ ~Ended(v) /\ Len(v.log) > 1 /\ O.res = 0) =>
          v.log[Len(v.log)].t \in (O.wmin - w[2] - 1)..(O.wmax - w[1] + 1)
    /\ \A k \in 2..Len(v.log) : v.log[k].t >= v.log[k - 1].t
    /\ O.rtime = (IF Ended(v) THEN v.rtime ELSE -1) /\ O.rtimems = O.rtime
    (* the counter on display *)
    /\ CASE Ended(v) -> O.clk = v.rtime
         [] v.g.st = "Ready" -> O.clk = 0
         [] OTHER -> LET since == IF v.g.st = "Playing" THEN v.open ELSE 0
                     IN  O.clk >= 0 /\ O.clk \in (O.cmin - w[2] - since - 1)..(O.cmax - w[1] - since + 1)
Digits(s) == Len(s) >= 15 /\ \A k \in 1..Len(s) : s[k] \in 48..57
(* metadata: set only in the phases that allow it, otherwise unchanged        *)
Header == Seen => NoPanic /\
    /\ O.op = "set" => O.res = res
    /\ O.texts = [k \in 1..8 |-> v.meta[Texts[k]]]
    /\ O.official = v.meta.official /\ O.fair = v.meta.fair /\ O.mode = v.meta.mode
    /\ O.op = "step" => LET j == Len(v.log)
                        IN  (j > 0 /\ i = 1) => TRUE
Stamps == (Seen /\ O.op = "step" /\ Ended(v) /\ (i = 1 \/ Line.ops[i - 1].st \notin {"Win", "Loss"})) =>
    Digits(O.texts[5]) /\ Digits(O.texts[6])
(* results can be read in the phases that have them                           *)
AtEnd == {"rtime", "rtime_ms", "raw", "checksum", "solved", "ce", "etime", "bbbv_s", "stnb", "rqp", "qg", "ce_s", "corr",
          "thrp", "ioe", "op_solved", "isl_solved"}
Never == {"video_start", "video_end", "xy", "pixsize", "event_id", "set_rtime"}
Readable == (Seen /\ O.op = "read") =>
    /\ \A n \in AtEnd : O.got[n] = (IF Ended(v) THEN 1 ELSE 0)
    /\ \A n \in Never : O.got[n] = 0
    /\ O.got.finite
(* the checksum and the bytes *)
Zero32 == [k \in 1..32 |-> 0]
Attached == Seen => NoPanic /\
    /\ O.op \in {"check", "gen"} => O.res = res
    /\ O.op \in {"check", "gen"} => O.raw = v.raw
    /\ O.rawlen = (IF Ended(v) THEN Len(v.raw) ELSE -1)
    /\ (Ended(v) /\ v.check # <<>>) => O.check = v.check
(* a board laid anew during the game keeps what is on display: the histories   *)
(* the recorder is specified for                                              *)
Fed == (Seen /\ O.op = "board" /\ O.res = 0 /\ v.g.st = "Playing") =>
    /\ \A p \in Cells(v.b) : At(v.g.gb, p) < 10 => At(v.b, p) = At(v.g.gb, p)
    /\ Solved(v.b, v.g.gb) = v.g.solved
=============================================================================
