-------------------------------- MODULE Game --------------------------------
(* The live/playback game state machine: one mouse, one board.               *)
(* A game record g has                                                       *)
(*   gb     displayed board            st     game state                     *)
(*   mouse  mouse automaton state      pre    flags placed before the start  *)
(*   hold   middle button down         fl     mines ever flagged             *)
(*   left right dbl ce flag solved     the counters                          *)
(* MouseStep(b, g, e, p) is the complete transition function: the result     *)
(* [g, ret] where ret is 0 (no effect) 1 (flag toggled) 2 (cells opened)     *)
(* 3 (effective chord) or 9 (event rejected).                                *)
EXTENDS Grid

GameStates == {"Ready", "PreFlaging", "Playing", "Win", "Loss"}
MouseStates == {"UpUp", "UpDown", "UpDownNotFlag", "DownUp", "Chording",
                "ChordingNotFlag", "DownUpAfterChording"}
Events == {"mv", "lc", "lr", "l", "rc", "rr", "r", "mc", "mr", "m", "cc",
           "crl", "crr", "pf"}

InitGame(b) ==
    [gb |-> TLCEval([i \in 1..Rows(b) |-> TLCEval([j \in 1..Cols(b) |-> 10])]),
     st |-> "Ready", mouse |-> "UpUp", pre |-> 0, hold |-> FALSE, fl |-> {},
     left |-> 0, right |-> 0, dbl |-> 0, ce |-> 0, flag |-> 0, solved |-> 0]

R(g, ret) == [g |-> g, ret |-> ret]
Rejected(g) == R(g, 9)
Mouse(g, m) == [g EXCEPT !.mouse = m]

SetCell(gb, p, v) == TLCEval([gb EXCEPT ![p[1]][p[2]] = v])

(* a finished left click on p *)
LeftClick(b, g0, p) ==
    LET g == [g0 EXCEPT !.left = @ + 1]
    IN  IF At(g.gb, p) # 10 THEN R(g, 0)
        ELSE LET gb2 == OpenCells(b, g.gb, {p})
             IN  IF At(b, p) = -1 THEN R([g EXCEPT !.gb = gb2, !.st = "Loss"], 0)
                 ELSE R([g EXCEPT !.gb = gb2, !.ce = @ + 1, !.solved = Solved(b, gb2),
                                  !.st = IF AllSafeOpen(b, gb2) THEN "Win" ELSE @], 2)

(* a right press on p *)
RightClick(b, g0, p) ==
    LET g == [g0 EXCEPT !.right = @ + 1]
        v == At(g.gb, p)
    IN  IF v = 10 THEN
             R([g EXCEPT !.gb = SetCell(@, p, 11), !.flag = @ + 1,
                         !.ce = IF At(b, p) = -1 /\ p \notin g.fl THEN @ + 1 ELSE @,
                         !.fl = IF At(b, p) = -1 THEN @ \cup {p} ELSE @], 1)
        ELSE IF v = 11 THEN R([g EXCEPT !.gb = SetCell(@, p, 10), !.flag = @ - 1], 1)
        ELSE R(g, 0)

ChordCells(b, gb, p) == {q \in N(b, p) : At(gb, q) = 10}
ChordWorks(b, gb, p) ==
    /\ At(gb, p) \in 1..7
    /\ Cardinality({q \in N(b, p) : At(gb, q) = 11}) = At(gb, p)
    /\ ChordCells(b, gb, p) # {}

(* both buttons released on p *)
Chord(b, g0, p) ==
    LET g == [g0 EXCEPT !.dbl = @ + 1]
    IN  IF ~ChordWorks(b, g.gb, p) THEN R(g, 0)
        ELSE LET S == ChordCells(b, g.gb, p)
                 gb2 == OpenCells(b, g.gb, S)
                 hit == \E q \in S : At(b, q) = -1
             IN  R([g EXCEPT !.gb = gb2, !.ce = @ + 1, !.solved = Solved(b, gb2),
                             !.st = IF hit THEN "Loss"
                                    ELSE IF AllSafeOpen(b, gb2) THEN "Win" ELSE @], 3)

(* the left button comes up while both are down: mouse goes to m *)
ReleaseChord(b, g0, p, m) ==
    LET g1 == Mouse(g0, m)
        g2 == IF g0.mouse = "ChordingNotFlag" THEN [g1 EXCEPT !.right = @ - 1] ELSE g1
    IN  IF OnBoard(b, p) THEN Chord(b, g2, p) ELSE R(g2, 0)

PressRight(b, g, p) ==
    IF OnBoard(b, p)
    THEN RightClick(b, Mouse(g, IF At(g.gb, p) < 10 THEN "UpDownNotFlag" ELSE "UpDown"), p)
    ELSE R(Mouse(g, "UpDown"), 0)

(* ---- Playing ---- *)
PressLeftPlaying(g) ==
    CASE g.mouse = "UpUp"          -> R(Mouse(g, "DownUp"), 0)
      [] g.mouse = "UpDown"        -> R(Mouse(g, "Chording"), 0)
      [] g.mouse = "UpDownNotFlag" -> R(Mouse(g, "ChordingNotFlag"), 0)
      [] OTHER                     -> R(g, 0)

ReleaseLeftPlaying(b, g, p) ==
    CASE g.mouse = "DownUp" ->
            IF OnBoard(b, p) THEN LeftClick(b, Mouse(g, "UpUp"), p) ELSE R(Mouse(g, "UpUp"), 0)
      [] g.mouse \in {"Chording", "ChordingNotFlag"} -> ReleaseChord(b, g, p, "UpDown")
      [] g.mouse = "DownUpAfterChording" -> R(Mouse(g, "UpUp"), 0)
      [] OTHER -> R(g, 0)

ReleaseRightPlaying(b, g, p) ==
    CASE g.mouse \in {"UpDown", "UpDownNotFlag"} -> R(Mouse(g, "UpUp"), 0)
      [] g.mouse \in {"Chording", "ChordingNotFlag"} -> ReleaseChord(b, g, p, "DownUpAfterChording")
      [] OTHER -> R(g, 0)

BothDown(g) ==
    CASE g.mouse \in {"DownUp", "DownUpAfterChording", "UpDown"} -> R(Mouse(g, "Chording"), 0)
      [] g.mouse = "UpDownNotFlag" -> R(Mouse(g, "ChordingNotFlag"), 0)
      [] OTHER -> Rejected(g)

MiddleUp(b, g, p) ==
    LET g1 == [g EXCEPT !.hold = FALSE]
    IN  IF OnBoard(b, p) THEN Chord(b, g1, p) ELSE R(g1, 0)

PlayingStep(b, g, e, p) ==
    CASE e = "mv" -> R(g, 0)
      [] e = "lc" -> PressLeftPlaying(g)
      [] e = "lr" -> ReleaseLeftPlaying(b, g, p)
      [] e = "l"  -> IF g.mouse \in {"UpUp", "UpDown", "UpDownNotFlag"}
                     THEN PressLeftPlaying(g) ELSE ReleaseLeftPlaying(b, g, p)
      [] e = "rc" -> (CASE g.mouse = "UpUp" -> PressRight(b, g, p)
                        [] g.mouse \in {"DownUp", "DownUpAfterChording"} -> R(Mouse(g, "Chording"), 0)
                        [] OTHER -> R(g, 0))
      [] e = "rr" -> ReleaseRightPlaying(b, g, p)
      [] e = "r"  -> (CASE g.mouse = "UpUp" -> PressRight(b, g, p)
                        [] g.mouse \in {"DownUp", "DownUpAfterChording"} -> R(Mouse(g, "Chording"), 0)
                        [] OTHER -> ReleaseRightPlaying(b, g, p))
      [] e = "mc" -> R([g EXCEPT !.hold = TRUE], 0)
      [] e = "mr" -> MiddleUp(b, g, p)
      [] e = "m"  -> IF g.hold THEN MiddleUp(b, g, p) ELSE R([g EXCEPT !.hold = TRUE], 0)
      [] e = "cc" -> BothDown(g)
      [] e = "crl" -> IF g.mouse \in {"Chording", "ChordingNotFlag"}
                      THEN ReleaseChord(b, g, p, "UpDown") ELSE Rejected(g)
      [] e = "crr" -> IF g.mouse \in {"Chording", "ChordingNotFlag"}
                      THEN ReleaseChord(b, g, p, "DownUpAfterChording") ELSE Rejected(g)
      [] OTHER -> Rejected(g)

(* ---- before the first click ---- *)
PreFlag(b, g, p) ==
    RightClick(b, [g EXCEPT !.pre = @ + 1, !.st = "PreFlaging"], p)

(* leaving the pre-flag phase without having started: everything is undone *)
BackToReady(g) ==
    [g EXCEPT !.st = "Ready", !.left = 0, !.right = 0, !.dbl = 0, !.flag = 0, !.ce = 0, !.fl = {}]

ReadyStep(b, g, e, p) ==
    CASE e = "mv" -> R(g, 0)
      [] e = "lc" ->
           (CASE g.mouse = "UpUp" ->
                   R([g EXCEPT !.mouse = "DownUp", !.st = IF OnBoard(b, p) THEN "PreFlaging" ELSE @], 0)
              [] g.mouse = "UpDown" -> R(Mouse(g, "Chording"), 0)
              [] g.mouse = "UpDownNotFlag" -> R(Mouse(g, "ChordingNotFlag"), 0)
              [] OTHER -> Rejected(g))
      [] e = "pf" -> PreFlag(b, g, p)
      [] e = "rc" ->
           (CASE g.mouse = "UpUp" ->
                   IF OnBoard(b, p) THEN PreFlag(b, Mouse(g, "UpDown"), p) ELSE R(Mouse(g, "UpDown"), 0)
              [] g.mouse = "DownUpAfterChording" -> R(Mouse(g, "Chording"), 0)
              [] OTHER -> Rejected(g))
      [] e = "lr" ->
           (CASE g.mouse \in {"Chording", "ChordingNotFlag"} -> R(Mouse(g, "UpDown"), 0)
              [] g.mouse \in {"DownUpAfterChording", "DownUp", "UpUp"} -> R(Mouse(g, "UpUp"), 0)
              [] OTHER -> Rejected(g))
      [] e = "rr" ->
           (CASE g.mouse = "UpDown" -> R(Mouse(g, "UpUp"), 0)
              [] g.mouse = "Chording" -> R(Mouse(g, "DownUpAfterChording"), 0)
              [] OTHER -> Rejected(g))
      [] e = "cc" -> BothDown(g)
      [] OTHER -> Rejected(g)

PreFlagingStep(b, g, e, p) ==
    CASE e \in {"lc", "rr", "mv"} -> PlayingStep(b, g, e, p)
      [] e = "lr" ->
           (CASE g.mouse = "DownUp" ->
                   IF ~OnBoard(b, p)
                   THEN R(Mouse(IF g.pre = 0 THEN BackToReady(g) ELSE g, "UpUp"), 0)
                   ELSE IF At(g.gb, p) = 10
                        THEN PlayingStep(b, [g EXCEPT !.st = "Playing"], "lr", p)
                        ELSE R(Mouse(g, "UpUp"), 0)
              [] g.mouse \in {"UpDown", "UpDownNotFlag"} -> Rejected(g)
              [] OTHER -> PlayingStep(b, g, "lr", p))
      [] e = "pf" -> PreFlag(b, g, p)
      [] e = "rc" ->
           (CASE g.mouse = "UpUp" ->
                   IF ~OnBoard(b, p) THEN R(Mouse(g, "UpDown"), 0)
                   ELSE IF At(g.gb, p) = 10 THEN PreFlag(b, Mouse(g, "UpDown"), p)
                   ELSE LET g1 == [Mouse(g, "UpDown") EXCEPT !.pre = @ - 1]
                        IN  IF g1.pre = 0
                            THEN R([BackToReady(g1) EXCEPT !.gb = SetCell(@, p, 10)], 0)
                            ELSE RightClick(b, g1, p)
              [] g.mouse = "DownUp" ->
                   R(Mouse(IF OnBoard(b, p) /\ g.pre = 0 THEN BackToReady(g) ELSE g, "Chording"), 0)
              [] g.mouse = "DownUpAfterChording" -> R(Mouse(g, "Chording"), 0)
              [] OTHER -> Rejected(g))
      [] e = "cc" ->
           (CASE g.mouse = "DownUp" ->
                   R(Mouse(IF OnBoard(b, p) /\ g.pre = 0 THEN BackToReady(g) ELSE g, "Chording"), 0)
              [] OTHER -> BothDown(g))
      [] OTHER -> Rejected(g)

MouseStep(b, g, e, p) ==
    CASE g.st = "Ready" -> ReadyStep(b, g, e, p)
      [] g.st = "PreFlaging" -> PreFlagingStep(b, g, e, p)
      [] g.st = "Playing" -> PlayingStep(b, g, e, p)
      [] OTHER -> R(g, 0)

(* the events the machine is specified for: a pre-flag lands on a closed,     *)
(* unflagged cell of the board                                               *)
Admissible(b, g, e, p) ==
    e = "pf" => (OnBoard(b, p) /\ At(g.gb, p) = 10)

(* ------------------- what must be true of every game -------------------- *)
TypeOK(b, g) ==
    /\ g.st \in GameStates /\ g.mouse \in MouseStates
    /\ \A k \in {"left", "right", "dbl", "ce", "flag", "solved", "pre"} : g[k] >= 0

(* the displayed board never lies *)
Truthful(b, g) ==
    /\ \A p \in Cells(b) :
         /\ At(g.gb, p) \in 0..8 => At(g.gb, p) = At(b, p)
         /\ At(g.gb, p) \in (0..8) \cup {10, 11, 14, 15}
         /\ At(g.gb, p) \in {14, 15} => g.st = "Loss"
         /\ At(g.gb, p) = 15 => At(b, p) = -1
         /\ At(g.gb, p) = 14 => At(b, p) # -1
         \* an opened zero has no plainly closed neighbour ... unless it was unflagged later
    /\ g.st = "Loss" => \A p \in Cells(b) : At(g.gb, p) = 11 => At(b, p) = -1

OutcomeOK(b, g) ==
    /\ (g.st = "Win") <=> AllSafeOpen(b, g.gb)
    /\ (g.st = "Loss") <=> (\E p \in Cells(b) : At(g.gb, p) = 15)
    /\ g.st = "Ready" => \A p \in Cells(b) : At(g.gb, p) = 10
    /\ g.st = "PreFlaging" => \A p \in Cells(b) : At(g.gb, p) \in {10, 11}

CountersOK(b, g) ==
    /\ g.flag = Cardinality({p \in Cells(b) : At(g.gb, p) \in {11, 14}})
    /\ g.solved = Solved(b, g.gb)
    /\ g.solved <= BBBV(b)
    /\ g.st = "Win" => g.solved = BBBV(b)
    /\ g.st = "Ready" => /\ g.flag = 0 /\ g.left = 0 /\ g.right = 0
                         /\ g.dbl = 0 /\ g.ce = 0 /\ g.fl = {} /\ g.pre = 0
    /\ g.st = "PreFlaging" => g.pre = g.flag
=============================================================================
