------------------------------- MODULE MCVideo -------------------------------
(* The recorder, exhaustively: every board of one size, every event order     *)
(* with clock ticks, resets, metadata and checksums, up to MaxLog entries.    *)
EXTENDS Video, TLC
CONSTANTS NR, NC, PIX, MaxLog, EventSet,
          Header        \* TRUE: also metadata, file bytes and checksums
VARIABLES v, now, res
vars == <<v, now, res>>
AllBoards == {NumberBoard(NR, NC, m) : m \in (SUBSET ((1..NR) \X (1..NC))) \ {(1..NR) \X (1..NC)}}
Pixels == {<<PIX * (i - 1), PIX * (j - 1)>> : i \in 1..NR, j \in 1..NC} \cup {<<PIX * NR, PIX * NC>>}
C1 == [k \in 1..32 |-> k]
C2 == [k \in 1..32 |-> 255 - k]
Init == v \in {NewVideo(b, PIX) : b \in AllBoards} /\ now = 0 /\ res = 0
(* the log's clock starts with its first entry *)
Step(e, px) == /\ (e = "pf" => v.g.mouse = "UpUp" /\ Admissible(v.b, v.g, e, PixCell(v.pix, px)))
               /\ LET r == RecStep(v, e, px, IF v.log = <<>> THEN 0 ELSE now)
                  IN  v' = r.v /\ res' = r.res /\ now' = IF v.log = <<>> THEN 0 ELSE now
Tick == now < 2 /\ now' = now + 1 /\ UNCHANGED <<v, res>>
Again == \E b \in AllBoards : v' = SetBoard(Reset(v, NR, NC, PIX), b).v /\ res' = 0 /\ now' = 0
Board == \E b \in AllBoards : v.g.st = "Ready" /\ LET r == SetBoard(v, b) IN v' = r.v /\ res' = r.res /\ now' = now
Name == LET r == SetMeta(v, "player", <<65>>) IN v' = r.v /\ res' = r.res /\ now' = now
Write == Ended(v) /\ v' = Generate(v) /\ res' = 0 /\ now' = now
Check == \E c \in {C1, C2} : LET r == SetCheck(v, c) IN v' = r.v /\ res' = r.res /\ now' = now
Reveal == Ended(v) /\ v' \in {FlagAll(v), ShowAll(v)} /\ res' = 0 /\ now' = now
Next == \/ \E e \in EventSet, px \in Pixels : Step(e, px)
        \/ Tick \/ Board
        \/ Ended(v) /\ Again
        \/ Header /\ (Name \/ Reveal \/ Write \/ Check)
Spec == Init /\ [][Next]_vars
Bound == Len(v.log) <= MaxLog

(* the log is there exactly while an attempt is on *)
LogPhase == (v.log = <<>>) <=> (v.g.st = "Ready")
(* it is complete: replaying it reproduces the game and every entry *)
ReplayLive == /\ v.log # <<>> => v.log = Replay(v.log, Games(v.b, v.pix, v.log))
              /\ v.log # <<>> => LET gs == Games(v.b, v.pix, v.log)
                                 IN  [gs[Len(gs)].g EXCEPT !.hold = FALSE] = [v.g EXCEPT !.hold = FALSE]
(* boards: the first is closed, consecutive entries are linked, an entry of   *)
(* level 1 or more shows a new board                                          *)
Linked == v.log # <<>> =>
    /\ v.boards[1] = InitGame(v.b).gb
    /\ v.log[1].prior = 1 /\ v.log[Len(v.log)].next = Len(v.boards)
    /\ \A k \in 1..Len(v.log) :
         /\ v.log[k].next - v.log[k].prior = (IF v.log[k].lvl >= 1 THEN 1 ELSE 0)
         /\ k > 1 => v.log[k].prior = v.log[k - 1].next
Times == /\ v.log # <<>> => v.log[1].t = 0
         /\ \A k \in 2..Len(v.log) : v.log[k].t >= v.log[k - 1].t
         /\ (Ended(v) /\ v.log # <<>>) => v.rtime \in 0..2 /\ v.open + v.rtime = v.log[Len(v.log)].t
(* reading what was written gives it back, and writing that again gives the   *)
(* same bytes                                                                 *)
RoundTrip == Ended(v) => LET f == FileOf(v)
                             d == Encode(f, Version)
                         IN  SameFile(f, Decode(d)) /\ Encode(Decode(d), Version) = d
(* every proper prefix of a file is refused *)
Truncated == Ended(v) => LET d == Encode(FileOf(v), Version) IN \A k \in 0..(Len(d) - 1) : ~Decode(SubSeq(d, 1, k)).ok
(* the checksum *)
Checksum == v.raw # <<>> => Decode(v.raw).ok /\ Decode(v.raw).check = v.check
FreshHasNone == v.g.st # "Win" /\ v.g.st # "Loss" => v.check = <<>> /\ v.raw = <<>>
(* playback *)
Playback == Len(v.log) >= 1 =>
    LET ts == [k \in 1..Len(v.log) |-> v.log[k].t]
    IN  \A t \in -1..4 : LET k == LastNotLater(ts, t)
                         IN  /\ k \in 1..Len(ts)
                             /\ (ts[k] <= t \/ k = 1)
                             /\ (k < Len(ts) => ts[k + 1] > t)
(* marking or showing the mines: only closed mines change, never before the   *)
(* end, and nothing else does                                                 *)
Shown3 == {11, 15, 16}
RevealOnly == [][Ended(v) /\ v'.log = v.log /\ v'.g.gb # v.g.gb /\ v'.g.st = v.g.st =>
                   /\ [v EXCEPT !.g.gb = v'.g.gb] = v'
                   /\ \A p \in Cells(v.b) : At(v'.g.gb, p) # At(v.g.gb, p) =>
                        At(v.b, p) = -1 /\ At(v.g.gb, p) = 10 /\ At(v'.g.gb, p) = (IF v.g.st = "Win" THEN 11 ELSE 16)
                   /\ \A p \in Mines(v.b) : At(v'.g.gb, p) \in Shown3]_vars
Refused == [][res' = 9 => v' = v]_vars
NothingAfterEnd == [][(Ended(v) /\ Ended(v')) => v'.log = v.log /\ [v'.g EXCEPT !.gb = v.g.gb] = v.g]_vars
=============================================================================
