-------------------------------- MODULE Video --------------------------------
(* The live recorder around the game machine, replay, and playback.           *)
(* A video record v has                                                       *)
(*   b      the board in play        g      the game (Game.tla)               *)
(*   pix    size of a cell           log    entries of the event log          *)
(*   boards displayed boards of the current attempt, first one all closed     *)
(*   open   time of the opening      rtime  playing time, once it has ended   *)
(*   done   won                      level  difficulty level                  *)
(*   meta   the settable header      check  <<>> or the 32 bytes attached     *)
(*   raw    the file bytes generated last (<<>>: none)                        *)
EXTENDS Game, Evf

Texts == <<"software", "player", "race", "unique", "start", "end", "country", "uuid">>
TextSet == {Texts[k] : k \in 1..8}
NoMeta == [x \in TextSet |-> <<>>] @@ [official |-> FALSE, fair |-> FALSE, mode |-> 0]

NMines(b) == Cardinality(Mines(b))
LevelOf(b) == IF Rows(b) = 8 /\ Cols(b) = 8 /\ NMines(b) = 10 THEN 3
              ELSE IF Rows(b) = 16 /\ Cols(b) = 16 /\ NMines(b) = 40 THEN 4
              ELSE IF Rows(b) = 16 /\ Cols(b) = 30 /\ NMines(b) = 99 THEN 5 ELSE 6
NewVideo(b, pix) ==
    [b |-> b, g |-> InitGame(b), pix |-> pix, log |-> <<>>, boards |-> <<>>, open |-> 0, rtime |-> 0,
     done |-> FALSE, level |-> 0, meta |-> NoMeta, check |-> <<>>, raw |-> <<>>]

Ended(v) == v.g.st \in {"Win", "Loss"}
PixCell(pix, px) == <<px[1] \div pix + 1, px[2] \div pix + 1>>
Res(v, res) == [v |-> v, res |-> res]

Entry(g, e, px, t, lvl, prior, next) ==
    [e |-> e, y |-> px[1], x |-> px[2], t |-> t, lvl |-> lvl, prior |-> prior, next |-> next,
     ms |-> g.mouse, left |-> g.left, right |-> g.right, dbl |-> g.dbl, ce |-> g.ce, flag |-> g.flag, solved |-> g.solved]

(* one event at px = <<pixels down, pixels right>>, t ms after the log began *)
RecStep(v, e, px, t) ==
    IF Ended(v) THEN Res(v, 0)
    ELSE LET r == MouseStep(v.b, v.g, e, PixCell(v.pix, px))
             g == r.g
             opening == v.g.st # "Playing" /\ g.st \in {"Playing", "Win", "Loss"}
             boards0 == IF v.boards = <<>> THEN <<InitGame(v.b).gb>> ELSE v.boards
             boards == IF r.ret >= 1 THEN Append(boards0, g.gb) ELSE boards0
             start == IF opening THEN t ELSE v.open
         IN  IF r.ret = 9 THEN Res(v, 9)
             ELSE IF g.st = "Ready" THEN Res([v EXCEPT !.g = g, !.log = <<>>, !.boards = <<>>], 0)
             ELSE Res([v EXCEPT !.g = g, !.boards = boards, !.open = start,
                                !.log = Append(@, Entry(g, e, px, t, r.ret, Len(boards0), Len(boards))),
                                !.rtime = IF g.st \in {"Win", "Loss"} THEN t - start ELSE @,
                                !.done = IF g.st = "Win" THEN TRUE ELSE IF g.st = "Loss" THEN FALSE ELSE @], 0)

SetBoard(v, b) ==
    IF Ended(v) \/ Rows(b) # Rows(v.b) \/ Cols(b) # Cols(v.b) THEN Res(v, 9)
    ELSE Res([v EXCEPT !.b = b, !.level = LevelOf(b)], 0)
(* a fresh attempt, of possibly another size: everything that belongs to the  *)
(* game goes, what belongs to the player stays                                *)
Empty(nr, nc) == [i \in 1..nr |-> [j \in 1..nc |-> 0]]
Reset(v, nr, nc, pix) ==
    [v EXCEPT !.b = Empty(nr, nc), !.g = InitGame(Empty(nr, nc)), !.pix = pix, !.log = <<>>, !.boards = <<>>,
              !.rtime = 0, !.check = <<>>, !.raw = <<>>]
(* phases in which a piece of the header may be set *)
SetMeta(v, field, value) ==
    IF Ended(v) \/ (field = "software" /\ v.g.st = "Ready")
    THEN Res([v EXCEPT !.meta[field] = value], 0) ELSE Res(v, 9)
SetPix(v, pix) == IF Ended(v) \/ v.g.st = "Ready" THEN Res([v EXCEPT !.pix = pix], 0) ELSE Res(v, 9)

(* the rest of the mines, once the game has ended: flagged after a win, shown  *)
(* after a loss                                                               *)
FlagAll(v) == IF v.g.st # "Win" THEN v
              ELSE [v EXCEPT !.g.gb = [i \in 1..Rows(v.b) |-> [j \in 1..Cols(v.b) |->
                                         IF @[i][j] = 10 THEN 11 ELSE @[i][j]]]]
ShowAll(v) == IF v.g.st # "Loss" THEN v
              ELSE [v EXCEPT !.g.gb = [i \in 1..Rows(v.b) |-> [j \in 1..Cols(v.b) |->
                                         IF v.b[i][j] = -1 /\ @[i][j] = 10 THEN 16 ELSE @[i][j]]]]

(* ---- the file ---- *)
FileOf(v) ==
    [done |-> v.done, official |-> v.meta.official, fair |-> v.meta.fair, h |-> Rows(v.b), w |-> Cols(v.b),
     mines |-> NMines(v.b), pix |-> v.pix, mode |-> v.meta.mode, bbbv |-> BBBV(v.b), rtime |-> v.rtime,
     strs |-> [k \in 1..8 |-> v.meta[Texts[k]]], bits |-> MineBits(v.b),
     ev |-> [k \in 1..Len(v.log) |-> <<v.log[k].e, v.log[k].t, v.log[k].x, v.log[k].y>>], check |-> v.check]
Version == 0
Generate(v) == [v EXCEPT !.raw = Encode(FileOf(v), Version)]
(* attaching a checksum: of the file bytes only the end changes               *)
SetCheck(v, c) ==
    IF ~Ended(v) THEN Res(v, 9)
    ELSE Res([v EXCEPT !.check = c,
                       !.raw = IF @ = <<>> THEN <<>>
                               ELSE SubSeq(@, 1, Len(@) - (IF v.check = <<>> THEN 1 ELSE 33)) \o <<0>> \o c], 0)

(* ---- replay of logged events <<e, y, x>> from a fresh game ---- *)
(* the game after each event, with what the event did                          *)
ReplayStep(b, g, pix, e) ==
    IF e.e = "mv" THEN R(g, 0) ELSE MouseStep(b, g, e.e, PixCell(pix, <<e.y, e.x>>))
Games(b, pix, evs) ==
    FoldLeft(LAMBDA gs, e : Append(gs, ReplayStep(b, IF gs = <<>> THEN InitGame(b) ELSE gs[Len(gs)].g, pix, e)),
             <<>>, evs)
(* the log a replay gives; gs == Games(b, pix, evs)                            *)
Shown(gs, k) == 1 + Cardinality({j \in 1..k : gs[j].ret \in 1..3})
Replay(evs, gs) ==
    [k \in 1..Len(evs) |-> Entry(gs[k].g, evs[k].e, <<evs[k].y, evs[k].x>>, evs[k].t, gs[k].ret,
                                 Shown(gs, k - 1), Shown(gs, k))]
(* index of the opening, 0 if there is none *)
Opening(gs) == IF \E k \in 1..Len(gs) : gs[k].g.st \in {"Playing", "Win", "Loss"}
               THEN CHOOSE k \in 1..Len(gs) : /\ gs[k].g.st \in {"Playing", "Win", "Loss"}
                                              /\ \A j \in 1..(k - 1) : gs[j].g.st \notin {"Playing", "Win", "Loss"}
               ELSE 0

(* ---- playback ---- *)
(* times: the event times, nondecreasing; the last event not later than t,    *)
(* the first one when there is none                                           *)
LastNotLater(times, t) ==
    LET S == {k \in 1..Len(times) : times[k] <= t}
    IN  IF S = {} THEN 1 ELSE CHOOSE k \in S : \A j \in S : j <= k
Clamp(lo, hi, t) == IF t < lo THEN lo ELSE IF t > hi THEN hi ELSE t

(* ---- saving ---- *)
(* files: a function from names to contents; the n-th candidate name          *)
Candidate(base, n) == IF n = 1 THEN base \o ".evf" ELSE base \o "(" \o ToString(n) \o ").evf"
Save(files, base, data) ==
    LET n == CHOOSE n \in 1..(Cardinality(DOMAIN files) + 1) :
                /\ Candidate(base, n) \notin DOMAIN files
                /\ \A m \in 1..(n - 1) : Candidate(base, m) \in DOMAIN files
    IN  files @@ (Candidate(base, n) :> data)
=============================================================================
