------------------------------ MODULE TraceFiles ------------------------------
(* What the four readers made of given bytes, against the file formats.       *)
EXTENDS Evf, Avf, Rmv, Mvf, Batch
G == O.got

Zero32 == [k \in 1..32 |-> 0]
Txt == [arbiter |-> <<65, 114, 98, 105, 116, 101, 114>>,
        vienna |-> <<86, 105, 101, 110, 110, 97, 115, 119, 101, 101, 112, 101, 114>>,
        clone |-> <<48, 46, 57, 55, 32, 98, 101, 116, 97>>]

(* ---- no reader brings the program down ---- *)
ReadsOrRefuses == line > 0 => G.out \in {0, 1}

(* ---- the native format ---- *)
LevelOf(h, w, n) == IF h = 8 /\ w = 8 /\ n = 10 THEN 3 ELSE IF h = 16 /\ w = 16 /\ n = 40 THEN 4
                    ELSE IF h = 16 /\ w = 30 /\ n = 99 THEN 5 ELSE 6
EvfRead == O.op = "evf" =>
    LET x == Decode(O.d)
    IN  /\ G.out = (IF x.ok THEN 1 ELSE 0)
        /\ (x.ok /\ KnownKinds(x)) =>
            /\ G.done = x.done /\ G.official = x.official /\ G.fair = x.fair
            /\ G.h = x.h /\ G.w = x.w /\ G.mines = x.mines /\ G.pix = x.pix /\ G.mode = x.mode
            /\ G.bbbv = x.bbbv /\ G.rtime = x.rtime /\ G.rtimems = x.rtime /\ G.strs = x.strs
            /\ G.level = LevelOf(x.h, x.w, x.mines)
            /\ G.board = Numbered(x.h, x.w, LAMBDA i, j : x.bits[(i - 1) * x.w + j] = 1)
            /\ G.ev = x.ev
            /\ G.check = (IF x.check = <<>> THEN Zero32 ELSE x.check)
(* a file written again says the same *)
EvfAgain == (O.op = "evf" /\ "again" \in DOMAIN O) =>
    LET x == Decode(O.d)
        y == Decode(O.again)
    IN  (x.ok /\ KnownKinds(x)) => /\ O.res = 0 /\ y.ok
                                   /\ [y EXCEPT !.version = 0] = [x EXCEPT !.version = 0]
                                   /\ O.again = Encode(x, O.again[1])
VersionByte == (O.op = "evf" /\ "again" \in DOMAIN O /\ O.again # <<>>) => O.again[1] = 0

(* ---- Arbiter ---- *)
Opens(x) == G.out = (IF x.ok THEN 1 ELSE 0)
AvfRead == O.op = "avf" =>
    LET x == AvfDecode(O.d)
    IN  /\ Opens(x) \/ (x.ok /\ x.long)            \* a 3BV of ten digits and more may be refused
        /\ (x.ok /\ G.out = 1) =>
                   /\ G.h = x.h /\ G.w = x.w /\ G.mines = x.mines /\ G.level = x.level
                   /\ G.board = x.board /\ G.ev = x.ev
                   /\ G.strs[1] = Txt.arbiter /\ G.strs[2] = x.player /\ G.strs[5] = x.start /\ G.strs[6] = x.end
                   /\ ~x.vague => /\ G.bbbv = x.bbbv /\ G.rtime = x.rtime
                                  /\ G.rtimems = (IF x.rtime < 0 THEN 0 ELSE x.rtime)
(* ---- Viennasweeper ---- *)
RmvRead == O.op = "rmv" =>
    LET x == RmvDecode(O.d)
    IN  /\ Opens(x)
        /\ x.ok => /\ G.h = x.h /\ G.w = x.w /\ G.mines = x.mines /\ G.level = x.level /\ G.mode = x.mode
                   /\ G.nf = x.nf /\ G.bbbv = x.bbbv /\ G.rtime = x.rtime /\ G.rtimems = x.rtime
                   /\ G.board = x.board /\ G.ev = x.ev
                   /\ G.strs[1] = Txt.vienna /\ G.strs[2] = x.player /\ G.strs[5] = x.start /\ G.strs[7] = x.country
(* ---- Minesweeper Clone ---- *)
MvfRead == O.op = "mvf" =>
    LET x == MvfDecode(O.d, O.digits)
    IN  /\ Opens(x)
        /\ (x.ok /\ ~x.empty) =>
                /\ G.h = x.h /\ G.w = x.w /\ G.mines = x.mines /\ G.level = x.level /\ G.mode = x.mode
                /\ G.bbbv = x.bbbv /\ G.rtime = x.rtime /\ G.rtimems = x.rtime
                /\ G.board = x.board /\ G.ev = x.ev
                /\ G.strs[1] = Txt.clone /\ G.strs[2] = x.player
(* ---- a video of another program, written in the native format ---- *)
W == O.before
Bytes24 == 0..16777215
Storable ==     \* the format has a place for everything
    /\ W.rtimems \in Bytes24 /\ W.bbbv \in 0..65535 /\ W.mines \in 0..65535 /\ W.mode \in 0..65535 /\ W.h \in 1..255 /\ W.w \in 1..255
    /\ \A k \in 1..8 : \A i \in 1..Len(W.strs[k]) : W.strs[k][i] # 0
    /\ \A k \in 1..Len(W.ev) : W.ev[k][1] \in {Kinds[i] : i \in 1..9} /\ W.ev[k][2] \in Bytes24
BoardOf(y) == Numbered(y.h, y.w, LAMBDA i, j : y.bits[(i - 1) * y.w + j] = 1)
Same == {"h", "w", "mines", "mode", "bbbv", "strs", "ev", "done", "official", "fair", "pix"}
Converted == (O.op = "convert" /\ G.out = 1) => (Storable =>
    /\ O.res = 0
    /\ \A y \in {Decode(O.again)} :
         /\ y.ok
         /\ \A n \in Same : y[n] = W[n]
         /\ y.rtime = W.rtimems
         /\ BoardOf(y) = W.board
         /\ y.check = <<>> /\ W.check = Zero32
         /\ O.again = Encode(y, 0))
(* analysing finds out whether the game was won and how much was to be solved, *)
(* and changes nothing else of the head; writing changes nothing *)
HeadKept == (O.op = "convert" /\ G.out = 1) =>
    /\ O.after = O.before
    /\ \A n \in DOMAIN O.before : n \notin {"done", "bbbv"} => O.before[n] = G[n]
    /\ ~O.analysed => O.before.done = G.done /\ O.before.bbbv = G.bbbv
=============================================================================
