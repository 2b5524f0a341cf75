------------------------------ MODULE TraceNotes ------------------------------
(* Recorded annotations of analysed files, and judgements of chords.          *)
EXTENDS Notes, Batch
IsNotes == O.op = "notes"
Fine == IsNotes => O.ok
GS == Games(O.b, O.pix, O.ev)
Said(list, n, w) == \E m \in 1..Len(list) : list[m].k = n /\ list[m].w = w
Only(list, ws) == /\ \A m \in 1..Len(list) : list[m].w \in ws /\ list[m].k \in 1..Len(O.ev)
                  /\ \A m, o \in 1..Len(list) : (m # o /\ list[m].k = list[o].k) => list[m].w # list[o].w
Val(list, n, w) == LET m == CHOOSE x \in 1..Len(list) : list[x].k = n /\ list[x].w = w IN list[m].v
Small == IsNotes /\ O.ok /\ ~O.large

(* thousandths of 1 - c/t *)
OneMinus(v, c, t) == v \in 0..1000 /\ BClose((1000 - v) * 1000, c, t, 600)
Guesses == Small =>
    \A gs \in {GS} :
    LET nn == O.notes
        risk == nn.high_risk_guess
        judge == nn.jump_judge
        need == nn.needless_guess
        opens(n) == gs[n].ret >= 2
        K(n) == Known(Before(O.b, gs, n), CellOf(O.pix, O.ev[n]), O.mines)
    IN  /\ Only(risk, {"risk"}) /\ Only(judge, {"left", "mark"}) /\ Only(need, {"needless"})
        /\ \A n \in 1..Len(O.ev) :
             LET clicks == opens(n) /\ O.ev[n].e = "lr"
                 marks == gs[n].ret = 1 /\ O.ev[n].e = "rc" /\ At(Before(O.b, gs, n), CellOf(O.pix, O.ev[n])) = 10
             IN  IF n <= 2 \/ ~(opens(n) \/ marks)
                 THEN ~Said(risk, n, "risk") /\ ~Said(judge, n, "left") /\ ~Said(judge, n, "mark") /\ ~Said(need, n, "needless")
                 ELSE \A k \in {K(n)} :
                    /\ LET c == BMulS(k.ways, 100)  t == BMulS(k.total, 51)
                       IN  /\ c # t => (Said(risk, n, "risk") <=> (opens(n) /\ BLe(t, c)))
                           /\ Said(risk, n, "risk") => opens(n) /\ BLe(t, c) /\ OneMinus(Val(risk, n, "risk"), k.ways, k.total)
                    /\ Said(judge, n, "left") => clicks /\ k.safe /\ ~k.single
                    /\ (clicks /\ k.safe /\ ~k.easy) => Said(judge, n, "left")
                    /\ Said(judge, n, "mark") => marks /\ k.mine /\ ~k.single
                    /\ (marks /\ k.mine /\ ~k.easy) => Said(judge, n, "mark")
                    /\ Said(need, n, "needless") <=> (clicks /\ k.ways # <<>> /\ ~k.safe /\ k.some)
(* the luck of the game: every uncertain click after the first                *)
Luck == Small =>
    \A gs \in {GS} :
    LET list == O.notes.survive_poss
        eff == SelectSeq([n \in 1..Len(O.ev) |-> n], LAMBDA n : O.ev[n].e = "lr" /\ gs[n].ret > 0)
        K(n) == Known(Before(O.b, gs, n), CellOf(O.pix, O.ev[n]), O.mines)
        later == IF eff = <<>> THEN <<>> ELSE Tail(eff)
    IN  \A ks \in {TLCEval([m \in 1..Len(later) |-> K(later[m])])} :
        LET unsure == SelectSeq(ks, LAMBDA k : k.ways # <<>> /\ k.ways # k.total)
            num == FoldLeft(LAMBDA acc, k : BMul(acc, BSub(k.total, k.ways)), <<1>>, unsure)
            den == FoldLeft(LAMBDA acc, k : BMul(acc, k.total), <<1>>, unsure)
        IN  /\ Len(list) = 1 /\ list[1].w = "luck" /\ list[1].k = Len(O.ev)
            /\ Len(list[1].f) = Len(unsure)
            /\ \A m \in 1..Len(unsure) : OneMinus(list[1].f[m], unsure[m].ways, unsure[m].total)
            /\ BClose(list[1].v, num, den, 2)
(* looking away: a useful click at least 112 pixels from the last one, when a  *)
(* cell within three rows and columns of that one was certainly safe          *)
LookAway == Small =>
    \A gs \in {GS} :
    LET list == O.notes.vision_transfer
        useful == SelectSeq([n \in 1..Len(O.ev) |-> n], LAMBDA n : gs[n].ret >= 2)
        far(x, y) == LET a == x.x - y.x  c == x.y - y.y IN a * a + c * c >= 112 * 112
        leaves(m) ==
            LET e == O.ev[useful[m]]
                f == O.ev[useful[m + 1]]
                q == CellOf(O.pix, e)
            IN  far(e, f) /\ \E s \in S!CertainSafe(S!Plain(Before(O.b, gs, useful[m + 1]))) :
                                Abs(s[1] - q[1]) <= 3 /\ Abs(s[2] - q[2]) <= 3
    IN  /\ Only(list, {"away"})
        /\ {list[m].k : m \in 1..Len(list)} = {useful[m] : m \in {x \in 1..(Len(useful) - 1) : leaves(x)}}
Crooked == (IsNotes /\ O.ok) =>
    \A legs \in {Legs(O.ev)} :
    LET list == O.notes.mouse_trace
        leg(n) == CHOOSE m \in 1..Len(legs) : legs[m].k = n
        of(n) == {m \in 1..Len(legs) : legs[m].k = n}
    IN  /\ \A m \in 1..Len(list) : list[m].w \in {"bent", "crooked"} /\ of(list[m].k) # {}
        /\ \A n \in 1..Len(O.ev) : Cardinality({m \in 1..Len(list) : list[m].k = n}) <= 1
        /\ \A m \in 1..Len(legs) :
             LET x == legs[m]
                 hi == x.way + x.cnt
                 c == Said(list, x.k, "crooked")
                 s == Said(list, x.k, "bent")
                 v == IF c THEN Val(list, x.k, "crooked") ELSE Val(list, x.k, "bent")
             IN  \* a click right at the start ends a leg of its own, of no length
                 IF \E o \in (m + 1)..Len(legs) : legs[o].k = x.k THEN x.way = 0 /\ x.d = 0
                 ELSE IF x.d = 0 THEN ~s /\ (c <=> x.way > 0) /\ (c => v = -1)
                 ELSE /\ x.way > 7 * (x.d + 1) => c
                      /\ hi <= 7 * x.d => ~c
                      /\ (x.way > 7 * (x.d + 1) \/ 2 * hi <= 7 * x.d) => ~s
                      /\ (2 * x.way > 7 * (x.d + 1) /\ hi <= 7 * x.d) => s
                      /\ (c \/ s) => /\ v * x.d <= 100 * hi + x.d
                                     /\ (v + 1) * (x.d + 1) >= 100 * x.way
Textbook == (IsNotes /\ O.ok) =>
    \A gs \in {GS} : \A want \in {Passages(O.b, O.pix, O.ev, gs)} :
        LET list == O.notes.super_fl_local
        IN  /\ Len(list) = Len(want)
            /\ \A m \in 1..Len(want) : \E o \in 1..Len(list) :
                 list[o].w = "fl" /\ list[o].k = want[m][1] /\ list[o].v = want[m][2]
(* together they say what each says                                           *)
Sides == {"high_risk_guess", "jump_judge", "needless_guess", "survive_poss", "vision_transfer", "mouse_trace", "super_fl_local"}
Together == (IsNotes /\ O.ok) =>
    LET parts == Sides \cap DOMAIN O.notes
        said(l) == {l[m] : m \in 1..Len(l)}
    IN  /\ said(O.notes.all) = UNION {said(O.notes[f]) : f \in parts}
        /\ Len(O.notes.all) = FoldSet(LAMBDA f, acc : acc + Len(O.notes[f]), 0, parts)
Chords == O.op = "chords" =>
    \A p \in Cells(O.gb) : At(O.good, p) = (IF GoodChord(O.gb, p) THEN 1 ELSE 0)
=============================================================================
