-------------------------------- MODULE Notes --------------------------------
(* Annotations of a played game: what each says, and to which event it is     *)
(* attached.  evs: the events; gs: the game after each (Video!Games).         *)
EXTENDS Video, Stats
S == INSTANCE Solver

Before(b, gs, n) == IF n = 1 THEN InitGame(b).gb ELSE gs[n - 1].g.gb
CellOf(pix, e) == PixCell(pix, <<e.y, e.x>>)

(* what one number, or two numbers together, decide, again and again          *)
RECURSIVE Easy(_)
Easy(gb) ==
    LET sys == TLCEval(S!System(gb))
        act == DOMAIN sys
        safe1 == UNION {sys[p].f : p \in {q \in act : sys[q].n = 0}}
        mine1 == UNION {sys[p].f : p \in {q \in act : sys[q].n = Cardinality(sys[q].f)}}
        pairs == {x \in act \X act : /\ Abs(x[1][1] - x[2][1]) <= 2 /\ Abs(x[1][2] - x[2][2]) <= 2
                                     /\ sys[x[1]].n - sys[x[2]].n = Cardinality(sys[x[1]].f \ sys[x[2]].f)}
        safe == TLCEval(safe1 \cup UNION {sys[x[2]].f \ sys[x[1]].f : x \in pairs})
        mine == TLCEval(mine1 \cup UNION {sys[x[1]].f \ sys[x[2]].f : x \in pairs})
    IN  IF safe = {} /\ mine = {} THEN gb ELSE Easy(TLCEval(S!Mark(TLCEval(S!Mark(gb, safe, 12)), mine, 11)))
SingleSafe(gb) == UNION {S!Front(gb, p) : p \in {q \in S!Active(gb) : S!Need(gb, q) = 0}}
SingleMine(gb) == UNION {S!Front(gb, p) : p \in {q \in S!Active(gb) : S!Need(gb, q) = Cardinality(S!Front(gb, q))}}

(* what is known of cell p just before event n, with M mines in all           *)
Known(gb0, p, M) ==
    LET gb == TLCEval(S!Plain(gb0))
        A == TLCEval(S!Analysis(gb))
        cnt == TLCEval(S!Count(gb, M))
        easy == TLCEval(Easy(gb))
    IN  [safe |-> p \in S!SafeOf(A), mine |-> p \in S!MineOf(A), some |-> S!SafeOf(A) # {},
         single |-> p \in SingleSafe(gb) \cup SingleMine(gb), easy |-> At(easy, p) # At(gb, p),
         total |-> cnt.total,
         ways |-> IF At(gb, p) < 10 THEN <<>> ELSE IF p \in cnt.listed THEN cnt.cell[p] ELSE cnt.inner]

(* ---- good chords ---- *)
(* how many cells a chord on q would open, -1 if its number is not met        *)
Opens(gb, q) == IF At(gb, q) \in 1..8 /\ Cardinality({x \in N(gb, q) : At(gb, x) = 11}) = At(gb, q)
                THEN Cardinality({x \in N(gb, q) : At(gb, x) = 10}) ELSE -1
GoodChord(gb, p) ==
    /\ Opens(gb, p) > 0
    /\ \A q \in N(gb, p) : (Abs(q[1] - p[1]) + Abs(q[2] - p[2]) = 1) => Opens(gb, q) <= Opens(gb, p)

(* ---- textbook flag-and-chord passages ---- *)
(* phase 0 none, 1 first mark set, 2 under way, 3 long enough; n steps, the    *)
(* last `tail` of them marks; anchor the event it starts at; out the          *)
(* annotations so far.  Moves do not count.                                   *)
Quiet(a) == [a EXCEPT !.phase = 0, !.n = 0, !.tail = 0]
Closing(a) == [a EXCEPT !.out = Append(@, <<a.anchor, a.n - a.tail>>), !.phase = 0, !.n = a.n - a.tail]
Breaks(a) == IF a.phase = 3 THEN Closing(a) ELSE Quiet(a)
(* one event: what it is, and whether it is far from the one before           *)
Passage(a, kind, far, n) ==
    LET a1 == CASE kind = "mark" -> IF a.phase = 0 THEN [a EXCEPT !.phase = 1, !.n = 1, !.tail = 1, !.anchor = n]
                                    ELSE [a EXCEPT !.phase = Max2(@, 2), !.n = @ + 1, !.tail = @ + 1]
                [] kind = "good" -> IF a.phase = 0 THEN a
                                    ELSE [a EXCEPT !.phase = Max2(@, 2), !.n = @ + 1, !.tail = 0]
                [] kind = "bad" -> Breaks(a)
                [] OTHER -> a
        closed == Len(a1.out) > Len(a.out)
        a2 == IF ~far \/ closed THEN a1
              ELSE IF a1.phase = 2 THEN Quiet(a1) ELSE IF a1.phase = 3 THEN Closing(a1) ELSE a1
    IN  IF a2.n - a2.tail >= 5 /\ a2.phase \in {1, 2} THEN [a2 EXCEPT !.phase = 3] ELSE a2
NoPassage == [phase |-> 0, n |-> 0, tail |-> 0, anchor |-> 0, last |-> 1, out |-> <<>>]
FlStep(b, pix, evs, gs, a, n) ==
    LET e == evs[n]
        p == CellOf(pix, e)
        q == CellOf(pix, evs[a.last])
        lastMouse == gs[a.last].g.mouse
        gb == Before(b, gs, n)
        kind == IF e.e = "rc" /\ gs[n].ret = 1 /\ At(gb, p) = 10 THEN "mark"
                ELSE IF gs[n].ret = 3 THEN (IF GoodChord(gb, p) THEN "good" ELSE "bad")
                ELSE IF \/ e.e = "lr" /\ lastMouse \in {"DownUp", "Chording"}
                        \/ e.e = "rr" /\ lastMouse = "Chording" THEN "bad"   \* a press in vain
                ELSE "other"
        far == (p[1] - q[1]) * (p[1] - q[1]) + (p[2] - q[2]) * (p[2] - q[2]) > 16
    IN  [Passage(a, kind, far, n) EXCEPT !.last = n]
Passages(b, pix, evs, gs) ==
    FoldLeft(LAMBDA a, n : IF evs[n].e = "mv" THEN a ELSE TLCEval(FlStep(b, pix, evs, gs, a, n)),
             NoPassage,
             [n \in 1..(Len(evs) - 1) |-> n + 1]).out

(* ---- crooked paths ---- *)
(* between two clicks: hundredths of pixels walked (rounded down, in `cnt`     *)
(* pieces), and as the crow flies                                             *)
Legs(evs) ==
    LET step(a, n) ==
            LET e == evs[n]
                here == <<e.x, e.y>>
                w == a.way + Dist(a.at, here)
                c == a.cnt + (IF a.at = here THEN 0 ELSE 1)
            IN  IF e.e \in {"lr", "rc", "rr"}
                THEN [from |-> here, id |-> n, at |-> here, way |-> 0, cnt |-> 0,
                      out |-> Append(a.out, [k |-> a.id, way |-> w, cnt |-> c, d |-> Dist(a.from, here)])]
                ELSE [a EXCEPT !.at = here, !.way = w, !.cnt = c]
        p1 == <<evs[1].x, evs[1].y>>
    IN  FoldLeft(step, [from |-> p1, id |-> 1, at |-> p1, way |-> 0, cnt |-> 0, out |-> <<>>],
                 [n \in 1..Len(evs) |-> n]).out
=============================================================================
