----------------------------- MODULE TraceReview -----------------------------
(* Recorded verdicts.                                                         *)
EXTENDS Video, Review, Batch
Won == IF "ev" \in DOMAIN O THEN LET gs == Games(O.b, O.pix, O.ev) IN gs[Len(gs)].g.st = "Win" ELSE O.won
Judged == O.op = "review" =>
    O.v = Verdict([sw |-> O.sw, start |-> O.start, check |-> O.check, fair |-> O.fair, n |-> O.n, bbbv |-> O.bbbv, won |-> Won])
=============================================================================
