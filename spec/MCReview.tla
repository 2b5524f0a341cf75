------------------------------- MODULE MCReview -------------------------------
(* Every kind of video a reviewer can meet.                                   *)
EXTENDS Review
VARIABLE r
Starts == {<<>>, <<49, 54>>, Ban, Ban \o <<57, 57>>, [Ban EXCEPT ![10] = 49], [Ban EXCEPT ![1] = 48], [Ban EXCEPT ![9] = 47],
           [Ban EXCEPT ![2] = 57], [Ban EXCEPT ![2] = 55, ![3] = 48], [Ban EXCEPT ![4] = 49, ![5] = 57], SubSeq(Ban, 1, 9)}
Init == r \in [sw : {Arbiter, Vienna, Meta32, Meta317, <<>>, SubSeq(Meta32, 1, 5)}, start : Starts,
               check : {<<>>, <<3, 3, 3>>, <<3, 3, 4>>}, fair : BOOLEAN, n : 1..31, bbbv : 0..3, won : BOOLEAN]
Next == UNCHANGED r
Spec == Init /\ [][Next]_r
V == Verdict(r)
Total == V \in {0, 1, 3}
(* valid is only a won game, recorded in detail, from a known program, and    *)
(* with nothing against it                                                    *)
Strict == V = 0 => /\ r.won /\ r.n >= 10 * r.bbbv /\ r.sw \in {Arbiter, Vienna, Meta32, Meta317}
                   /\ (r.sw = Vienna => IsSeconds(r.start) /\ ~After(r.start))
                   /\ (r.sw \in {Meta32, Meta317} => r.fair /\ ~Flat(r.check))
(* nothing is lost by winning, playing fair or recording more *)
Fair == /\ V = 0 => Verdict([r EXCEPT !.fair = TRUE]) = 0 /\ Verdict([r EXCEPT !.n = @ + 1]) = 0
        /\ V # 0 => Verdict([r EXCEPT !.won = FALSE]) = V
(* what a program does not have is not held against its videos *)
Apart == /\ r.sw # Vienna => V = Verdict([r EXCEPT !.start = <<>>])
         /\ r.sw \notin {Meta32, Meta317} => V = Verdict([r EXCEPT !.check = <<>>, !.fair = ~@])
=============================================================================
