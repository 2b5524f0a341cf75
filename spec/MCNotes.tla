------------------------------- MODULE MCNotes -------------------------------
(* Every sequence of steps a player can take: which passages are announced.   *)
EXTENDS Notes
CONSTANTS MaxLen, What
VARIABLES a, log
vars == <<a, log>>
Init == a = NoPassage /\ log = <<>>
Next == /\ Len(log) < MaxLen
        /\ \E k \in What, far \in BOOLEAN :
             /\ log' = Append(log, <<k, far>>)
             /\ a' = Passage(a, k, far, Len(log) + 1)
Spec == Init /\ [][Next]_vars
Is(x, k) == log[x][1] = k
Steps(from, to) == Cardinality({m \in from..to : Is(m, "mark") \/ Is(m, "good")})
(* the steps from the anchor up to the last chord of the passage              *)
True(an, v, to) ==
    /\ Is(an, "mark") /\ v >= 5
    /\ \E last \in an..to : Is(last, "good") /\ Steps(an, last) = v
                            /\ (\A m \in an..last : ~Is(m, "bad"))
                            /\ (\A m \in (last + 1)..to : ~Is(m, "good"))
(* every announced passage is one, in order and without overlap               *)
Real == \A m \in 1..Len(a.out) :
            LET an == a.out[m][1]
                to == IF m < Len(a.out) THEN a.out[m + 1][1] - 1 ELSE Len(log)
                ends == {x \in an..to : Is(x, "bad") \/ log[x][2]}
            IN  /\ an < to + 1 /\ ends # {}
                /\ \E x \in ends : True(an, a.out[m][2], x)
(* none is missed: marks and good chords close together, five or more up to   *)
(* the last chord, then a bad one                                             *)
Missed == \A an \in 1..Len(log), to \in 1..Len(log) :
            ( /\ an < to /\ Is(to, "bad") /\ Is(an, "mark") /\ ~\E y \in 1..(an - 1) : ~Is(y, "bad")
              /\ \A m \in an..(to - 1) : Is(m, "mark") \/ Is(m, "good")
              /\ \A m \in an..to : ~log[m][2] )
            => LET chords == {m \in an..to : Is(m, "good")}
                   v == IF chords = {} THEN 0 ELSE Steps(an, CHOOSE m \in chords : \A x \in chords : x <= m)
               IN  v >= 5 => \E z \in 1..Len(a.out) : a.out[z] = <<an, v>>
=============================================================================
