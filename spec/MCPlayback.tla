------------------------------ MODULE MCPlayback ------------------------------
(* The playback head: it steps forward and back from wherever it stands.      *)
(* Every list of event times, every sequence of seeks and jumps: it ends at   *)
(* the last event not later than the time asked for (the first if none is).   *)
EXTENDS Integers, Sequences
CONSTANTS MaxEvents, MaxTime
VARIABLES times, head, now, goal
vars == <<times, head, now, goal>>
Nondec(s) == \A i \in 1..(Len(s) - 1) : s[i] <= s[i + 1]
Init == /\ times \in {s \in UNION {[1..n -> 0..MaxTime] : n \in 1..MaxEvents} : Nondec(s)}
        /\ head = 1 /\ now = times[1] /\ goal = "idle"
Clamp(t) == IF t < times[1] THEN times[1] ELSE IF t > times[Len(times)] THEN times[Len(times)] ELSE t
Ask == goal = "idle" /\ \E t \in -1..(MaxTime + 1) : goal' = "seek" /\ now' = t /\ UNCHANGED <<times, head>>
Forward == goal = "seek" /\ head < Len(times) /\ times[head + 1] <= now /\ head' = head + 1 /\ UNCHANGED <<times, now, goal>>
Back == goal = "seek" /\ head > 1 /\ times[head] > now /\ head' = head - 1 /\ UNCHANGED <<times, now, goal>>
Stop == /\ goal = "seek" /\ ~ENABLED Forward /\ ~ENABLED Back
        /\ goal' = "idle" /\ UNCHANGED <<times, head>> /\ now' = Clamp(now)
Jump == goal = "idle" /\ \E k \in 1..Len(times) : head' = k /\ now' = times[k] /\ UNCHANGED <<times, goal>>
Next == Ask \/ Forward \/ Back \/ Stop \/ Jump
Spec == Init /\ [][Next]_vars /\ WF_vars(Forward \/ Back \/ Stop)
LastNotLater(t) ==
    LET S == {k \in 1..Len(times) : times[k] <= t}
    IN  IF S = {} THEN 1 ELSE CHOOSE k \in S : \A j \in S : j <= k
(* a jump may stand on an earlier event of the same instant *)
Where == (goal = "seek" /\ ~ENABLED Forward /\ ~ENABLED Back) => head = LastNotLater(now)
(* forward and back never alternate: the head moves one way only *)
Unmoved == ~(ENABLED Forward /\ ENABLED Back)
Arrives == [](goal = "seek" => <>(goal = "idle"))
=============================================================================
