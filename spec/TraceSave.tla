------------------------------ MODULE TraceSave ------------------------------
(* Recorded saves: the directory before and after each.                       *)
EXTENDS Video, Batch
Dir(s) == [x \in {s[m].n : m \in 1..Len(s)} |-> s[CHOOSE m \in 1..Len(s) : s[m].n = x].c]
Stored == line > 0 =>
    \A m \in 1..Len(O.steps) :
        LET s == O.steps[m]
        IN  /\ s.ok /\ Dir(s.after) = Save(Dir(s.before), s.base, s.c)
            /\ \A d \in 1..Len(s.before) : s.before[d].c >= 0
=============================================================================
