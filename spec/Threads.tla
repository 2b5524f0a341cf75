------------------------------- MODULE Threads -------------------------------
(* Several workers look for a solvable board, each with its share of the      *)
(* attempts.  A worker looks at the common flag, lays a board and judges it;  *)
(* whoever finds one raises the flag and sends it.  Every worker ends by      *)
(* sending a board that was not judged.  The caller waits for all of them     *)
(* and then chooses among what was sent.                                      *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Workers,      \* how many
          Budget        \* attempts in all (any value up to it)
VARIABLES budget, pc, tries, flag, sent, found, result, caller
vars == <<budget, pc, tries, flag, sent, found, result, caller>>
W == 1..Workers

(* the shares: worker k takes 1/k of what is left, the last one all the rest  *)
RECURSIVE Left(_, _)
Left(total, k) == IF k = Workers THEN total ELSE LET r == Left(total, k + 1) IN r - (r \div (k + 1))
Share(total, k) == Left(total, k) \div k
SharesAddUp == \A n \in 0..(50 * Workers) :
                 LET sum[k \in 0..Workers] == IF k = 0 THEN 0 ELSE sum[k - 1] + Share(n, k) IN sum[Workers] = n

Init == /\ budget \in 0..Budget
        /\ pc = [k \in W |-> "look"] /\ tries = [k \in W |-> 0] /\ flag = FALSE
        /\ sent = <<>> /\ found = {} /\ result = "none" /\ caller = 1
Look(k) == /\ pc[k] = "look"
           /\ pc' = [pc EXCEPT ![k] = IF tries[k] < Share(budget, k) /\ ~flag THEN "try" ELSE "last"]
           /\ UNCHANGED <<budget, tries, flag, sent, found, result, caller>>
Try(k) == /\ pc[k] = "try"
          /\ tries' = [tries EXCEPT ![k] = @ + 1]
          /\ \/ pc' = [pc EXCEPT ![k] = "look"] /\ UNCHANGED found
             \/ pc' = [pc EXCEPT ![k] = "raise"] /\ found' = found \cup {k}
          /\ UNCHANGED <<budget, flag, sent, result, caller>>
Raise(k) == /\ pc[k] = "raise" /\ flag' = TRUE
            /\ pc' = [pc EXCEPT ![k] = "send"]
            /\ UNCHANGED <<budget, tries, sent, found, result, caller>>
SendGood(k) == /\ pc[k] = "send" /\ sent' = Append(sent, <<k, TRUE>>)
               /\ pc' = [pc EXCEPT ![k] = "last"]
               /\ UNCHANGED <<budget, tries, flag, found, result, caller>>
SendLast(k) == /\ pc[k] = "last" /\ sent' = Append(sent, <<k, FALSE>>)
               /\ pc' = [pc EXCEPT ![k] = "done"]
               /\ UNCHANGED <<budget, tries, flag, found, result, caller>>
Join == /\ caller <= Workers /\ pc[caller] = "done" /\ caller' = caller + 1
        /\ UNCHANGED <<budget, pc, tries, flag, sent, found, result>>
Choose == /\ caller = Workers + 1 /\ result = "none"
          /\ result' = IF \E m \in 1..Len(sent) : sent[m][2] THEN "solvable" ELSE "unknown"
          /\ UNCHANGED <<budget, pc, tries, flag, sent, found, caller>>
Next == \/ \E k \in W : Look(k) \/ Try(k) \/ Raise(k) \/ SendGood(k) \/ SendLast(k)
        \/ Join \/ Choose
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == result # "none"
(* an answer only when nobody works any more                                  *)
NoneLeft == Done => \A k \in W : pc[k] = "done"
(* success exactly if somebody found a board, and then with such a board      *)
Success == Done => (result = "solvable" <=> found # {})
(* failure only when all attempts were made                                   *)
Exhausted == (Done /\ result = "unknown") => \A k \in W : tries[k] = Share(budget, k)
WithinBudget == LET sum[k \in 0..Workers] == IF k = 0 THEN 0 ELSE sum[k - 1] + tries[k] IN sum[Workers] <= budget
OneLast == \A k \in W : Cardinality({m \in 1..Len(sent) : sent[m] = <<k, FALSE>>}) = (IF pc[k] = "done" THEN 1 ELSE 0)
(* it ends under every schedule                                               *)
Answers == <>Done
(* what the caller may conclude, given how many attempts there were and       *)
(* whether every or no board of the kind asked for is solvable                *)
MayAnswer(ok, total, every, none) == /\ (total = 0 \/ none) => ~ok
                                     /\ (total > 0 /\ every) => ok
(* every answer is such a one, and each such answer is reachable              *)
=============================================================================
