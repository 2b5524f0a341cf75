----------------------------- MODULE TraceThreads -----------------------------
(* Answers of the generator that uses several threads, run many times each:   *)
(* are they answers that Threads allows?                                      *)
EXTENDS Solver, Batch
(* requests whose layouts are few enough to say which can be solved            *)
RequestLines == ndJsonDeserialize(IOEnv.REQUESTS)
Requests == {<<x.r, x.c, x.n, x.p>> : x \in {RequestLines[m] : m \in 1..Len(RequestLines)}}
Free(q) == ((1..q[1]) \X (1..q[2])) \ Box(q[1], q[2], q[4])
Layouts(q) == {NumberBoard(q[1], q[2], M) : M \in kSubset(q[3], Free(q))}
Share == TLCEval([q \in Requests |-> [all |-> Cardinality(Layouts(q)),
                                      good |-> Cardinality({b \in Layouts(q) : SolvableFrom(b, q[4])})]])

Request == <<O.r, O.c, O.n, O.p>>
(* a legal board of the size asked for, with the start open and empty, and     *)
(* solvable if said to be                                                     *)
Delivered == O.op = "threads" =>
    /\ O.ok = 1
    /\ Rows(O.b) = O.r /\ \A i \in 1..O.r : Len(O.b[i]) = O.c
    /\ Legal(O.b) /\ Cardinality(Mines(O.b)) = O.n /\ At(O.b, O.p) = 0
    /\ O.v = 1 => SolvableFrom(O.b, O.p)
(* Threads!Success and Exhausted: with nothing to find there is no success;    *)
(* where every layout will do the first attempt succeeds; and so many          *)
(* attempts that all failing has odds below e^-40 succeed                      *)
Answered == (O.op = "threads" /\ Request \in Requests) =>
    \A s \in {Share[Request]} :
        /\ (O.budget = 0 \/ s.good = 0) => O.v = 0
        /\ (O.budget > 0 /\ s.good = s.all) => O.v = 1
        /\ O.budget * s.good >= 40 * s.all => O.v = 1
=============================================================================
