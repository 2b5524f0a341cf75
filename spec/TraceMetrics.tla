---------------------------- MODULE TraceMetrics ----------------------------
(* Recorded answers of the metric functions, of the caching Board object, of *)
(* mine laying and of the protected board, against the definitions in Grid.  *)
EXTENDS Grid, Calls, FiniteSetsExt, SequencesExt
Spec == CallsInit /\ [][CallsNext]_<<t, k>>

Value(b, q) == CASE q = 10 -> BBBV(b) [] q = 11 -> OpNum(b) [] q = 12 -> IslNum(b)
                 [] OTHER -> CellNum(b, q)

(* functions, on a plain and on a protected board; then a history of queries *)
(* to one Board object                                                       *)
Metrics == Seen /\ L.kind = "metrics" =>
    /\ NoPanic
    /\ LET v == [q \in 0..12 |-> Value(L.b, q)]
       IN  /\ \A f \in {1, 2} : /\ L.fun[f][1] = v[10] /\ L.fun[f][2] = v[11] /\ L.fun[f][3] = v[12]
                                /\ \A c \in 0..8 : L.fun[f][4 + c] = v[c]
           /\ \A h \in 1..Len(L.hist) : L.hist[h][2] = v[L.hist[h][1]]

(* opening cells of a displayed board, whatever is on it                      *)
Flooding == Seen /\ L.kind = "flood" =>
    /\ NoPanic
    /\ \A want \in {OpenCells(L.b, L.gb, {L.s[x] : x \in 1..Len(L.s)})} : L.plain = want /\ L.safe = want

(* mine laying *)
Lay == Seen /\ L.kind = "lay" =>
    /\ NoPanic
    /\ Len(L.b) = L.r /\ \A i \in 1..L.r : Len(L.b[i]) = L.c
    /\ Legal(L.b)
    /\ Cardinality(Mines(L.b)) = L.n
    /\ At(L.b, L.p) # -1
    /\ L.op = 1 => At(L.b, L.p) = 0

(* every layout allowed occurs, and no other                                   *)
Start(q) == IF q.which = 0 THEN {q.p} ELSE Box(q.r, q.c, q.p)
Occurs == Seen /\ L.kind = "every" =>
    /\ NoPanic
    /\ \A free \in {((1..L.r) \X (1..L.c)) \ Start(L)} :
       \A seen \in {{{m[x] : x \in 1..Len(m)} : m \in {L.seen[y] : y \in 1..Len(L.seen)}}} :
          /\ \A m \in seen : m \subseteq free /\ Cardinality(m) = L.n
          /\ Cardinality(seen) = Cardinality(kSubset(L.n, free))

(* the sampler of expert boards: as many as asked for                           *)
Sampled == Seen /\ L.kind = "sample" =>
    /\ NoPanic
    /\ FoldLeft(LAMBDA a, x : a + x, 0, L.h) = L.n

(* ... and just as hard as as many boards laid the plain way: for every x, the  *)
(* numbers of sampled and of laid boards of a 3BV of at most x differ by no     *)
(* more than chance allows (were the distributions the same, a larger distance  *)
(* would have odds below 2 e^-25 by Hoeffding's inequality)                     *)
Upto(h) == FoldLeft(LAMBDA a, x : Append(a, x + (IF a = <<>> THEN 0 ELSE Last(a))), <<>>, h)
Near(a, b) == Abs(a - b) < 46000 /\ (a - b) * (a - b) <= 50 * (a + b + 1)
AsHard == Seen /\ L.kind = "hard" =>
    /\ NoPanic
    /\ \A h \in {Upto(L.h)}, q \in {Upto(L.plain)} :
         /\ Last(h) = L.n /\ Last(q) = L.n
         /\ \A x \in 1..Len(h) : Near(h[x], q[x]) /\ Near(L.n - h[x], L.n - q[x])
(* the laid boards were counted as the definition says *)
Counted == Seen /\ L.kind = "plain" => L.bv = BBBV(L.b)

(* the protected board: what went in last comes out, on every way out *)
Protected == Seen /\ L.kind = "safe" =>
    /\ NoPanic
    /\ \A s \in 1..Len(L.hist) :
         LET h == L.hist[s]
         IN  h.index = h.put /\ h.iter = h.put /\ h.rows = h.put /\ h.whole = h.put
             /\ h.len = Len(h.put)
=============================================================================
