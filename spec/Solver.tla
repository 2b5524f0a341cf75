------------------------------- MODULE Solver -------------------------------
(* What a displayed position implies.  A position is a displayed board with  *)
(* 0..8 opened numbers, 10 unknown, 11 known mine, 12 known safe.  Its        *)
(* arrangements are the sets of mines among the unknown cells that give every *)
(* opened number its value.  Everything else is defined from arrangements,    *)
(* which are computed block by block (blocks: numbers linked by shared cells).*)
EXTENDS Grid, BigNat, FiniteSetsExt, TLC

Unknown(gb) == {p \in Cells(gb) : At(gb, p) = 10}
Marked(gb) == {p \in Cells(gb) : At(gb, p) = 11}
Opened(gb) == {p \in Cells(gb) : At(gb, p) \in 0..8}
Front(gb, p) == {q \in N(gb, p) : At(gb, q) = 10}
Need(gb, p) == At(gb, p) - Cardinality({q \in N(gb, p) : At(gb, q) = 11})
(* opened numbers that say something about unknown cells *)
Active(gb) == {p \in Opened(gb) : Front(gb, p) # {}}
Border(gb) == UNION {Front(gb, p) : p \in Active(gb)}
Interior(gb) == Unknown(gb) \ Border(gb)

(* ---- the naive definition (exponential) ---- *)
Agrees(gb, m) == \A p \in Opened(gb) : Cardinality(m \cap N(gb, p)) = Need(gb, p)
NaiveArrangements(gb, S) == {m \in SUBSET S : Agrees(gb, m)}

(* ---- blocks ---- *)
System(gb) == [p \in Active(gb) |-> [f |-> Front(gb, p), n |-> Need(gb, p)]]
RECURSIVE GrowBlock(_, _, _)
GrowBlock(s, nums, cells) ==
    LET new == {p \in DOMAIN s \ nums : s[p].f \cap cells # {}}
    IN  IF new = {} THEN [nums |-> nums, cells |-> cells]
        ELSE GrowBlock(s, nums \cup new, cells \cup UNION {s[p].f : p \in new})
RECURSIVE BlocksR(_, _)
BlocksR(s, rest) ==
    IF rest = {} THEN {}
    ELSE LET p == CHOOSE q \in rest : TRUE
             b == GrowBlock(s, {p}, s[p].f)
         IN  {b} \cup BlocksR(s, rest \ b.nums)
BlocksOf(s) == BlocksR(s, DOMAIN s)

(* ---- arrangements of one block: number after number ---- *)
(* Cells seen by the same numbers of a block are exchangeable: they form a    *)
(* group, and it is enough to say how many mines each group holds.  A         *)
(* solution is such a sequence of numbers; it stands for as many arrangements *)
(* as there are ways to choose the cells (Weight).                            *)
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
GroupsOf(s, b) ==
    LET sees == TLCEval([c \in b.cells |-> {p \in b.nums : c \in s[p].f}])
    IN  SeqOf({{c \in b.cells : sees[c] = v} : v \in {sees[c] : c \in b.cells}})
RECURSIVE Fill(_, _, _, _)
(* n mines into the groups us *)
Fill(m, us, size, n) ==
    IF us = {} THEN IF n = 0 THEN {m} ELSE {}
    ELSE LET u == CHOOSE x \in us : TRUE
         IN  UNION {Fill([m EXCEPT ![u] = k], us \ {u}, size, n - k) : k \in 0..Min2(size[u], n)}
MinesIn(m, S) == MapThenSumSet(LAMBDA g : m[g], S)
RECURSIVE Extend(_, _, _, _, _, _)
Extend(s, at, size, nums, done, sols) ==
    IF nums = {} \/ sols = {} THEN sols
    ELSE LET near == {p \in nums : at[p] \cap done # {}}
             cand == IF near = {} THEN nums ELSE near
             fresh == TLCEval([p \in cand |-> Cardinality(at[p] \ done)])
             p == CHOOSE q \in cand : \A r \in cand : fresh[q] <= fresh[r]
             new == at[p] \ done
             old == at[p] \cap done
         IN  Extend(s, at, size, nums \ {p}, done \cup new,
                    UNION {Fill(m, new, size, s[p].n - MinesIn(m, old)) : m \in sols})

(* the blocks of a position with their arrangements, as a set of records *)
BlockOf(s, b) ==
    LET groups == TLCEval(GroupsOf(s, b))
        size == TLCEval([g \in DOMAIN groups |-> Cardinality(groups[g])])
        at == TLCEval([p \in b.nums |-> {g \in DOMAIN groups : groups[g] \subseteq s[p].f}])
    IN  [nums |-> b.nums, cells |-> b.cells, groups |-> groups, size |-> size,
         sols |-> Extend(s, at, size, b.nums, {}, {[g \in DOMAIN groups |-> 0]})]
Analysis(gb) ==
    LET s == TLCEval(System(gb))
    IN  {BlockOf(s, b) : b \in BlocksOf(s)}

(* some arrangement exists (whatever the number of mines) *)
Consistent(gb) ==
    /\ \A p \in Opened(gb) \ Active(gb) : Need(gb, p) = 0
    /\ \A b \in Analysis(gb) : b.sols # {}

GroupsWith(b, P(_)) == UNION {b.groups[g] : g \in {h \in DOMAIN b.groups : P(h)}}
SafeOf(A) == UNION {GroupsWith(b, LAMBDA g : \A m \in b.sols : m[g] = 0) : b \in A}
MineOf(A) == UNION {GroupsWith(b, LAMBDA g : \A m \in b.sols : m[g] = b.size[g]) : b \in A}
CertainSafe(gb) == SafeOf(Analysis(gb))
CertainMine(gb) == MineOf(Analysis(gb))

(* ---- counting arrangements with a given number of mines ---- *)
(* polynomials: sequence, coefficient of x^k at k+1 *)
(* C(n, k) for groups: a number has at most 8 neighbours *)
SmallC == [n \in 0..8 |-> [k \in 0..8 |-> IF k > n THEN 0 ELSE
            LET RECURSIVE R(_)
                R(i) == IF i = 0 THEN 1 ELSE (R(i - 1) * (n - i + 1)) \div i
            IN  R(k)]]
RECURSIVE WeightR(_, _, _, _)
(* forced: the group one of whose cells is a mine by assumption, 0 if none *)
WeightR(m, size, forced, i) ==
    IF i = 0 THEN <<1>>
    ELSE LET c == IF i # forced THEN SmallC[size[i]][m[i]]
                  ELSE IF m[i] = 0 THEN 0 ELSE SmallC[size[i] - 1][m[i] - 1]
             w == WeightR(m, size, forced, i - 1)
         IN  IF c = 1 THEN w ELSE BMulS(w, c)
Weight(m, size, forced) == WeightR(m, size, forced, Len(size))
Mines1(m) == MinesIn(m, DOMAIN m)
PolyOf(b, forced) ==
    LET n == TLCEval([m \in b.sols |-> Mines1(m)])
        w == TLCEval([m \in b.sols |-> Weight(m, b.size, forced)])
        mx == Max({n[m] : m \in b.sols} \cup {0})
    IN  TLCEval([k \in 1..mx+1 |-> FoldSet(LAMBDA m, acc : BAdd(w[m], acc), <<>>, {m \in b.sols : n[m] = k - 1})])
RECURSIVE SumB(_, _, _)
SumB(f(_), i, n) == IF i > n THEN <<>> ELSE BAdd(f(i), SumB(f, i + 1, n))
PolyMul(p, q) ==
    IF p = <<>> \/ q = <<>> THEN <<>>
    ELSE TLCEval([k \in 1..(Len(p) + Len(q) - 1) |->
        LET term(i) == BMul(p[i], q[k + 1 - i])
        IN  SumB(term, Max2(1, k + 1 - Len(q)), Min2(k, Len(p)))])
RECURSIVE PolyProd(_)
PolyProd(S) == IF S = {} THEN <<<<1>>>>
               ELSE LET x == CHOOSE y \in S : TRUE IN PolyMul(x.poly, PolyProd(S \ {x}))
(* number of ways to put mines on the border (polynomial P) and M in total,   *)
(* with u interior cells                                                     *)
Inside(n, u, M) == TLCEval(Binomials(u, M - n + 1, M))     \* for polynomials of length up to n
WaysBy(P, n, row) ==
    LET term(k) == IF row[n - k + 1] = <<>> THEN <<>> ELSE BMul(P[k], row[n - k + 1])
    IN  SumB(term, 1, Len(P))
Ways(P, u, M) == WaysBy(P, Len(P), Inside(Len(P), u, M))
WithPoly(A) == {[cells |-> b.cells, groups |-> b.groups, size |-> b.size, sols |-> b.sols, poly |-> PolyOf(b, 0)] : b \in A}

(* arrangements of the position with M mines altogether *)
Total(gb, M) ==
    LET A == TLCEval(WithPoly(Analysis(gb)))
    IN  Ways(PolyProd(A), Cardinality(Interior(gb)), M - Cardinality(Marked(gb)))

(* [total, cell -> number of arrangements in which it is a mine, interior].   *)
(* A block of more than EnumLimit cells is not enumerated: its cells count as *)
(* if no number touched them.                                                 *)
EnumLimit == 55
Count(gb, M) ==
    LET all == TLCEval(Analysis(gb))
        A == TLCEval(WithPoly({b \in all : Cardinality(b.cells) <= EnumLimit}))
        listed == UNION {b.cells : b \in A}
        u == Cardinality(Unknown(gb) \ listed)
        R == M - Cardinality(Marked(gb))
        P == TLCEval(PolyProd(A))
        blockOf(c) == CHOOSE b \in A : c \in b.cells
        rest == TLCEval([b \in A |-> PolyProd(A \ {b})])
        row == TLCEval(Inside(Len(P), u, R))
    IN  [total |-> WaysBy(P, Len(P), row),
         listed |-> listed,
         longest |-> Max({Cardinality(b.cells) : b \in all} \cup {0}),
         cell |-> LET per == TLCEval([b \in A |-> TLCEval([g \in DOMAIN b.groups |->
                                  IF \A m \in b.sols : m[g] = 0 THEN <<>>
                                  ELSE WaysBy(PolyMul(rest[b], PolyOf(b, g)), Len(P), row)])])
                  IN  TLCEval([c \in listed |-> LET b == blockOf(c)
                                                IN  per[b][CHOOSE g \in DOMAIN b.groups : c \in b.groups[g]]]),
         inner |-> IF u = 0 \/ R = 0 THEN <<>> ELSE Ways(P, u - 1, R - 1),
         min |-> Cardinality(Marked(gb)) + MapThenSumSet(LAMBDA b : Min({Mines1(m) : m \in b.sols}), A),
         max |-> Cardinality(Marked(gb)) + u + MapThenSumSet(LAMBDA b : Max({Mines1(m) : m \in b.sols}), A)]

(* the position with the cells of S known safe *)
AssumeSafe(gb, S) == [i \in 1..Rows(gb) |-> [j \in 1..Cols(gb) |->
                        IF <<i, j>> \in S /\ gb[i][j] = 10 THEN 12 ELSE gb[i][j]]]
(* arrangements in which p and all its neighbours are free of mines *)
OpeningWays(gb, M, p) ==
    LET box == N(gb, p) \cup {p}
    IN  IF At(gb, p) \in {11} \cup 0..8 \/ \E q \in box : At(gb, q) = 11 THEN <<>>
        ELSE LET g2 == AssumeSafe(gb, box)
             IN  IF Consistent(g2) THEN Total(g2, M) ELSE <<>>

(* ---- regions: unknown cells connected by contact or by a shared number ---- *)
RECURSIVE GrowRegion(_, _)
GrowRegion(gb, S) ==
    LET touch == UNION {N(gb, p) \cap Unknown(gb) : p \in S}
        linked == UNION {Front(gb, q) : q \in {x \in Opened(gb) : Front(gb, x) \cap S # {}}}
        T == S \cup touch \cup linked
    IN  IF T = S THEN S ELSE GrowRegion(gb, T)

(* the player's view: marks other than openings are not knowledge *)
Plain(gb) == [i \in 1..Rows(gb) |-> [j \in 1..Cols(gb) |-> IF gb[i][j] > 10 THEN 10 ELSE gb[i][j]]]

(* classification of a click at p (see C14): 1 sure and right, 2 forced       *)
(* guess, 3 needless guess, 4 sure mine, 5 not a closed cell                  *)
Classify(gb, p) ==
    LET g == Plain(gb)
    IN  IF At(g, p) < 10 THEN 5
        ELSE LET A == TLCEval(Analysis(g))
                 S == SafeOf(A)
             IN  IF p \in S THEN 1
                 ELSE IF p \in MineOf(A) THEN 4
                 ELSE IF GrowRegion(g, {p}) \cap S # {} THEN 3 ELSE 2

(* ---- playing without guessing ---- *)
(* quick consequences of single numbers, then of whole blocks *)
Mark(gb, S, v) == [i \in 1..Rows(gb) |-> [j \in 1..Cols(gb) |-> IF <<i, j>> \in S THEN v ELSE gb[i][j]]]
RECURSIVE Deduce(_, _)
Deduce(b, gb) ==
    LET sys == TLCEval(System(gb))
        act == DOMAIN sys
        easySafe == UNION {sys[p].f : p \in {q \in act : sys[q].n = 0}}
        easyMine == UNION {sys[p].f : p \in {q \in act : sys[q].n = Cardinality(sys[q].f)}}
        (* two numbers: what one has beyond the other must all be mines, so    *)
        (* what the other has beyond it is safe                               *)
        pairs == {x \in act \X act : /\ Abs(x[1][1] - x[2][1]) <= 2 /\ Abs(x[1][2] - x[2][2]) <= 2
                                     /\ sys[x[1]].n - sys[x[2]].n = Cardinality(sys[x[1]].f \ sys[x[2]].f)}
        pairSafe == TLCEval(UNION {sys[x[2]].f \ sys[x[1]].f : x \in pairs})
        pairMine == TLCEval(UNION {sys[x[1]].f \ sys[x[2]].f : x \in pairs})
    IN  IF AllSafeOpen(b, gb) THEN TRUE
        ELSE IF easySafe # {} THEN Deduce(b, TLCEval(OpenCells(b, gb, easySafe)))
        ELSE IF easyMine # {} THEN Deduce(b, TLCEval(Mark(gb, easyMine, 11)))
        ELSE IF pairSafe # {} THEN Deduce(b, TLCEval(OpenCells(b, gb, pairSafe)))
        ELSE IF pairMine # {} THEN Deduce(b, TLCEval(Mark(gb, pairMine, 11)))
        ELSE LET A == TLCEval(Analysis(gb))
                 S == SafeOf(A)
                 M == MineOf(A)
             IN  IF S # {} THEN Deduce(b, TLCEval(OpenCells(b, Mark(gb, M, 11), S)))
                 ELSE FALSE
AllClosed(R, C) == [i \in 1..R |-> [j \in 1..C |-> 10]]
SolvableFrom(b, p) == At(b, p) # -1 /\ Deduce(b, OpenCells(b, AllClosed(Rows(b), Cols(b)), {p}))
=============================================================================
