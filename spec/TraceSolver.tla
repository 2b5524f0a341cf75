----------------------------- MODULE TraceSolver -----------------------------
(* Recorded answers of the deduction, probability, classification and matrix *)
(* functions against the arrangements of the position (Solver.tla).          *)
EXTENDS Solver, Calls
Spec == CallsInit /\ [][CallsNext]_<<t, k>>
Kind(x) == Seen /\ L.kind = x
ToSet(s) == {s[i] : i \in 1..Len(s)}
NoDup(s) == Cardinality(ToSet(s)) = Len(s)

(* ---------------- C09 / C10 deductions ---------------- *)
(* marks written into the position are sound and nothing else is touched *)
MarksSound(old, new, safe, mine) ==
    /\ Rows(new) = Rows(old) /\ \A i \in 1..Rows(old) : Len(new[i]) = Len(old[i])
    /\ \A p \in Cells(old) :
         \/ At(new, p) = At(old, p)
         \/ At(old, p) = 10 /\ At(new, p) = 11 /\ p \in mine
         \/ At(old, p) = 10 /\ At(new, p) = 12 /\ p \in safe
SoundAnswer(a, gb, safe, mine) ==
    /\ a.ok = 1 /\ a.err = 0
    /\ ToSet(a.safe) \subseteq safe /\ ToSet(a.mine) \subseteq mine
    /\ MarksSound(gb, a.gb, safe, mine)
(* what is marked was also returned, and the other way round *)
MarksReturned(a, gb) ==
    /\ {p \in Cells(gb) : At(gb, p) = 10 /\ At(a.gb, p) = 11} = ToSet(a.mine)
    /\ {p \in Cells(gb) : At(gb, p) = 10 /\ At(a.gb, p) = 12} = ToSet(a.safe)
Sound == Kind("ded") =>
    LET A == TLCEval(Analysis(L.gb))
        S == TLCEval(SafeOf(A))
        M == TLCEval(MineOf(A))
        P == TLCEval(Plain(L.gb))
        PA == TLCEval(Analysis(P))
        PS == TLCEval(SafeOf(PA))
        PM == TLCEval(MineOf(PA))
        o == L.obj
    IN  /\ SoundAnswer(L.direct, L.gb, S, M) /\ MarksReturned(L.direct, L.gb)
        /\ SoundAnswer(L.minus, L.gb, S, M) /\ MarksReturned(L.minus, L.gb)
        /\ SoundAnswer(L.staged, L.gb, S, M)
        /\ SoundAnswer(L.enumerate, L.gb, S, M)
        /\ SoundAnswer(L.all, L.gb, S, M)
        /\ SoundAnswer(L.mark, L.gb, S, M)
        (* the caching object answers for the position without marks *)
        /\ o.ok = 1
        /\ ToSet(o.bs) \cup ToSet(o.es) \subseteq PS
        /\ ToSet(o.bm) \cup ToSet(o.em) \subseteq PM
(* single numbers: a number whose need is 0 or all its cells is decided by   *)
(* the direct stage; two numbers by the subtraction stage                    *)
Complete == Kind("ded") =>
    LET A == TLCEval(Analysis(L.gb))
        S == TLCEval(SafeOf(A))
        M == TLCEval(MineOf(A))
        PA == TLCEval(Analysis(Plain(L.gb)))
        PS == TLCEval(SafeOf(PA))
        PM == TLCEval(MineOf(PA))
        act == Active(L.gb)
        o == L.obj
        (* enumeration gives up on blocks of more than 55 cells *)
        fit == \A b \in A \cup PA : Cardinality(b.cells) <= 55
    IN  /\ \A a \in {L.enumerate, L.all, L.staged} :
             /\ a.ok = 1 /\ NoDup(a.safe \o a.mine)
             /\ fit => ToSet(a.safe) = S /\ ToSet(a.mine) = M
        /\ L.direct.ok = 1
        /\ UNION {Front(L.gb, p) : p \in {q \in act : Need(L.gb, q) = 0}} \subseteq ToSet(L.direct.safe)
        /\ UNION {Front(L.gb, p) : p \in {q \in act : Need(L.gb, q) = Cardinality(Front(L.gb, q))}}
             \subseteq ToSet(L.direct.mine)
        /\ o.ok = 1 /\ NoDup(o.bs \o o.es \o o.bm \o o.em)
        /\ fit => ToSet(o.bs) \cup ToSet(o.es) = PS
        /\ fit => ToSet(o.bm) \cup ToSet(o.em) = PM
(* contradictory positions: marking never panics, and reports a number that  *)
(* its own neighbourhood cannot satisfy                                      *)
Contradiction == Kind("contra") =>
    /\ L.mark.ok = 1
    /\ (\E p \in Active(L.gb) : Need(L.gb, p) < 0 \/ Need(L.gb, p) > Cardinality(Front(L.gb, p)))
          => L.mark.err # 0

ContraProb == Kind("contra") =>
    /\ L.poss.ok = 1
    /\ (\E b \in Analysis(L.gb) : b.sols = {}) => L.poss.err # 0

(* ---------------- C11 mine probability ---------------- *)
ProbOK(x, cnt, n) == IF cnt.total = <<>> THEN FALSE ELSE BClose(x, n, cnt.total, 2)
BoardProb(v, gb, cnt) ==
    \A B \in {cnt.listed} :
    /\ \A p \in Cells(gb) :
        LET x == At(v, p) IN
        CASE At(gb, p) = 11 -> x = 1000000
          [] At(gb, p) = 12 \/ At(gb, p) < 10 -> x = 0
          [] p \in B -> x >= 0 /\ ProbOK(x, cnt, cnt.cell[p])
          [] OTHER -> x >= 0
    /\ \A x \in {At(v, p) : p \in Unknown(gb) \ B} : ProbOK(x, cnt, cnt.inner)
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
Probability == Kind("poss") =>
    LET c0 == TLCEval(Count(L.gb, L.m))
        m == IF L.frac = 1 THEN Clamp(L.m, c0.min, c0.max) ELSE L.m
        cnt == IF m = L.m THEN c0 ELSE TLCEval(Count(L.gb, m))
        range == <<cnt.min, m, cnt.max>>
        inner == Cardinality(Unknown(L.gb) \ cnt.listed)
    IN  IF cnt.total = <<>>
        THEN /\ \A a \in {L, L.board} : a.ok = 1 /\ a.err # 0
             /\ L.marked.ok = 1 /\ (cnt.longest <= EnumLimit => L.marked.err # 0)
        ELSE /\ L.ok = 1 /\ L.err = 0
             /\ NoDup([i \in 1..Len(L.p) |-> <<L.p[i][1], L.p[i][2]>>])
             /\ {<<L.p[i][1], L.p[i][2]>> : i \in 1..Len(L.p)} = cnt.listed
             /\ L.len = cnt.longest
             /\ \A i \in 1..Len(L.p) : L.p[i][3] >= 0 /\ ProbOK(L.p[i][3], cnt, cnt.cell[<<L.p[i][1], L.p[i][2]>>])
             /\ inner > 0 => L.inner >= 0 /\ ProbOK(L.inner, cnt, cnt.inner)
             /\ L.range = range
             /\ L.board.ok = 1 /\ L.board.err = 0 /\ L.board.range = range /\ BoardProb(L.board.p, L.gb, cnt)
             /\ L.marked.ok = 1
             /\ cnt.longest <= EnumLimit => L.marked.err = 0 /\ L.marked.range = range
             /\ cnt.longest <= EnumLimit => \A p \in Cells(L.gb) : At(L.marked.p, p) - At(L.board.p, p) \in -2..2
(* an interface that marks what is easy before it counts (L.mk: the position   *)
(* as marked): same probabilities                                              *)
(* the odds on the board alone, mines in number *)
Odds == (Kind("poss") /\ L.frac = 0) =>
    LET cnt == TLCEval(Count(L.gb, L.m))
    IN  /\ L.board.ok = 1
        /\ cnt.longest <= EnumLimit =>
           IF cnt.total = <<>> THEN L.board.err # 0
           ELSE /\ L.board.err = 0 /\ L.board.range = <<cnt.min, L.m, cnt.max>>
                /\ BoardProb(L.board.p, L.gb, cnt)
MarkedFirst == Kind("poss") =>
    LET c0 == TLCEval(Count(L.gb, L.m))
        m == IF L.frac = 1 THEN Clamp(L.m, c0.min, c0.max) ELSE L.m
        cnt == IF m = L.m THEN c0 ELSE TLCEval(Count(L.gb, m))
        mk == IF L.mk = L.gb THEN cnt ELSE TLCEval(Count(L.mk, m))
        range == <<cnt.min, m, cnt.max>>
    IN  /\ L.ok = 1 /\ L.board.ok = 1
        /\ cnt.longest <= EnumLimit =>
           IF cnt.total = <<>> THEN L.err # 0 /\ L.board.err # 0
           ELSE /\ L.err = 0 /\ L.board.err = 0 /\ L.range = range /\ L.board.range = range
                /\ mk.total # <<>>
                /\ BoardProb(L.board.p, L.gb, cnt)
                /\ NoDup([i \in 1..Len(L.p) |-> <<L.p[i][1], L.p[i][2]>>])
                /\ {<<L.p[i][1], L.p[i][2]>> : i \in 1..Len(L.p)} = mk.listed
                /\ L.len = mk.longest
                /\ \A i \in 1..Len(L.p) : L.p[i][3] >= 0 /\ ProbOK(L.p[i][3], mk, mk.cell[<<L.p[i][1], L.p[i][2]>>])
                /\ Unknown(L.mk) \ mk.listed # {} => L.inner >= 0 /\ ProbOK(L.inner, mk, mk.inner)
PossBoard == Kind("ded") =>
    LET P == TLCEval(Plain(L.gb))
        cnt == TLCEval(Count(P, L.m))
    (* the object marks the easy cells first, which may shorten a long block *)
    IN  L.obj.ok = 1 /\ (cnt.longest <= EnumLimit => BoardProb(L.obj.poss, P, cnt))

(* ---------------- C12 opening probability ---------------- *)
Opening == Kind("op") =>
    LET T == TLCEval(Total(L.gb, L.m))
    IN  /\ L.ok = 1 /\ L.p = L.single
        /\ \A i \in 1..Len(L.cells) : L.p[i] >= 0 /\ BClose(L.p[i], OpeningWays(L.gb, L.m, L.cells[i]), T, 10)

(* ---------------- C14 guess classification ---------------- *)
Guess == Kind("guess") =>
    LET g == TLCEval(Plain(L.gb))
        A == TLCEval(Analysis(g))
        S == TLCEval(SafeOf(A))
        M == TLCEval(MineOf(A))
    IN  \A p \in Cells(g) :
          /\ At(L.code, p) = IF At(g, p) < 10 THEN 5
                             ELSE IF p \in S THEN 1 ELSE IF p \in M THEN 4
                             ELSE IF S # {} /\ GrowRegion(g, {p}) \cap S # {} THEN 3 ELSE 2
          /\ At(g, p) = 10 => At(L.able, p) = (IF p \in S \cup M THEN 1 ELSE 0)

(* ---------------- C15 matrices ---------------- *)
(* the equations of a block as a bag of (cells, need); rows may repeat *)
RowSet(m) == [i \in 1..Len(m.b) |-> <<{m.x[j] : j \in {y \in 1..Len(m.x) : m.a[i][y] # 0}}, m.b[i]>>]
Shape(m) == /\ NoDup(m.x) /\ Len(m.a) = Len(m.b) /\ \A i \in 1..Len(m.a) : Len(m.a[i]) = Len(m.x)
            /\ \A i \in 1..Len(m.a), j \in 1..Len(m.x) : m.a[i][j] \in {0, 1}
BagOf(s) == [v \in ToSet(s) |-> Cardinality({i \in 1..Len(s) : s[i] = v})]
EqBag(gb, nums) == [v \in {<<Front(gb, p), Need(gb, p)>> : p \in nums} |->
                      Cardinality({p \in nums : <<Front(gb, p), Need(gb, p)>> = v})]
IsBlock(m, gb, b) == ToSet(m.x) = b.cells /\ BagOf(RowSet(m)) = EqBag(gb, b.nums)
Squeeze(s) ==
    LET m == s.blk  q == s.sq
        col(M, j) == [i \in 1..Len(M.b) |-> M.a[i][j]]
    IN  /\ Len(q.x) = Len(s.rel)
        /\ UNION {ToSet(s.rel[j]) : j \in 1..Len(s.rel)} = 1..Len(m.x)
        /\ \A j \in 1..Len(s.rel) : NoDup(s.rel[j]) /\ s.rel[j] # <<>>
             /\ q.x[j] = m.x[s.rel[j][1]]
             /\ (\A i \in 1..Len(s.rel[j]) : col(m, s.rel[j][i]) = col(m, s.rel[j][1]))
             /\ (\A i \in 1..Len(m.b) : q.a[i][j] = m.a[i][s.rel[j][1]] * Len(s.rel[j]))
        /\ \A i, j \in 1..Len(s.rel) : i # j => col(m, s.rel[i][1]) # col(m, s.rel[j][1])
        /\ q.b = m.b /\ Len(q.a) = Len(m.a)
(* counts are recorded as digits (BigNat) *)
Coef(poly, n) == IF n + 1 \in DOMAIN poly THEN poly[n + 1] ELSE <<>>
Table(s, b) ==
    LET size == {Mines1(m) : m \in b.sols}
        all == TLCEval(PolyOf(b, 0))
        per == TLCEval([g \in DOMAIN b.groups |-> PolyOf(b, g)])
        group(c) == CHOOSE g \in DOMAIN b.groups : c \in b.groups[g]
    IN  /\ s.err = 0 /\ Len(s.num) = Len(s.cnt) /\ Len(s.num) = Len(s.cell)
        /\ s.num = [i \in 1..(Max(size) - Min(size) + 1) |-> Min(size) + i - 1]
        /\ \A i \in 1..Len(s.num) :
             /\ s.cnt[i] = Coef(all, s.num[i])
             /\ Len(s.cell[i]) = Len(s.sq.x)
             /\ \A j \in 1..Len(s.sq.x) : s.cell[i][j] = Coef(per[group(s.sq.x[j])], s.num[i])
Matrix == Kind("mat") =>
    LET gb == L.gb
        A == TLCEval(Analysis(gb))
        pos == {p \in Active(gb) : At(gb, p) > 0}
    IN  /\ NoPanic
        /\ Shape(L.whole) /\ BagOf(RowSet(L.whole)) = EqBag(gb, pos)
        /\ ToSet(L.whole.x) = UNION {Front(gb, p) : p \in pos}
        /\ L.mines = Cardinality(Marked(gb)) /\ L.unknown = Cardinality(Interior(gb))
        /\ Len(L.segs) = Cardinality(A)
        /\ \A s \in ToSet(L.segs) : Shape(s.blk) /\
             \E b \in A : IsBlock(s.blk, gb, b) /\ Squeeze(s) /\ Table(s, b)
        /\ \A b \in A : \E s \in ToSet(L.segs) : ToSet(s.blk.x) = b.cells
        (* groups: one per region, its blocks complete and none empty *)
        /\ LET regions == {GrowRegion(gb, {p}) : p \in Border(gb)}
               cellsOf(g) == UNION {ToSet(m.x) : m \in ToSet(g)}
           IN  /\ Cardinality({i \in 1..Len(L.groups) : L.groups[i] # <<>>}) = Cardinality(regions)
               /\ \A g \in ToSet(L.groups) : g # <<>> =>
                    /\ \E r \in regions : cellsOf(g) = r \cap Border(gb)
                    /\ NoDup(g)
                    /\ \A m \in ToSet(g) : Shape(m) /\ \E b \in A : IsBlock(m, gb, b)
               /\ \A b \in A : \E g \in ToSet(L.groups), m \in UNION {ToSet(h) : h \in ToSet(L.groups)} :
                    m \in ToSet(g) /\ ToSet(m.x) = b.cells

(* the equations alone, for an interface that shows no more                    *)
Equations == Kind("mat") =>
    LET gb == L.gb
        A == TLCEval(Analysis(gb))
        pos == {p \in Active(gb) : At(gb, p) > 0}
    IN  /\ NoPanic
        /\ Shape(L.whole) /\ BagOf(RowSet(L.whole)) = EqBag(gb, pos)
        /\ ToSet(L.whole.x) = UNION {Front(gb, p) : p \in pos}
        /\ L.mines = Cardinality(Marked(gb)) /\ L.unknown = Cardinality(Interior(gb))
        /\ Len(L.segs) = Cardinality(A)
        /\ \A s \in ToSet(L.segs) : Shape(s.blk) /\ \E b \in A : IsBlock(s.blk, gb, b)
        /\ \A b \in A : \E s \in ToSet(L.segs) : ToSet(s.blk.x) = b.cells
(* ---------------- C13 solvable boards ---------------- *)
Solvable == Kind("solv") =>
    /\ NoPanic
    /\ L.v = 1 => SolvableFrom(L.b, L.p)
NotTooStrict == (Kind("solv") /\ L.v = 0 /\ L.u = 0) => ~SolvableFrom(L.b, L.p)
StructureStuck == (Kind("solv") /\ L.u = 1 /\ At(L.b, L.p) = 0) => ~SolvableFrom(L.b, L.p)
Generated == Kind("gen") =>
    /\ NoPanic
    /\ Rows(L.b) = L.r /\ \A i \in 1..L.r : Len(L.b[i]) = L.c
    /\ Legal(L.b) /\ Cardinality(Mines(L.b)) = L.n
    /\ At(L.b, L.p) # -1
    /\ L.n <= L.r * L.c - Cardinality(N(L.b, L.p)) - 1 => At(L.b, L.p) = 0
    /\ L.v = 1 => SolvableFrom(L.b, L.p)
    (* with no mines or one, and an attempt to spend, every layout succeeds *)
    /\ (L.n = 0 /\ (L.which = 1 \/ L.budget > 0)) => L.v = 1
    /\ (L.which # 1 /\ L.budget = 0) => L.v = 0
=============================================================================
