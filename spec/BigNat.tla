------------------------------- MODULE BigNat -------------------------------
(* Natural numbers of any size (TLC's own integers have 32 bits): sequences  *)
(* of digits, least significant first, base 10^4, without trailing zeros.    *)
EXTENDS Integers, Sequences
LOCAL BASE == 10000
BZero == <<>>
Trim(a) == LET RECURSIVE T(_)
               T(x) == IF x # <<>> /\ x[Len(x)] = 0 THEN T(SubSeq(x, 1, Len(x) - 1)) ELSE x
           IN  T(a)
RECURSIVE BNat(_)
BNat(n) == IF n = 0 THEN <<>> ELSE <<n % BASE>> \o BNat(n \div BASE)
LOCAL H(a) == IF a = <<>> THEN 0 ELSE Head(a)
LOCAL TT(a) == IF a = <<>> THEN <<>> ELSE Tail(a)
RECURSIVE AddC(_, _, _)
LOCAL AddC(a, b, c) ==
    IF a = <<>> /\ b = <<>> THEN (IF c = 0 THEN <<>> ELSE <<c>>)
    ELSE LET s == H(a) + H(b) + c IN <<s % BASE>> \o AddC(TT(a), TT(b), s \div BASE)
BAdd(a, b) == IF a = <<>> THEN b ELSE IF b = <<>> THEN a ELSE AddC(a, b, 0)
RECURSIVE MulC(_, _, _)
LOCAL MulC(a, s, c) ==
    IF a = <<>> THEN BNat(c)
    ELSE LET v == Head(a) * s + c IN <<v % BASE>> \o MulC(Tail(a), s, v \div BASE)
RECURSIVE SubC(_, _, _)
LOCAL SubC(a, b, c) ==
    IF a = <<>> THEN <<>>
    ELSE LET s == H(a) - H(b) - c IN <<(s + BASE) % BASE>> \o SubC(TT(a), TT(b), IF s < 0 THEN 1 ELSE 0)
(* a - b, for b <= a *)
BSub(a, b) == Trim(SubC(a, b, 0))
(* times a small number, s <= 200000 *)
BMulS(a, s) == IF s = 0 \/ a = <<>> THEN <<>> ELSE Trim(MulC(a, s, 0))
RECURSIVE MulB(_, _)
LOCAL MulB(a, b) == IF b = <<>> THEN <<>>
                    ELSE BAdd(BMulS(a, Head(b)), LET r == MulB(a, Tail(b)) IN IF r = <<>> THEN <<>> ELSE <<0>> \o r)
BMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>> ELSE IF a = <<1>> THEN b ELSE Trim(MulB(a, b))
(* divided by a small number, s <= 200000, exactly or rounded down *)
BDivS(a, s) ==
    LET RECURSIVE D(_, _)
        D(i, rem) == IF i = 0 THEN <<>>
                     ELSE LET v == rem * BASE + a[i] IN D(i - 1, v % s) \o <<v \div s>>
    IN  Trim(D(Len(a), 0))
RECURSIVE LeR(_, _, _)
LOCAL LeR(a, b, i) == IF i = 0 THEN TRUE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LeR(a, b, i - 1)
BLe(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE LeR(a, b, Len(a))
(* the row of binomial coefficients C(n, 0..n), as a sequence: C(n,k) at k+1 *)
BinomialRow(n) ==
    LET RECURSIVE R(_, _)
        R(i, c) == IF i = n THEN <<c>> ELSE <<c>> \o R(i + 1, BDivS(BMulS(c, n - i), i + 1))
    IN  R(0, <<1>>)
(* one of them by its prime factors: p divides C(n, k) as often as carries    *)
(* say (Legendre)                                                             *)
Primes(n) == {p \in 2..n : \A d \in 2..p : d * d > p \/ p % d # 0}
LOCAL Times(p, n, k) == LET RECURSIVE E(_)
                            E(q) == (n \div q) - (k \div q) - ((n - k) \div q) + (IF n \div q < p THEN 0 ELSE E(q * p))
                        IN  E(p)
RECURSIVE BPowS(_, _, _)
LOCAL BPowS(a, p, e) == IF e = 0 THEN a ELSE BPowS(BMulS(a, p), p, e - 1)
Binom(n, k) ==
    IF k < 0 \/ k > n THEN <<>>
    ELSE LET RECURSIVE R(_, _)
             R(ps, a) == IF ps = {} THEN a
                         ELSE LET p == CHOOSE x \in ps : TRUE IN R(ps \ {p}, BPowS(a, p, Times(p, n, k)))
         IN  R({p \in Primes(n) : Times(p, n, k) > 0}, <<1>>)
(* C(n, lo..hi), as a sequence *)
Binomials(n, lo, hi) ==
    LET from == IF lo < 0 THEN 0 ELSE lo
        RECURSIVE R(_, _)
        R(i, c) == IF i > hi THEN <<>>
                   ELSE <<c>> \o (IF i < n THEN R(i + 1, BDivS(BMulS(c, n - i), i + 1)) ELSE [j \in 1..(hi - i) |-> <<>>])
    IN  [j \in 1..(IF hi < from THEN hi - lo + 1 ELSE from - lo) |-> <<>>] \o
        (IF from > n THEN [j \in 1..(hi - from + 1) |-> <<>>] ELSE R(from, Binom(n, from)))
(* |p6 / 10^6 - k / T| <= tol / 10^6 *)
BClose(p6, k, T, tol) ==
    LET A == BAdd(BMulS(BMulS(T, p6 \div 1000), 1000), BMulS(T, p6 % 1000))
        B == BMulS(BMulS(k, 1000), 1000)
        e == BMulS(T, tol)
    IN  BLe(A, BAdd(B, e)) /\ BLe(B, BAdd(A, e))
=============================================================================
