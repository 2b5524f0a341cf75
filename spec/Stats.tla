-------------------------------- MODULE Stats --------------------------------
(* The statistics of a game as functions of its counters and its time.        *)
(* Shown values come in thousandths (rounded); times in ms.                   *)
EXTENDS Integers, Sequences, BigNat

(* shown/1000 = num/den *)
Near(shown, num, den) == shown >= 0 /\ BClose(shown, BNat(num), BMulS(BNat(den), 1000), 1)
RECURSIVE BPow(_, _)
BPow(a, n) == IF n = 0 THEN <<1>> ELSE LET h == BPow(BMul(a, a), n \div 2) IN IF n % 2 = 1 THEN BMul(a, h) ELSE h
Ten(n) == BPow(<<10>>, n)

(* per second, at t ms: nothing below a thousandth of a second *)
Rate(shown, n, t) == IF t <= 0 THEN shown = 0
                     ELSE shown >= 0 /\ BClose(shown, BMulS(BNat(n), 1000), BMulS(BNat(t), 1000), 1)
Ratio(shown, a, b) == IF b = 0 THEN shown = 0 ELSE Near(shown, a, b)
(* time at which the whole board would be done at this speed *)
Etime(shown, t, solved, bbbv) == IF solved = 0 THEN shown = 0 ELSE shown >= 0 /\ BClose(shown, BMul(BNat(t), BNat(bbbv)), BMulS(BNat(solved), 1000000), 1000)
(* t^2 / solved *)
Rqp(shown, t, solved) == IF solved = 0 THEN shown = 0
                         ELSE shown >= 0 /\ LET m == BMul(BNat(t), BNat(t))
                              IN  /\ BLe(BMulS(BMulS(BNat(IF shown > 0 THEN shown - 1 ELSE 0), solved), 1000), m)
                                  /\ BLe(m, BMulS(BMulS(BNat(shown + 1), solved), 1000))
(* t^1.7 / solved, by tenth powers *)
Qg(shown, t, solved) == IF solved = 0 THEN shown = 0
                        ELSE shown >= 0 /\ LET m == BPow(BNat(t), 17)
                                 v(x) == BMul(BPow(BMulS(BNat(x), solved), 10), Ten(21))
                             IN  BLe(v(IF shown > 0 THEN shown - 1 ELSE 0), m) /\ BLe(m, v(shown + 1))
(* the largest number noted down: anything from there on                      *)
Most == 2000000000
(* c * bbbv / t^1.7 * sqrt(solved / bbbv), c depending on the level; the      *)
(* constant of the beginner level is published in two versions                *)
StnbC(h, w, n) == IF h = 8 /\ w = 8 /\ n = 10 THEN <<47220, 47299>>
                  ELSE IF h = 16 /\ w = 16 /\ n = 40 THEN <<153730, 153730>>
                  ELSE IF h = 16 /\ w = 30 /\ n = 99 THEN <<435001, 435001>> ELSE <<0, 0>>
Stnb(shown, h, w, n, t, solved, bbbv) ==
    LET c == StnbC(h, w, n)
    IN  IF c[1] = 0 \/ t <= 0 THEN shown = 0
        ELSE LET want(x) == BMul(BMul(BPow(BNat(x), 20), BPow(BMul(BNat(bbbv), BNat(solved)), 10)), Ten(102))
                 v(x) == BMul(BPow(BNat(x), 20), BPow(BNat(t), 34))
             IN  /\ shown >= 0 /\ BLe(v(IF shown > 0 THEN shown - 1 ELSE 0), want(c[2]))
                 /\ shown = Most \/ BLe(want(c[1]), v(shown + 1))

RECURSIVE RootR(_, _, _)
RootR(n, lo, hi) == IF lo = hi THEN lo
                    ELSE LET m == (lo + hi + 1) \div 2 IN IF m * m <= n THEN RootR(n, m, hi) ELSE RootR(n, lo, m - 1)
Root(n) == RootR(n, 0, 46340)
(* hundredths of the distance between two points, rounded down by at most 10  *)
Dist(a, b) == LET d2 == (a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2])
              IN  IF d2 <= 200000 THEN Root(10000 * d2) ELSE 10 * Root(100 * d2)
=============================================================================
