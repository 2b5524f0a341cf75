-------------------------------- MODULE Mvf ---------------------------------
(* The Minesweeper Clone 0.97 video file.  Each event is 40 bits of which the *)
(* order depends on two bytes of the file: `digits' are the 40 decimal digits *)
(* that belong to them (trigonometry, done outside the specification).        *)
EXTENDS Bytes, FiniteSets
(* place of the n-th bit, n from 0: positions of digit 0 first, then 1, ...   *)
Order(digits) ==
    LET Of(v) == SelectSeq([k \in 1..40 |-> k], LAMBDA k : digits[k] = v)
        RECURSIVE Cat(_)
        Cat(v) == IF v > 9 THEN <<>> ELSE Of(v) \o Cat(v + 1)
    IN  Cat(0)
BitAt(e, ord, n) == LET k == ord[n + 1] - 1 IN (e[k \div 8 + 1] \div (2 ^ (k % 8))) % 2
RECURSIVE BitsOf(_, _, _, _)
BitsOf(e, ord, from, n) == IF n = 0 THEN 0 ELSE BitsOf(e, ord, from, n - 1) + BitAt(e, ord, from + n - 1) * (2 ^ (n - 1))
MvfEvent(e, ord) == [rb |-> BitAt(e, ord, 0), mb |-> BitAt(e, ord, 1), lb |-> BitAt(e, ord, 2),
                     y |-> BitsOf(e, ord, 3, 9), x |-> BitsOf(e, ord, 12, 9),
                     t |-> BitsOf(e, ord, 21, 7) * 10 + BitsOf(e, ord, 28, 10) * 1000]
Opt(c, k) == IF c THEN <<k>> ELSE <<>>
(* what happened between two samples of position and buttons *)
Changes(a, b) == Opt(a.x # b.x \/ a.y # b.y, "mv") \o Opt(b.lb > a.lb, "lc") \o Opt(b.rb > a.rb, "rc") \o Opt(b.mb > a.mb, "mc")
                 \o Opt(b.lb < a.lb, "lr") \o Opt(b.rb < a.rb, "rr") \o Opt(b.mb < a.mb, "mr")
RECURSIVE MvfEvents(_, _)
MvfEvents(s, k) ==
    IF k > Len(s) THEN <<>>
    ELSE LET ks == IF k = 1 THEN <<IF s[1].mb = 1 THEN "mc" ELSE IF s[1].rb = 1 THEN "rc" ELSE IF s[1].lb = 1 THEN "lc" ELSE "mv">>
                   ELSE Changes(s[k - 1], s[k])
         IN  [j \in 1..Len(ks) |-> <<ks[j], s[k].t, s[k].x, s[k].y>>] \o MvfEvents(s, k + 1)
MvfDecode(d, digits) ==
    IF ~Has(d, 1, 2) THEN Bad
    ELSE IF d[1] # 17 \/ d[2] # 77 THEN [ok |-> TRUE, empty |-> TRUE]
    ELSE IF ~Has(d, 28, 1) THEN Bad
    ELSE IF d[28] # 53 THEN [ok |-> TRUE, empty |-> TRUE]
    ELSE LET p == 29 + 46                    \* month day year(2) hour minute second level mode time ...
             b == p + 23                     \* width
         IN  IF ~Has(d, p, 27) \/ d[p + 7] > 253 \/ d[b] = 0 \/ d[b + 1] = 0 THEN Bad
             ELSE LET w == d[b]
                      h == d[b + 1]
                      n == B16(d, b + 2)
                      col(k) == d[b + 4 + 2 * (k - 1)]
                      row(k) == d[b + 5 + 2 * (k - 1)]
                      mines == {<<row(k), col(k)>> : k \in 1..n}
                      q == b + 4 + 2 * n     \* player
                  IN  IF ~Has(d, b + 4, 2 * n) \/ (\E k \in 1..n : row(k) \notin 1..h \/ col(k) \notin 1..w) \/ ~Has(d, q, 1) THEN Bad
                      ELSE LET l == d[q]
                               z == q + 1 + l
                           IN  IF ~Has(d, z, 5) THEN Bad
                               ELSE LET cnt == B24(d, z + 2)
                                        ord == Order(digits)
                                    IN  IF cnt = 0 \/ ~Has(d, z + 5, 5 * cnt) THEN Bad
                                        ELSE [ok |-> TRUE, empty |-> FALSE, w |-> w, h |-> h, mines |-> n,
                                              level |-> d[p + 7] + 2,
                                              mode |-> CASE d[p + 8] = 1 -> 0 [] d[p + 8] = 2 -> 3 [] d[p + 8] = 3 -> 1 [] OTHER -> 2,
                                              rtime |-> B16(d, p + 9) * 1000 + d[p + 11] * 10,
                                              bbbv |-> B16(d, p + 12),
                                              player |-> Sub(d, q + 1, l),
                                              ev |-> MvfEvents([k \in 1..cnt |-> MvfEvent(Sub(d, z + 5 * k, 5), ord)], 1),
                                              board |-> Numbered(h, w, LAMBDA i, j : <<i, j>> \in mines)]
=============================================================================
